//go:build !preempt

package main

const preemptBuild = false

func setYield(f, wait func()) {}
func setSlice(n, hot int)     {}
func sliceLeft() int          { return 0 }
func hotFunc(r *Rng) int      { return -1 }

func init() {
	plans["C17"] = []pick{{"worlds", 1}}
}
