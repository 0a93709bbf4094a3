//go:build preempt

package main

import "github.com/jakecoffman/cp/v2"

// preemptBuild: the library has a yield point before every statement (see ../inst).
const preemptBuild = true

func setYield(f, wait func()) { cp.VYield, cp.VWait = f, wait }

// setSlice sets the number of statements until the next yield, and the function in which every statement is one.
func setSlice(n, hot int) { cp.VLeft, cp.VHot = n, hot }

// sliceLeft is negative at the end of a slice.
func sliceLeft() int { return cp.VLeft }

// hotFunc picks a function, most often one that uses what all spaces share.
func hotFunc(r *Rng) int {
	if len(cp.VShared) > 0 && r.P(0.5) {
		return cp.VShared[r.Intn(len(cp.VShared))]
	}
	return r.Intn(cp.VFuncs)
}

func init() {
	plans["C17"] = []pick{{"threads", 1}}
}
