//go:build !debug

package main

const debugBuild = false
