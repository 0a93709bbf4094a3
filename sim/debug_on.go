//go:build debug

package main

// debugBuild: the assertions of the library are compiled in.
const debugBuild = true
