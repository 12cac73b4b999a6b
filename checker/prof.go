package main

import (
	"os"
	"runtime/pprof"
)

func profile() func() {
	n := os.Getenv("KF_PROF")
	if n == "" {
		return func() {}
	}
	f, err := os.Create(n)
	if err != nil {
		return func() {}
	}
	_ = pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
