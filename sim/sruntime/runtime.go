//go:build go1.25

// Package sruntime is package runtime with a simulated machine.
package sruntime

import (
	"runtime"

	"verif.local/sim/kern"
)

func NumCPU() int {
	if p := kern.TryCurrent(); p != nil {
		return p.NumCPU
	}
	return 4
}

func GOMAXPROCS(n int) int { return NumCPU() }

const (
	GOOS   = "linux"
	GOARCH = "amd64"
)

func Gosched() { runtime.Gosched() }
