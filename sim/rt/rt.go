//go:build go1.25

// Package rt gives access to the goroutine-local state added to the Go runtime by the overlay, and to synctest bubbles.
package rt

import "unsafe"

// SetCtx attaches a context pointer to the current goroutine; goroutines it starts inherit it.
func SetCtx(p unsafe.Pointer)

// Ctx returns the context pointer of the current goroutine.
func Ctx() unsafe.Pointer

// ID returns the lineage identity of the current goroutine.
func ID() uint64

// SetID renames the current goroutine and restarts its random stream.
func SetID(id uint64)

// Seed sets the global seed of all random streams of goroutines started later, and the run-queue stream (0: natural order).
func Seed(seed, sched uint64)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

// Run runs f in a bubble with a fake clock.
func Run(f func()) { synctestRun(f) }

// Wait waits until every other goroutine of the bubble is blocked.
func Wait() { synctestWait() }
