//go:build race

package simrt

import (
	"os"
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
func exit(c int)                        { os.Exit(c) }
