//go:build !race

package simrt

import (
	"os"
	"unsafe"
)

const RaceEnabled = false

func RaceAcquire(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
func exit(c int)                        { os.Exit(c) }
