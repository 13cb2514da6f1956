//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

var syncCells [256]byte

// edge cells order what tasks did before handing a value over in the simulator.
func syncRelease(p uintptr) {
	runtime.RaceReleaseMerge(unsafe.Pointer(&syncCells[(p>>4)*2654435761%256]))
}
func syncAcquire(p uintptr) {
	runtime.RaceAcquire(unsafe.Pointer(&syncCells[(p>>4)*2654435761%256]))
}
