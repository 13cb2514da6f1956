//go:build race

package simsync

import (
	"runtime"
	"unsafe"
)

var cells [128]byte

func cell(x any) unsafe.Pointer {
	p := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	return unsafe.Pointer(&cells[(p>>4)*2654435761%128])
}
func release(x any) { runtime.RaceReleaseMerge(cell(x)) }
func acquire(x any) { runtime.RaceAcquire(cell(x)) }
