//go:build !race

package simrt

func syncRelease(uintptr) {}
func syncAcquire(uintptr) {}
