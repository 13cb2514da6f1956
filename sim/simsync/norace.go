//go:build !race

package simsync

func release(any) {}
func acquire(any) {}
