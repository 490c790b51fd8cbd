package core

import "unsafe"

// getg returns the address of the running goroutine's descriptor, which
// identifies it for as long as it runs.
func getg() uintptr

// stackDepth is how many bytes of stack the goroutine is using: the descriptor
// begins with the bounds of its stack.
//
//go:noinline
func stackDepth(g uintptr) uintptr {
	var x byte
	hi := *(*uintptr)(unsafe.Add(unsafe.Pointer(nil), g+8))
	return hi - uintptr(unsafe.Pointer(&x))
}
