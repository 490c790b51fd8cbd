// Package simhook is what the instrumented copy of the code under test calls.
// With no simulator attached every call is a no-op.
package simhook

import "runtime"

// Hook is called before every statement of the instrumented code.
var Hook func(site uint32)

// BlockHook is called, repeatedly, by a task that cannot proceed (simulated
// locks). It reports false when no simulator is attached.
var BlockHook func() bool

// ChooseHook draws from the simulator's choices.
var ChooseHook func(n int) int

// Y is the statement hook.
func Y(site uint32) {
	if h := Hook; h != nil {
		h(site)
	}
}

// Block gives up the processor until something may have changed.
func Block() {
	if h := BlockHook; h != nil && h() {
		return
	}
	runtime.Gosched()
}

// Choose returns a number in [0,n) that the simulator decides; 0 without one.
func Choose(n int) int {
	if h := ChooseHook; h != nil {
		return h(n)
	}
	return 0
}
