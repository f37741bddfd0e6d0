// Package yield is called before every statement of an instrumented build of the code under test.
package yield

// Hook is set while interleavings are explored.
var Hook func()

// Y hands control to the scheduler.
func Y() {
	if h := Hook; h != nil {
		h()
	}
}
