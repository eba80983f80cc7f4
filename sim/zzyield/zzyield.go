// Package zzyield is called before every statement of the engines.
package zzyield

// Hook is what the simulator does there.
var Hook func()

// Y lets another caller go on.
func Y() {
	if Hook != nil {
		Hook()
	}
}
