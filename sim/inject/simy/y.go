// Package simy is the scheduling point inserted before every statement of the
// program under test.
package simy

import "runtime"

func Y() { runtime.SimY() }
