package coll

import (
	"testing"

	"solverif/ev"
)

func TestMain(m *testing.M) { ev.Main(m) }

// panics returns what fn panics with
func panics(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}
