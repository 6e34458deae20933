package base

import (
	"testing"

	"solverif/ev"
)

func TestMain(m *testing.M) { ev.Main(m) }
