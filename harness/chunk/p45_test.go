package chunk

import (
	"testing"

	"solverif/ev"
)

// P45: the same histories, no files are open at the end

func TestCapacityFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestCapacity(t)
}

func TestReopenFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestReopen(t)
}

func TestDamagedFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestDamaged(t)
}
