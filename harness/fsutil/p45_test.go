package fsutil

import (
	"testing"

	"solverif/ev"
)

// P45: the same histories, no files are open at the end

func TestTreesFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestTrees(t)
}

func TestHashFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestHash(t)
}

func TestArchivesFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestArchives(t)
}

func TestDamagedFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestDamaged(t)
}

func TestNoSpaceFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestNoSpace(t)
}

func TestWriterFiles(t *testing.T) {
	defer ev.WatchFiles()()
	TestWriter(t)
}
