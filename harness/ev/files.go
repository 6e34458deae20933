package ev

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// NoGC switches the garbage collection off until the func returned is called: a lost file would be closed by the collector
func NoGC() func() {
	old := debug.SetGCPercent(-1)
	return func() { debug.SetGCPercent(old) }
}

// Held returns the files of the folder, which the process has opened ("fd:path") or mapped ("map:path"), with the number of times
func Held(dir string) map[string]int {
	dir, _ = filepath.EvalSymlinks(dir)
	dir += "/"
	res := map[string]int{}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("EV-ENV: " + err.Error())
	}
	for _, fd := range fds {
		if fn, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(fn, dir) {
			res["fd:"+fn[len(dir):]]++
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic("EV-ENV: " + err.Error())
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			res["map:"+l[i+len(dir):]]++
		}
	}
	return res
}

// HeldOnly returns the files which are held, but must not be: allowed are the paths in the dir, every one may be opened once and mapped once.
// What is being closed in background has some time for that
func HeldOnly(dir string, allowed func(path string) bool) string {
	for deadline := time.Now().Add(5 * time.Second); ; time.Sleep(time.Millisecond) {
		var bad []string
		for k, n := range Held(dir) {
			if _, p, _ := strings.Cut(k, ":"); n > 1 || !allowed(p) {
				bad = append(bad, fmt.Sprintf("%s (%d)", k, n))
			}
		}
		if len(bad) == 0 {
			return ""
		}
		if time.Now().After(deadline) {
			sort.Strings(bad)
			return strings.Join(bad, ", ")
		}
	}
}

// NoFiles is for HeldOnly: nothing may be held
func NoFiles(string) bool { return false }

var watchFiles bool

// WatchFiles makes Dir() check that nothing is held in the folder at the end of the case, until the func returned is called
func WatchFiles() func() {
	watchFiles = true
	return func() { watchFiles = false }
}
