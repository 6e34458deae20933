// Package ev is the bookkeeping shared by all property checks: it counts the generated cases, keeps samples of them,
// runs every case under a (generous) watchdog and flushes the counters into the file named by VERIF_EV_OUT.
package ev

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/solarisdb/solaris/golibs/logging"
	"pgregory.net/rapid"
)

type tstat struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Samples     []string       `json:"samples"`
	Labels      map[string]int `json:"labels"`
	keys        map[uint64]struct{}
	rnd         *rand.Rand
}

var (
	mu     sync.Mutex
	stats  = map[string]*tstat{}
	hung   bool
	Budget = 90 * time.Second
)

const heapLimit = 8 << 30

// nullLogger swallows everything the system under test logs
type nullLogger struct{}

func (nullLogger) Warnf(string, ...interface{})  {}
func (nullLogger) Errorf(string, ...interface{}) {}
func (nullLogger) Infof(string, ...interface{})  {}
func (nullLogger) Debugf(string, ...interface{}) {}
func (nullLogger) Tracef(string, ...interface{}) {}

// Main must be called from TestMain
func Main(m *testing.M) {
	if os.Getenv("VERIF_LOG") == "" {
		Silent()
	}
	flag.Parse()
	rc := m.Run()
	Flush()
	os.Exit(rc)
}

// Silent switches the logging of the system under test off
func Silent() {
	logging.SetConfig(logging.Config{
		NewLoggerF: func(string) logging.Logger { return nullLogger{} },
		SetLevelF:  func(logging.Level) {},
		GetLevelF:  func() logging.Level { return logging.ERROR },
	})
}

// Flush writes the counters out
func Flush() {
	out := os.Getenv("VERIF_EV_OUT")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	b, _ := json.Marshal(stats)
	_ = os.WriteFile(out, b, 0644)
}

func stat(test string) *tstat {
	if i := strings.IndexAny(test, "/#"); i > 0 {
		test = test[:i]
	}
	s, ok := stats[test]
	if !ok {
		s = &tstat{keys: map[uint64]struct{}{}, Labels: map[string]int{}, rnd: rand.New(rand.NewSource(1))}
		stats[test] = s
	}
	return s
}

type T interface {
	Name() string
}

// Case registers one evaluated case. nontrivial says whether the case satisfies the rule stated for the test; the
// formatted text is a description of the case: it is used for telling the distinct cases and as a sample
func Case(t T, nontrivial bool, format string, args ...any) {
	txt := fmt.Sprintf(format, args...)
	mu.Lock()
	defer mu.Unlock()
	s := stat(t.Name())
	s.Evaluations++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(txt))
	k := h.Sum64()
	if _, ok := s.keys[k]; ok {
		return
	}
	s.keys[k] = struct{}{}
	s.Nontrivial++
	if len(txt) > 600 {
		txt = txt[:600] + "..."
	}
	// reservoir sampling with a fixed source: the samples are spread over the whole run
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, txt)
	} else if i := s.rnd.Intn(s.Nontrivial); i < 4 {
		s.Samples[i] = txt
	}
}

// Label counts how many times the class was met
func Label(t T, lbl string) {
	mu.Lock()
	defer mu.Unlock()
	stat(t.Name()).Labels[lbl]++
}

// Check is rapid.Check, where every case is executed under the watchdog
func Check(t *testing.T, rule string, prop func(t *rapid.T)) {
	t.Helper()
	mu.Lock()
	stat(t.Name()).Rule = rule
	mu.Unlock()
	rapid.Check(t, func(rt *rapid.T) {
		Within(rt, Budget, "the case", func() { prop(rt) })
	})
}

// Rule states the rule for a test, which doesn't use Check()
func Rule(t T, rule string) {
	mu.Lock()
	defer mu.Unlock()
	stat(t.Name()).Rule = rule
}

type failer interface {
	Name() string
	Fatalf(format string, args ...any)
	Logf(format string, args ...any)
}

type outcome struct {
	val    any
	stack  []byte
	goexit bool
}

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func heapNow() uint64 {
	s := []metrics.Sample{{Name: heapSample[0].Name}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// Within runs fn and fails the test if fn does not return in (a generous) d: the code under test hangs, or eats all the memory.
// Panics of fn are passed to the caller
func Within(t failer, d time.Duration, what string, fn func()) {
	mu.Lock()
	if hung && d > 20*time.Second {
		d = 20 * time.Second // a hang is found already, now it is being minimized
	}
	mu.Unlock()
	done := make(chan outcome, 1)
	go func() {
		o := outcome{goexit: true}
		defer func() {
			if o.goexit {
				if r := recover(); r != nil {
					o = outcome{val: r, stack: debug.Stack()}
				}
			}
			done <- o
		}()
		fn()
		o.goexit = false
	}()
	deadline := time.NewTimer(d)
	defer deadline.Stop()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case o := <-done:
			if o.val != nil {
				// rapid tells the failures by the place where the panic comes from, so the places must be different
				switch fmt.Sprintf("%T", o.val) {
				case "rapid.invalidData":
					panic(o.val)
				case "rapid.stopTest":
					panic(o.val)
				}
				t.Logf("panic: %v\n%s", o.val, o.stack)
				panic(o.val)
			}
			if o.goexit {
				runtime.Goexit()
			}
			return
		case <-tick.C:
			if heapNow() > heapLimit {
				stacks(t)
				fmt.Printf("EV-RUNAWAY-MEMORY in %s: %s uses more than %d bytes of the heap\n", t.Name(), what, heapLimit)
				Flush()
				os.Exit(7)
			}
		case <-deadline.C:
			mu.Lock()
			hung = true
			mu.Unlock()
			stacks(t)
			t.Fatalf("EV-HANG: %s did not complete in %s", what, d)
		}
	}
}

func stacks(t failer) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	if n > 20000 {
		n = 20000
	}
	t.Logf("goroutines:\n%s", buf[:n])
}

// Dir creates a scratch directory for one case and returns its name and the function for removing it
func Dir(t failer) (string, func()) {
	d, err := os.MkdirTemp("", "solverif")
	if err != nil {
		fmt.Printf("EV-ENV: could not create a scratch dir: %v\n", err)
		os.Exit(3)
	}
	if !watchFiles {
		return d, func() { _ = os.RemoveAll(d) }
	}
	restore := NoGC()
	return d, func() {
		bad := HeldOnly(d, NoFiles)
		_ = os.RemoveAll(d)
		restore()
		if bad != "" {
			t.Fatalf("everything is closed, but some files are held: %s", bad)
		}
	}
}

// Ctx returns a background context
func Ctx() context.Context { return context.Background() }

// Budgeted returns quick or thorough by the tier
func Budgeted(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// Big returns the factor of the sizes in the case: 1, rarely - 40
func Big(t *rapid.T) int {
	if rapid.IntRange(0, 24).Draw(t, "big") < 24 {
		return 1
	}
	return 40
}
