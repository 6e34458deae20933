package timeout

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/timeout"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

// late is how late a call may be made, it is much more than what is needed
const late = 2 * time.Second

// pace watches whether the process gets the processor
type pace struct{ worst atomic.Int64 }

func (p *pace) run() {
	last := time.Now()
	for {
		time.Sleep(20 * time.Millisecond)
		if d := int64(time.Since(last)); d > p.worst.Load() {
			p.worst.Store(d)
		}
		last = time.Now()
	}
}

// starved returns whether the process was delayed since the last call of the function
func (p *pace) starved() bool { return time.Duration(p.worst.Swap(0)) > 500*time.Millisecond }

var pc = func() *pace { p := &pace{}; go p.run(); return p }()

// one is a scheduled call
type one struct {
	delay    time.Duration
	work     time.Duration
	cancelAt time.Duration // since the beginning of the case, <0 - is not cancelled
	twice    bool
	nested   time.Duration // the function schedules one more call, if >= 0
	anchor   bool          // it is not expected to be executed

	due       time.Time // not before
	scheduled time.Time
	runs      atomic.Int32
	started   atomic.Int64
	cancelled atomic.Int64 // when Cancel() returned
	child     *one
}

func (o *one) schedule() timeout.Future {
	o.due = time.Now().Add(o.delay)
	fu := timeout.Call(func() {
		o.started.CompareAndSwap(0, time.Now().UnixNano())
		o.runs.Add(1)
		if o.work > 0 {
			time.Sleep(o.work)
		}
		if o.child != nil && o.runs.Load() == 1 {
			o.child.schedule()
			o.child.cancelled.Store(-1) // is scheduled
		}
	}, o.delay)
	o.scheduled = time.Now()
	return fu
}

// mayRun: the call was not cancelled for sure before its time
func (o *one) mustNotRun() bool {
	c := o.cancelled.Load()
	return c > 0 && c < o.due.UnixNano()
}

func (o *one) verdict(final bool) error {
	n, st := o.runs.Load(), o.started.Load()
	switch {
	case n > 1:
		return fmt.Errorf("the call in %s is executed %d times", o.delay, n)
	case n == 1 && st < o.due.UnixNano():
		return fmt.Errorf("the call in %s is executed %s earlier", o.delay, o.due.Sub(time.Unix(0, st)))
	case n == 1 && o.mustNotRun():
		return fmt.Errorf("the call in %s is executed, it was cancelled %s before its time", o.delay, o.due.Sub(time.Unix(0, o.cancelled.Load())))
	case n == 0 && final && o.cancelled.Load() <= 0:
		return fmt.Errorf("the call in %s is not executed", o.delay)
	case n == 1 && final && o.cancelled.Load() <= 0 && st > o.scheduled.Add(o.delay+late).UnixNano():
		return fmt.Errorf("the call in %s is late for %s", o.delay, time.Unix(0, st).Sub(o.scheduled.Add(o.delay)))
	}
	return nil
}

// TestCalls: P31 - scheduled and cancelled calls
func TestCalls(t *testing.T) {
	var all []*one
	ev.Check(t, "a call was scheduled before the ones scheduled earlier, some calls were cancelled in time, some are at the same moment", func(t *rapid.T) {
		ms := func(lo, hi int) time.Duration {
			return time.Duration(rapid.IntRange(lo, hi).Draw(t, "ms")) * time.Millisecond
		}
		var groups [][]*one
		span := rapid.IntRange(1, 120).Draw(t, "span")
		var calls []*one
		desc := ""
		var same, inTime bool
		for g := rapid.IntRange(1, 4).Draw(t, "goroutines"); g > 0; g-- {
			var grp []*one
			if rapid.IntRange(0, 2).Draw(t, "anchored") == 0 {
				grp = append(grp, &one{delay: time.Hour, cancelAt: -1, nested: -1, anchor: true})
			}
			for n := rapid.IntRange(1, 25).Draw(t, "calls"); n > 0; n-- {
				o := &one{delay: ms(0, span), cancelAt: -1, nested: -1}
				switch rapid.IntRange(0, 9).Draw(t, "kind") {
				case 0:
					o.delay = 0
				case 1:
					o.delay = -ms(0, 100)
				case 2, 3, 4:
					o.cancelAt = ms(0, span)
					o.twice = rapid.Bool().Draw(t, "twice")
					inTime = inTime || o.cancelAt < o.delay
				case 5:
					o.work = ms(0, 5)
				case 6:
					o.nested = ms(0, 10)
					o.child = &one{delay: o.nested, cancelAt: -1, nested: -1}
				case 7:
					same = true
					for k := rapid.IntRange(1, 30).Draw(t, "same"); k > 0; k-- {
						c := &one{delay: o.delay, cancelAt: -1, nested: -1}
						grp = append(grp, c)
					}
				}
				grp = append(grp, o)
				desc += fmt.Sprintf("%d/%d ", o.delay/time.Millisecond, o.cancelAt/time.Millisecond)
			}
			desc += "| "
			groups = append(groups, grp)
			calls = append(calls, grp...)
		}
		pause := time.Duration(rapid.IntRange(0, 300).Draw(t, "pause")) * time.Microsecond
		pc.starved()
		begin := time.Now()
		var wg sync.WaitGroup
		var anchors sync.Map
		for _, grp := range groups {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var inner sync.WaitGroup
				for i, o := range grp {
					fu := o.schedule()
					if o.anchor {
						anchors.Store(o, fu)
					} else if o.cancelAt >= 0 {
						inner.Add(1)
						go func() {
							defer inner.Done()
							time.Sleep(time.Until(begin.Add(o.cancelAt)))
							fu.Cancel()
							o.cancelled.Store(time.Now().UnixNano())
							if o.twice {
								fu.Cancel()
							}
						}()
					}
					if i%3 == 2 {
						time.Sleep(pause)
					}
				}
				inner.Wait()
			}()
		}
		wg.Wait()
		// all the calls must be made meanwhile
		end := time.Now().Add(2 * late)
		for {
			done := true
			for _, o := range calls {
				if !o.anchor && o.cancelled.Load() <= 0 && (o.runs.Load() == 0 || (o.child != nil && o.child.runs.Load() == 0)) {
					done = false
				}
			}
			if done || time.Now().After(end) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		last := begin
		for _, o := range calls {
			if !o.anchor && o.due.After(last) {
				last = o.due
			}
		}
		time.Sleep(time.Until(last.Add(3 * time.Millisecond)))
		anchors.Range(func(o, fu any) bool {
			fu.(timeout.Future).Cancel()
			if o.(*one).runs.Load() > 0 {
				t.Fatalf("the call in an hour is executed already")
			}
			return true
		})
		starved := pc.starved()
		for _, o := range calls {
			if o.anchor {
				continue
			}
			if err := o.verdict(!starved); err != nil {
				t.Fatal(err)
			}
			if o.child != nil && o.runs.Load() == 1 && !starved {
				if err := o.child.verdict(true); err != nil {
					t.Fatalf("scheduled by another call: %v", err)
				}
			}
			all = append(all, o)
		}
		ev.Case(t, same && inTime && len(calls) > 5, "%s", desc)
	})
	for _, o := range all {
		if err := o.verdict(false); err != nil {
			t.Fatalf("EV-FAIL: %v", err)
		}
	}
}

// TestQuiet: P31 - calls are executed after the workers had nothing to do for a long time
func TestQuiet(t *testing.T) {
	ev.Rule(t, "nothing was executed for more than 20 seconds before")
	cases, _ := strconv.Atoi(os.Getenv("VERIF_CASES"))
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if cases == 0 {
		cases = 2
	}
	gen := rapid.Custom(func(t *rapid.T) []int {
		return []int{rapid.IntRange(1, 40).Draw(t, "burst"), rapid.SampledFrom([]int{29900, 29999, 30000, 30001, 30010, 30100, 59900, 60001, 60100, 45000}).Draw(t, "pause"), rapid.IntRange(0, 20).Draw(t, "delay"), rapid.IntRange(0, 4).Draw(t, "more")}
	})
	for i := 0; i < cases; i++ {
		c := gen.Example(seed*1009 + i)
		burst := func(n int, d time.Duration) {
			pc.starved()
			var os []*one
			for k := 0; k < n; k++ {
				o := &one{delay: d, cancelAt: -1, nested: -1}
				o.schedule()
				os = append(os, o)
			}
			end := time.Now().Add(2 * late)
			for _, o := range os {
				for o.runs.Load() == 0 && time.Now().Before(end) {
					time.Sleep(time.Millisecond)
				}
			}
			starved := pc.starved()
			for _, o := range os {
				if err := o.verdict(!starved); err != nil {
					t.Fatalf("EV-FAIL: %v: %v", c, err)
				}
			}
		}
		burst(c[0], time.Millisecond)
		time.Sleep(time.Duration(c[1]) * time.Millisecond)
		burst(1+c[3], time.Duration(c[2])*time.Millisecond)
		ev.Case(t, c[1] > 20000, "%v", c)
	}
}
