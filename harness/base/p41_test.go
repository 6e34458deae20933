package base

import (
	"context"
	stderrors "errors"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/chans"
	solctx "github.com/solarisdb/solaris/golibs/context"
	"github.com/solarisdb/solaris/golibs/errors"
	"pgregory.net/rapid"
)

const soon = 20 * time.Second // it is never waited for, if everything is fine

func isDone(c context.Context) bool {
	select {
	case <-c.Done():
		return true
	default:
		return false
	}
}

type ctxKey string

// TestContexts: P41 - a tree of contexts and the events
func TestContexts(t *testing.T) {
	type node struct {
		kind   string
		ctx    context.Context
		ch     chan struct{}
		cancel func(error)
		parent int
		// the model
		done  bool
		err   error // expected error, if it is known
		depth int
	}
	ev.Check(t, "there is a cancelled (with an error) context with a parent or a child, which is done later", func(t *rapid.T) {
		before := runtime.NumGoroutine()
		var nodes []*node
		var trace []string
		add := func(n *node) {
			if n.parent >= 0 {
				p := nodes[n.parent]
				n.depth = p.depth + 1
				if p.done {
					n.done = true
					n.err = p.err
				}
			}
			nodes = append(nodes, n)
			trace = append(trace, fmt.Sprintf("%d:%s<-%d", len(nodes)-1, n.kind, n.parent))
		}
		far := time.Now().Add(time.Hour)
		var finish func(i int, err error)
		finish = func(i int, err error) {
			n := nodes[i]
			if n.done {
				return
			}
			n.done, n.err = true, err
			for j, c := range nodes {
				if c.parent == i {
					finish(j, err)
				}
			}
		}
		firstCancelled := false
		interesting := false
		check := func() {
			t.Helper()
			for i, n := range nodes {
				if n.done {
					select {
					case <-n.ctx.Done():
					case <-time.After(soon):
						t.Fatalf("the context %d is not done\n%v", i, trace)
					}
				}
				if d := isDone(n.ctx); d != n.done {
					t.Fatalf("the context %d is done: %t\n%v", i, d, trace)
				}
				err := n.ctx.Err()
				if (err != nil) != n.done {
					t.Fatalf("the context %d has the error %v, done: %t\n%v", i, err, n.done, trace)
				}
				if n.done && n.kind == "cancelErr" && !stderrors.Is(err, n.err) {
					t.Fatalf("the context %d has the error %v, expected %v\n%v", i, err, n.err, trace)
				}
				if n.done && n.kind == "chan" && !stderrors.Is(err, errors.ErrClosed) {
					t.Fatalf("the context %d of the closed channel has the error %v\n%v", i, err, trace)
				}
				// values and deadlines come from the parents
				depth := -1
				for j := i; j >= 0; j = nodes[j].parent {
					if nodes[j].kind == "value" {
						depth = nodes[j].depth
						break
					}
				}
				v := n.ctx.Value(ctxKey("k"))
				if depth >= 0 && v != depth || depth < 0 && v != nil {
					t.Fatalf("the context %d has the value %v, expected %d\n%v", i, v, depth, trace)
				}
				hasDL := false
				for j := i; j >= 0; j = nodes[j].parent {
					hasDL = hasDL || nodes[j].kind == "deadline"
				}
				dl, ok := n.ctx.Deadline()
				if ok != hasDL || ok && !dl.Equal(far) {
					t.Fatalf("the context %d has the deadline %v %t, expected %t\n%v", i, dl, ok, hasDL, trace)
				}
			}
		}
		add(&node{kind: "root", ctx: context.Background(), parent: -1})
		for k := rapid.IntRange(1, 25).Draw(t, "ops"); k > 0; k-- {
			op := rapid.SampledFrom([]string{"cancelErr", "cancelErr", "chan", "std", "value", "deadline", "do", "do", "do"}).Draw(t, "op")
			p := rapid.IntRange(0, len(nodes)-1).Draw(t, "node")
			pc := nodes[p].ctx
			switch op {
			case "cancelErr":
				c, cf := solctx.WithCancelError(pc)
				add(&node{kind: op, ctx: c, cancel: cf, parent: p})
			case "chan":
				ch := make(chan struct{})
				if rapid.IntRange(0, 4).Draw(t, "nilCh") == 0 {
					add(&node{kind: "nilchan", ctx: solctx.WrapChannel(nil), parent: -1})
					continue
				}
				n := &node{kind: op, ctx: solctx.WrapChannel(ch), ch: ch, parent: -1}
				add(n)
				if rapid.IntRange(0, 3).Draw(t, "closed") == 0 {
					close(ch)
					n.ch = nil
					n.done, n.err = true, errors.ErrClosed
				}
			case "std":
				c, cf := context.WithCancel(pc)
				add(&node{kind: op, ctx: c, cancel: func(error) { cf() }, parent: p})
			case "value":
				add(&node{kind: op, ctx: context.WithValue(pc, ctxKey("k"), nodes[p].depth+1), parent: p})
			case "deadline":
				c, cf := context.WithDeadline(pc, far)
				add(&node{kind: op, ctx: c, cancel: func(error) { cf() }, parent: p})
			case "do":
				n := nodes[p]
				var err error
				switch {
				case n.ch != nil:
					trace = append(trace, fmt.Sprintf("close#%d", p))
					close(n.ch)
					n.ch = nil
					finish(p, errors.ErrClosed)
				case n.cancel != nil:
					var with error
					if rapid.IntRange(0, 3).Draw(t, "nilErr") > 0 {
						with = fmt.Errorf("error %d", k)
					}
					trace = append(trace, fmt.Sprintf("cancel#%d(%v)", p, with))
					interesting = interesting || firstCancelled && n.done
					n.cancel(with)
					err = with
					if with == nil {
						err = errors.ErrClosed
					}
					if n.kind != "cancelErr" {
						err = context.Canceled
					}
					if n.kind == "cancelErr" && (n.parent > 0 || !n.done) {
						firstCancelled = true
					}
					finish(p, err)
				}
			}
			check()
		}
		for i, n := range nodes {
			if n.cancel != nil {
				n.cancel(nil)
				finish(i, nil)
			}
		}
		// nobody is left behind
		for dl := time.Now().Add(soon); runtime.NumGoroutine() > before; {
			if time.Now().After(dl) {
				t.Fatalf("%d go-routines are left\n%v", runtime.NumGoroutine()-before, trace)
			}
			time.Sleep(50 * time.Microsecond)
		}
		ev.Case(t, interesting || firstCancelled && len(nodes) > 3, "%.300v", fmt.Sprint(trace))
	})
}

// TestCancelRace: P41 - concurrent cancellations, the first one wins for everybody
func TestCancelRace(t *testing.T) {
	ev.Check(t, "at least 3 concurrent cancellations", func(t *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		withParent := rapid.Bool().Draw(t, "parent")
		pctx, pcancel := context.WithCancel(context.Background())
		defer pcancel()
		c, cf := solctx.WithCancelError(pctx)
		allowed := map[error]bool{}
		var errs []error
		for i := 0; i < n; i++ {
			e := fmt.Errorf("error %d", i)
			errs = append(errs, e)
			allowed[e] = true
		}
		if withParent {
			allowed[context.Canceled] = true
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		seen := make([]error, n+2)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				cf(errs[i])
				seen[i] = c.Err()
			}()
		}
		var bad atomic.Bool
		for i := n; i < n+2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for {
					// the error must be there, if it is done
					if isDone(c) {
						seen[i] = c.Err()
						return
					}
					if e := c.Err(); e != nil {
						<-c.Done()
						if c.Err() != e {
							bad.Store(true)
						}
					}
				}
			}()
		}
		if withParent {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				pcancel()
			}()
		}
		close(start)
		wg.Wait()
		final := c.Err()
		for i, e := range seen {
			if e != final || e == nil || !allowed[e] {
				t.Fatalf("the observer %d of %d has seen %v, the final one is %v", i, n, e, final)
			}
		}
		if bad.Load() {
			t.Fatal("the error has been changed")
		}
		ev.Case(t, n > 2, "n=%d parent=%t seen=%v", n, withParent, final)
	})
}

// TestSleep: P41 - the time or the context, whichever is earlier
func TestSleep(t *testing.T) {
	ev.Check(t, "both the time and the cancellation are within milliseconds of the start", func(t *rapid.T) {
		d := time.Duration(rapid.SampledFrom([]int64{-1000, 0, 1, 100, 1000, 3000, 8000, int64(time.Hour / time.Microsecond)}).Draw(t, "d")) * time.Microsecond
		cancelAt := time.Duration(rapid.SampledFrom([]int64{-1, 0, 10, 1000, 3000, 6000}).Draw(t, "cancelAt")) * time.Microsecond
		if cancelAt < 0 && d > time.Minute {
			cancelAt = 0
		}
		kind := rapid.SampledFrom([]string{"std", "err", "chan", "timeout"}).Draw(t, "kind")
		var c context.Context
		var cancel func()
		var want error
		created := time.Now()
		switch kind {
		case "std":
			c, cancel = context.WithCancel(context.Background())
			want = context.Canceled
		case "err":
			want = fmt.Errorf("the reason")
			cc, cf := solctx.WithCancelError(context.Background())
			c, cancel = cc, func() { cf(want) }
		case "chan":
			ch := make(chan struct{})
			var once sync.Once
			c, cancel = solctx.WrapChannel(ch), func() { once.Do(func() { close(ch) }) }
			want = errors.ErrClosed
		case "timeout":
			to := cancelAt
			if to < 0 {
				to = time.Hour
			}
			var cf func()
			c, cf = context.WithTimeout(context.Background(), to)
			defer cf()
			cancel = func() {}
			want = context.DeadlineExceeded
		}
		start := time.Now()
		if cancelAt == 0 {
			cancel()
		} else if cancelAt > 0 {
			tm := time.AfterFunc(cancelAt, cancel)
			defer tm.Stop()
		}
		var err error
		ev.Within(t, soon, "Sleep()", func() { err = solctx.Sleep(c, d) })
		took := time.Since(start)
		cancel()
		if err == nil {
			if took < d {
				t.Fatalf("Sleep(%s) took %s", d, took)
			}
			if d > time.Minute {
				t.Fatal("slept for an hour")
			}
			if cancelAt == 0 && d > 0 && kind != "timeout" && d >= time.Millisecond*3 {
				t.Fatalf("Sleep(%s) with the cancelled context (%s) returned no error", d, kind)
			}
		} else {
			if cancelAt < 0 {
				t.Fatalf("Sleep(%s) returned %v, but nobody cancelled it", d, err)
			}
			if !stderrors.Is(err, want) {
				t.Fatalf("Sleep(%s) returned %v, expected %v", d, err, want)
			}
			if took := time.Since(created); took < cancelAt {
				t.Fatalf("Sleep(%s) was interrupted after %s, but the context is cancelled after %s", d, took, cancelAt)
			}
		}
		ev.Case(t, d > 0 && d < time.Minute && cancelAt >= 0 && cancelAt < time.Minute, "%s d=%s cancel=%s: %v", kind, d, cancelAt, err)
	})
}

// TestSignals: P41 - the context is closed by its signals only
func TestSignals(t *testing.T) {
	ev.Check(t, "a signal is sent", func(t *rapid.T) {
		all := []os.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH}
		subset := rapid.IntRange(1, 7).Draw(t, "subset")
		var sigs []os.Signal
		for i, s := range all {
			if subset&(1<<i) != 0 {
				sigs = append(sigs, s)
			}
		}
		// the contexts which were made before get the signals as well
		ignore := solctx.NewSignalsContext(all...)
		c := solctx.NewSignalsContext(sigs...)
		if c.Err() != nil || isDone(c) {
			t.Fatal("done without a signal")
		}
		si := rapid.IntRange(0, 2).Draw(t, "signal")
		_ = syscall.Kill(syscall.Getpid(), all[si].(syscall.Signal))
		select {
		case <-ignore.Done():
		case <-time.After(soon):
			t.Fatalf("the signal %v is lost", all[si])
		}
		exp := subset&(1<<si) != 0
		if exp {
			select {
			case <-c.Done():
			case <-time.After(soon):
				t.Fatalf("the signal %v of %v is lost", all[si], sigs)
			}
		} else {
			time.Sleep(200 * time.Microsecond)
			if isDone(c) || c.Err() != nil {
				t.Fatalf("the signal %v is not expected by %v", all[si], sigs)
			}
			_ = syscall.Kill(syscall.Getpid(), sigs[0].(syscall.Signal))
			select {
			case <-c.Done():
			case <-time.After(soon):
				t.Fatalf("the signal %v of %v is lost", sigs[0], sigs)
			}
		}
		if c.Err() == nil {
			t.Fatal("done without an error")
		}
		ev.Case(t, true, "signals=%v sent=%v", sigs, all[si])
	})
}

// TestChans: P41 - the helpers for channels
func TestChans(t *testing.T) {
	ev.Check(t, "at least two channels", func(t *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		type desc struct {
			done   chan struct{}
			ch     chan int
			free   int
			closed bool
		}
		var ds []*desc
		var wd []chans.WriteDesc[int]
		ready := func() bool {
			for _, d := range ds {
				if d.closed || d.free > 0 {
					return true
				}
			}
			return false
		}
		for i := 0; i < n; i++ {
			d := &desc{done: make(chan struct{}), free: rapid.IntRange(0, 2).Draw(t, "free")}
			d.ch = make(chan int, d.free)
			if rapid.IntRange(0, 4).Draw(t, "closed") == 0 {
				d.closed = true
				close(d.done)
			}
			w := chans.WriteDesc[int]{DoneChan: d.done, WrtChan: d.ch}
			switch rapid.IntRange(0, 5).Draw(t, "nils") {
			case 0:
				if !d.closed {
					w.DoneChan = nil
				}
			case 1:
				d.free = 0
				w.WrtChan = nil
			}
			ds = append(ds, d)
			wd = append(wd, w)
		}
		var trace []string
		for k := 0; k < 12; k++ {
			if !ready() {
				// somebody does something later
				i := rapid.IntRange(0, n-1).Draw(t, "late")
				d := ds[i]
				how := rapid.SampledFrom([]string{"close", "read"}).Draw(t, "how")
				if how == "read" && wd[i].WrtChan == nil || how == "close" && wd[i].DoneChan == nil {
					break
				}
				got := make(chan int, 1)
				go func() {
					if how == "close" {
						close(d.done)
					} else {
						got <- <-d.ch
					}
				}()
				var idx int
				var ok bool
				ev.Within(t, soon, "WriteToManyWithControl", func() { idx, ok = chans.WriteToManyWithControl(wd, 100+k) })
				trace = append(trace, fmt.Sprintf("late %s#%d", how, i))
				if idx != i || ok != (how == "read") {
					t.Fatalf("%s of %d: returned %d %t\n%v", how, i, idx, ok, trace)
				}
				if how == "read" {
					v := <-got
					if cap(d.ch) == 0 && v != 100+k {
						t.Fatalf("written %d, but %d is read", 100+k, v)
					}
					if cap(d.ch) > 0 {
						break
					}
					continue
				}
				d.closed = true
				continue
			}
			idx, ok := chans.WriteToManyWithControl(wd, k)
			trace = append(trace, fmt.Sprintf("%d:%t", idx, ok))
			if idx < 0 || idx >= n || !ok && !ds[idx].closed || ok && ds[idx].free == 0 {
				t.Fatalf("returned %d %t\n%v", idx, ok, trace)
			}
			if ok {
				ds[idx].free--
				if len(ds[idx].ch) != cap(ds[idx].ch)-ds[idx].free {
					t.Fatalf("it is not written to %d\n%v", idx, trace)
				}
			}
			total, written := 0, 0
			for _, d := range ds {
				total += len(d.ch)
			}
			for i, d := range ds {
				if wd[i].WrtChan != nil {
					written += cap(d.ch) - d.free
				}
			}
			if total != written {
				t.Fatalf("%d values in the channels, %d expected\n%v", total, written, trace)
			}
		}
		var nilCh chan int
		cl := make(chan int)
		if chans.IsOpened(nilCh) || !chans.IsOpened(cl) {
			t.Fatal("IsOpened of not closed channels")
		}
		close(cl)
		if chans.IsOpened(cl) {
			t.Fatal("IsOpened of a closed channel")
		}
		ev.Case(t, n > 1, "n=%d %v", n, trace)
	})
}
