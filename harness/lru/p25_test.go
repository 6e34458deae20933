package lru

import (
	"context"
	stderrors "errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/golibs/errors"
	"pgregory.net/rapid"
)

const soon = 20 * time.Second

// res is a resource of the pool
type res struct {
	key     string
	n       int
	dead    bool
	holders int
}

type creation struct {
	key  string
	gate chan error
	ctx  context.Context
}

type request struct {
	id        int
	key       string
	cancel    func()
	cancelled bool
	done      chan struct{}
	r         lru.Releasable[*res]
	err       error
	creating  bool
}

// pool observes the callbacks of the pool under the test
type pool struct {
	mu        sync.Mutex
	bad       []string
	capacity  int
	live      map[string]*res // created, not destroyed
	creations []*creation     // in progress
	n         int
	inDestroy int
}

func (p *pool) create(ctx context.Context, k string) (*res, error) {
	p.mu.Lock()
	cr := &creation{key: k, gate: make(chan error, 1), ctx: ctx}
	if p.live[k] != nil {
		p.bad = append(p.bad, "creating "+k+", which is alive")
	}
	for _, c := range p.creations {
		if c.key == k {
			p.bad = append(p.bad, "two concurrent creations of "+k)
		}
	}
	p.creations = append(p.creations, cr)
	if n := len(p.live) + len(p.creations); n > p.capacity {
		p.bad = append(p.bad, fmt.Sprintf("%d resources with the new one, the capacity is %d", n, p.capacity))
	}
	p.mu.Unlock()
	err := <-cr.gate
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, c := range p.creations {
		if c == cr {
			p.creations = append(p.creations[:i:i], p.creations[i+1:]...)
		}
	}
	if err != nil {
		return nil, err
	}
	p.n++
	r := &res{key: k, n: p.n}
	p.live[k] = r
	return r, nil
}

func (p *pool) destroy(k string, r *res) {
	p.mu.Lock()
	defer p.mu.Unlock()
	switch {
	case r == nil:
		p.bad = append(p.bad, "destroying nothing for "+k)
	case r.dead || r.key != k || p.live[k] != r:
		p.bad = append(p.bad, fmt.Sprintf("destroying %+v for %s", *r, k))
	case r.holders > 0:
		p.bad = append(p.bad, fmt.Sprintf("destroying %s, which has %d holders", k, r.holders))
	}
	if r != nil {
		r.dead = true
		delete(p.live, k)
	}
}

func (p *pool) check(t *rapid.T, trace []string) {
	t.Helper()
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.bad) > 0 {
		t.Fatalf("%v\n%v", p.bad, trace)
	}
}

// TestPool: P25 - the creations end when the test says; it knows who must make a progress
func TestPool(t *testing.T) {
	ev.Check(t, "somebody was waiting for a slot, and there was a failure, a cancellation or the close meanwhile", func(t *rapid.T) {
		p := &pool{capacity: rapid.IntRange(1, 4).Draw(t, "capacity"), live: map[string]*res{}}
		c, err := lru.NewReleasableCache[string, *res](p.capacity, p.create, p.destroy)
		if err != nil {
			t.Fatal(err)
		}
		var trace []string
		var pending []*request
		var held []*request
		closed := false
		ids := 0
		nkeys := rapid.IntRange(1, 6).Draw(t, "keys")
		waited, event := false, false
		errPlanned := fmt.Errorf("planned failure")
		get := func(k string, preCancelled bool) {
			ids++
			ctx, cancel := context.WithCancel(context.Background())
			rq := &request{id: ids, key: k, cancel: cancel, done: make(chan struct{})}
			if preCancelled {
				cancel()
				rq.cancelled = true
			}
			pending = append(pending, rq)
			trace = append(trace, fmt.Sprintf("get#%d %s", ids, k))
			go func() {
				rq.r, rq.err = c.GetOrCreate(ctx, k)
				close(rq.done)
			}()
		}
		isDone := func(rq *request) bool {
			select {
			case <-rq.done:
				return true
			default:
				return false
			}
		}
		// must says whether somebody must make a progress
		must := func() string {
			heldKeys := map[string]bool{}
			for _, h := range held {
				heldKeys[h.key] = true
			}
			p.mu.Lock()
			defer p.mu.Unlock()
			creating := map[string]bool{}
			for _, cr := range p.creations {
				creating[cr.key] = true
			}
			creators := len(creating)
			for _, rq := range pending {
				if creating[rq.key] && creators > 0 {
					continue // either the creator, or waits for it. A cancelled one is considered below
				}
				if closed {
					return fmt.Sprintf("get#%d of the closed pool", rq.id)
				}
				if heldKeys[rq.key] {
					return fmt.Sprintf("get#%d of %s, which is held", rq.id, rq.key)
				}
				if len(heldKeys)+len(creating) < p.capacity {
					return fmt.Sprintf("get#%d of %s, there is a place: %d held, %d are being created, the capacity is %d", rq.id, rq.key, len(heldKeys), len(creating), p.capacity)
				}
				if rq.cancelled {
					return fmt.Sprintf("the cancelled get#%d", rq.id)
				}
			}
			// of the callers of a key which is being created only one creates, the others are watchers
			for k := range creating {
				watchers, all := 0, 0
				for _, rq := range pending {
					if rq.key == k {
						all++
						if rq.cancelled {
							watchers++
						}
					}
				}
				if all > 1 && watchers == all {
					return "cancelled watchers of " + k
				}
				if closed && all > 1 {
					return "watchers of " + k + " of the closed pool"
				}
			}
			return ""
		}
		collect := func() {
			for i := 0; i < len(pending); i++ {
				rq := pending[i]
				if !isDone(rq) {
					continue
				}
				pending = append(pending[:i:i], pending[i+1:]...)
				i--
				if rq.err == nil {
					r := rq.r.Value()
					p.mu.Lock()
					if r == nil || r.dead || r.key != rq.key || p.live[rq.key] != r {
						p.mu.Unlock()
						t.Fatalf("get#%d returned %+v\n%v", rq.id, r, trace)
					}
					r.holders++
					p.mu.Unlock()
					if closed {
						// it could have been obtained just before
						trace = append(trace, fmt.Sprintf("got#%d", rq.id))
					}
					held = append(held, rq)
					continue
				}
				trace = append(trace, fmt.Sprintf("err#%d", rq.id))
				switch {
				case stderrors.Is(rq.err, errPlanned) && event:
				case stderrors.Is(rq.err, context.Canceled) && rq.cancelled:
				case errors.Is(rq.err, errors.ErrClosed) && closed:
				default:
					t.Fatalf("get#%d returned the error %v\n%v", rq.id, rq.err, trace)
				}
				rq.cancel()
			}
		}
		settle := func() {
			deadline := time.Now().Add(soon)
			for i := 0; ; i++ {
				collect()
				p.check(t, trace)
				m := must()
				if m == "" {
					break
				}
				if time.Now().After(deadline) {
					t.Fatalf("no progress in %s: %s\n%v", soon, m, trace)
				}
				if i < 200 {
					runtime.Gosched()
				} else {
					time.Sleep(20 * time.Microsecond)
				}
			}
			if len(pending) > 0 && len(held) > 0 {
				waited = true
			}
		}
		release := func(i int) {
			rq := held[i]
			held = append(held[:i:i], held[i+1:]...)
			p.mu.Lock()
			r := rq.r.Value()
			if r.dead {
				p.mu.Unlock()
				t.Fatalf("%s is destroyed, but it is held by #%d\n%v", rq.key, rq.id, trace)
			}
			r.holders--
			last := r.holders == 0
			p.mu.Unlock()
			trace = append(trace, fmt.Sprintf("release#%d", rq.id))
			c.Release(&rq.r)
			rq.cancel()
			if closed {
				p.mu.Lock()
				if last != r.dead {
					p.mu.Unlock()
					t.Fatalf("the last holder: %t, destroyed: %t, after the close\n%v", last, r.dead, trace)
				}
				p.mu.Unlock()
			}
		}
		finish := func(i int, err error) {
			p.mu.Lock()
			cr := p.creations[i]
			p.mu.Unlock()
			trace = append(trace, fmt.Sprintf("created %s %v", cr.key, err))
			if err != nil {
				event = true
			}
			cr.gate <- err
			deadline := time.Now().Add(soon)
			for {
				p.mu.Lock()
				left := false
				for _, x := range p.creations {
					left = left || x == cr
				}
				p.mu.Unlock()
				if !left {
					break
				}
				if time.Now().After(deadline) {
					panic("the creation is not over")
				}
				runtime.Gosched()
			}
			// its caller returns
			for n := 0; n < 20; n++ {
				runtime.Gosched()
			}
		}
		ncreating := func() int {
			p.mu.Lock()
			defer p.mu.Unlock()
			return len(p.creations)
		}
		for k := rapid.IntRange(1, 40).Draw(t, "ops"); k > 0; k-- {
			switch op := rapid.SampledFrom([]string{"get", "get", "get", "get", "release", "release", "finish", "finish", "finish", "fail", "cancel", "close"}).Draw(t, "op"); op {
			case "get":
				if len(pending) < 8 {
					get(fmt.Sprintf("k%d", rapid.IntRange(0, nkeys-1).Draw(t, "key")), rapid.IntRange(0, 15).Draw(t, "preCancelled") == 0)
				}
			case "release":
				if len(held) > 0 {
					release(rapid.IntRange(0, len(held)-1).Draw(t, "i"))
				}
			case "finish", "fail":
				if n := ncreating(); n > 0 {
					var err error
					if op == "fail" {
						err = errPlanned
					}
					finish(rapid.IntRange(0, n-1).Draw(t, "i"), err)
				}
			case "cancel":
				if len(pending) > 0 {
					rq := pending[rapid.IntRange(0, len(pending)-1).Draw(t, "i")]
					trace = append(trace, fmt.Sprintf("cancel#%d", rq.id))
					rq.cancel()
					rq.cancelled = true
					event = true
				}
			case "close":
				if rapid.IntRange(0, 5).Draw(t, "really") == 0 {
					trace = append(trace, "close")
					err := c.Close()
					if closed != (err != nil) {
						t.Fatalf("Close()=%v\n%v", err, trace)
					}
					event = event || len(pending) > 0
					closed = true
				}
			}
			settle()
		}
		trace = append(trace, "end")
		for len(held) > 0 || ncreating() > 0 || len(pending) > 0 {
			if len(held) > 0 {
				release(0)
			} else if ncreating() > 0 {
				finish(0, nil)
			}
			settle()
		}
		if !closed {
			if err := c.Close(); err != nil {
				t.Fatal(err)
			}
		}
		p.check(t, trace)
		if len(p.live) > 0 {
			t.Fatalf("%d resources are not destroyed after the close\n%v", len(p.live), trace)
		}
		if _, err := c.GetOrCreate(context.Background(), "k0"); !errors.Is(err, errors.ErrClosed) {
			t.Fatalf("get from the closed pool: %v", err)
		}
		ev.Case(t, waited && event, "capacity=%d keys=%d: %.400v", p.capacity, nkeys, fmt.Sprint(trace))
	})
}

// TestPoolLRU: P25 - sequential use: hits give the same resource, the idle ones are destroyed in the LRU order when a place is needed
func TestPoolLRU(t *testing.T) {
	ev.Check(t, "an idle resource was reused and another one was destroyed to give the place", func(t *rapid.T) {
		big := ev.Big(t)
		capacity := rapid.IntRange(1, 5*big).Draw(t, "capacity")
		nkeys := rapid.IntRange(1, 8*big).Draw(t, "keys")
		live := map[string]*res{}
		n := 0
		var trace []string
		c, _ := lru.NewReleasableCache[string, *res](capacity, func(_ context.Context, k string) (*res, error) {
			n++
			live[k] = &res{key: k, n: n}
			if len(live) > capacity {
				t.Fatalf("%d resources\n%v", len(live), trace)
			}
			return live[k], nil
		}, func(k string, r *res) {
			if r.dead || live[k] != r || r.holders > 0 {
				t.Fatalf("destroying %+v\n%v", *r, trace)
			}
			r.dead = true
			delete(live, k)
		})
		type hold struct{ r lru.Releasable[*res] }
		var holds []*hold
		var idle []string // by the time of the release
		reused, swept := false, false
		for k := rapid.IntRange(1, 40*big).Draw(t, "ops"); k > 0; k-- {
			if rapid.Bool().Draw(t, "get") {
				key := fmt.Sprintf("k%d", rapid.IntRange(0, nkeys-1).Draw(t, "key"))
				old := live[key]
				if old == nil && len(live)-len(idle) >= capacity {
					continue // would wait
				}
				trace = append(trace, "get "+key)
				exp := append([]string{}, idle...)
				if old == nil {
					for len(exp) > 0 && len(live)-len(idle)+len(exp) >= capacity {
						exp = exp[1:]
						swept = true
					}
				}
				r, err := c.GetOrCreate(context.Background(), key)
				if err != nil {
					t.Fatal(err)
				}
				v := r.Value()
				if v.dead || v.key != key || old != nil && v != old {
					t.Fatalf("got %+v, expected %+v\n%v", *v, old, trace)
				}
				if v.holders == 0 && old != nil {
					reused = true
				}
				idle = nil
				for _, e := range exp {
					if e != key {
						idle = append(idle, e)
					}
				}
				for _, e := range idle {
					if live[e] == nil {
						t.Fatalf("%s is destroyed, though it is not the least recently used one (%v)\n%v", e, exp, trace)
					}
				}
				v.holders++
				holds = append(holds, &hold{r})
			} else if len(holds) > 0 {
				i := rapid.IntRange(0, len(holds)-1).Draw(t, "i")
				h := holds[i]
				holds = append(holds[:i:i], holds[i+1:]...)
				v := h.r.Value()
				v.holders--
				trace = append(trace, "release "+v.key)
				if v.holders == 0 {
					idle = append(idle, v.key)
				}
				c.Release(&h.r)
				if v.dead {
					t.Fatalf("%s is destroyed without a need\n%v", v.key, trace)
				}
			}
		}
		ev.Case(t, reused && swept, "capacity=%d %.300v", capacity, fmt.Sprint(trace))
	})
}

// TestPoolStress: P25 - many goroutines
func TestPoolStress(t *testing.T) {
	ev.Check(t, "more workers than the capacity, creations fail", func(t *rapid.T) {
		capacity := rapid.IntRange(1, 4).Draw(t, "capacity")
		nkeys := rapid.IntRange(1, 6).Draw(t, "keys")
		workers := rapid.IntRange(2, 10).Draw(t, "workers")
		rounds := rapid.IntRange(1, 25).Draw(t, "rounds")
		failEvery := rapid.SampledFrom([]int{0, 2, 3, 7}).Draw(t, "failEvery")
		closeAt := rapid.SampledFrom([]int{-1, -1, 0, 30, 100}).Draw(t, "closeAt")
		steps := rapid.SliceOfN(rapid.IntRange(0, 99), 64, 64).Draw(t, "steps")
		var mu sync.Mutex
		var bad []string
		live := map[string]*res{}
		creating := map[string]bool{}
		n := 0
		fail := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
		c, _ := lru.NewReleasableCache[string, *res](capacity, func(_ context.Context, k string) (*res, error) {
			mu.Lock()
			n++
			i := n
			if live[k] != nil || creating[k] {
				fail("creating %s, which exists", k)
			}
			creating[k] = true
			if len(live)+len(creating) > capacity {
				fail("%d resources of %d", len(live)+len(creating), capacity)
			}
			mu.Unlock()
			for j := 0; j < steps[i%64]; j++ {
				runtime.Gosched()
			}
			mu.Lock()
			defer mu.Unlock()
			delete(creating, k)
			if failEvery > 0 && i%failEvery == 0 {
				return nil, fmt.Errorf("failure %d", i)
			}
			live[k] = &res{key: k, n: i}
			return live[k], nil
		}, func(k string, r *res) {
			mu.Lock()
			defer mu.Unlock()
			if r == nil || live[k] != r || r.dead || r.holders > 0 {
				fail("destroying %s %+v", k, r)
				return
			}
			r.dead = true
			delete(live, k)
		})
		var wg sync.WaitGroup
		var ops atomic.Int32
		var closedFlag atomic.Bool
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					s := steps[(w*7+i*13)%64]
					k := fmt.Sprintf("k%d", s%nkeys)
					ctx, cancel := context.Background(), func() {}
					if s%9 == 0 {
						ctx, cancel = context.WithTimeout(ctx, time.Duration(s)*time.Microsecond)
					}
					r, err := c.GetOrCreate(ctx, k)
					if int(ops.Add(1)) == closeAt {
						closedFlag.Store(true)
						_ = c.Close()
					}
					if err != nil {
						if errors.Is(err, errors.ErrClosed) && !closedFlag.Load() {
							mu.Lock()
							fail("closed, but it isn't")
							mu.Unlock()
						}
						cancel()
						continue
					}
					v := r.Value()
					mu.Lock()
					if v == nil || v.dead || v.key != k {
						fail("got %+v for %s", v, k)
						mu.Unlock()
						cancel()
						continue
					}
					v.holders++
					mu.Unlock()
					for j := 0; j < s%10; j++ {
						runtime.Gosched()
					}
					mu.Lock()
					if v.dead {
						fail("%s is destroyed while it is held", k)
					}
					v.holders--
					mu.Unlock()
					c.Release(&r)
					cancel()
				}
			}()
		}
		ev.Within(t, 60*time.Second, "the workers", wg.Wait)
		mu.Lock()
		b := bad
		mu.Unlock()
		if len(b) > 0 {
			t.Fatalf("%v", b)
		}
		_ = c.Close()
		mu.Lock()
		defer mu.Unlock()
		if len(bad) > 0 || len(live) > 0 {
			t.Fatalf("%v, %d are left after the close", bad, len(live))
		}
		ev.Case(t, workers > capacity && failEvery > 0, "capacity=%d keys=%d workers=%d rounds=%d failEvery=%d closeAt=%d steps=%v", capacity, nkeys, workers, rounds, failEvery, closeAt, steps[:8])
	})
}
