package kvs

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container/iterable"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	dist "github.com/solarisdb/solaris/golibs/kvs/distlock"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	ssync "github.com/solarisdb/solaris/golibs/sync"
	"pgregory.net/rapid"
)

var errBroken = errors.New("the storage is not available")

// link is a connection of one instance to the shared storage, it may be broken
type link struct {
	kvs.Storage
	broken  atomic.Bool
	renewed atomic.Int64 // when the last successful write of the instance was started
}

func (l *link) Create(ctx context.Context, r kvs.Record) (string, error) {
	if l.broken.Load() {
		return "", errBroken
	}
	at := time.Now().UnixNano()
	v, err := l.Storage.Create(ctx, r)
	if err == nil {
		l.renewed.Store(at)
	}
	return v, err
}

func (l *link) Get(ctx context.Context, key string) (kvs.Record, error) {
	if l.broken.Load() {
		return kvs.Record{}, errBroken
	}
	return l.Storage.Get(ctx, key)
}

func (l *link) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, error) {
	if l.broken.Load() {
		return nil, errBroken
	}
	return l.Storage.GetMany(ctx, keys...)
}

func (l *link) Put(ctx context.Context, r kvs.Record) (kvs.Record, error) {
	if l.broken.Load() {
		return kvs.Record{}, errBroken
	}
	at := time.Now().UnixNano()
	r, err := l.Storage.Put(ctx, r)
	if err == nil {
		l.renewed.Store(at)
	}
	return r, err
}

func (l *link) PutMany(ctx context.Context, rs []kvs.Record) error {
	if l.broken.Load() {
		return errBroken
	}
	return l.Storage.PutMany(ctx, rs)
}

func (l *link) CasByVersion(ctx context.Context, r kvs.Record) (kvs.Record, error) {
	if l.broken.Load() {
		return kvs.Record{}, errBroken
	}
	at := time.Now().UnixNano()
	r, err := l.Storage.CasByVersion(ctx, r)
	if err == nil {
		l.renewed.Store(at)
	}
	return r, err
}

func (l *link) Delete(ctx context.Context, key string) error {
	if l.broken.Load() {
		return errBroken
	}
	return l.Storage.Delete(ctx, key)
}

func (l *link) WaitForVersionChange(ctx context.Context, key, ver string) error {
	if l.broken.Load() {
		return errBroken
	}
	return l.Storage.WaitForVersionChange(ctx, key, ver)
}

func (l *link) ListKeys(ctx context.Context, pattern string) (iterable.Iterator[string], error) {
	if l.broken.Load() {
		return nil, errBroken
	}
	return l.Storage.ListKeys(ctx, pattern)
}

// pace watches whether the process gets the processor
type pace struct {
	worst atomic.Int64
	stop  chan struct{}
}

func newPace() *pace {
	p := &pace{stop: make(chan struct{})}
	go func() {
		last := time.Now()
		for {
			select {
			case <-p.stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			if d := int64(time.Since(last)); d > p.worst.Load() {
				p.worst.Store(d)
			}
			last = time.Now()
		}
	}()
	return p
}

// ok returns false if the process was late, so nothing may be concluded from the time the operations take
func (p *pace) ok() bool { return time.Duration(p.worst.Load()) < 700*time.Millisecond }

func drawStore(t *rapid.T) (kvs.Storage, bool) {
	if rapid.IntRange(0, 3).Draw(t, "redis") == 0 {
		mini.FlushAll()
		return redisStore, true
	}
	return inmem.New(), false
}

func panics(fn func()) (res bool) {
	defer func() { res = recover() != nil }()
	fn()
	return
}

// TestLocker: P30 - histories of the operations of many lockers, one goroutine, against the model
func TestLocker(t *testing.T) {
	ev.Check(t, "a lock is taken by another instance after an unlock, a waiter gives up, a lock is tried in vain, and a provider is closed or the storage fails", func(t *rapid.T) {
		st, isRedis := drawStore(t)
		np := rapid.IntRange(1, 3).Draw(t, "providers")
		names := []string{"x", "xy", "y/z"}[:rapid.IntRange(1, 3).Draw(t, "names")]
		type locker struct {
			prov int
			name string
			l    ssync.Locker
		}
		var provs []dist.LockProvider
		var lockers []*locker
		closed := make([]bool, np)
		var links []*link
		for p := 0; p < np; p++ {
			links = append(links, &link{Storage: st})
			pr := dist.NewKvsLockProvider(links[p], "locks/")
			provs = append(provs, pr)
			for _, n := range names {
				for k := rapid.IntRange(1, 2).Draw(t, "lockers"); k > 0; k-- {
					lockers = append(lockers, &locker{p, n, pr.NewLocker(n)})
				}
			}
		}
		holder := map[string]*locker{}
		defer func() {
			for _, h := range holder {
				h.l.Unlock()
			}
			for p := range provs {
				if !closed[p] {
					provs[p].Shutdown()
				}
			}
		}()
		var trace []string
		var last = map[string]int{}
		moved, gaveUp, vain, failed := false, false, false, false
		n := rapid.IntRange(4, 30).Draw(t, "n")
		for i := 0; i < n; i++ {
			x := rapid.SampledFrom(lockers).Draw(t, "locker")
			h := holder[x.name]
			op := rapid.SampledFrom([]string{"lock", "lock", "timeout", "try", "try", "tryCancelled", "lockCancelled", "unlock", "unlock", "unlock", "unlock", "badUnlock", "close", "lockFailed", "tryFailed"}).Draw(t, "op")
			got := func() {
				if p, ok := last[x.name]; ok && p != x.prov {
					moved = true
				}
				last[x.name] = x.prov
				holder[x.name] = x
			}
			switch op {
			case "lock":
				if h != nil && !closed[x.prov] {
					continue
				}
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				err := x.l.LockWithCtx(ctx)
				cancel()
				if closed[x.prov] != (err != nil) || (err != nil && !errors.Is(err, serrors.ErrClosed)) {
					t.Fatalf("%v: lock, the provider is closed: %t: err=%v", trace, closed[x.prov], err)
				}
				if err == nil {
					got()
				}
			case "timeout":
				if h == nil || closed[x.prov] {
					continue
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rapid.IntRange(0, 3).Draw(t, "ms"))*time.Millisecond)
				err := x.l.LockWithCtx(ctx)
				if err == nil {
					t.Fatalf("%v: the lock %q is taken by two", trace, x.name)
				}
				if ctx.Err() == nil {
					t.Fatalf("%v: the lock %q is not acquired, but the context is not done: %v", trace, x.name, err)
				}
				cancel()
				gaveUp = true
			case "lockCancelled":
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				if x.l.LockWithCtx(ctx) == nil {
					t.Fatalf("%v: the lock %q is acquired with the cancelled context", trace, x.name)
				}
			case "lockFailed", "tryFailed":
				// the storage is not available at the moment. The locker itself may be in use, then it doesn't come to the storage
				limit := 20 * time.Second
				if h == x {
					limit = 2 * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				links[x.prov].broken.Store(true)
				if op == "tryFailed" {
					if x.l.TryLock(ctx) {
						t.Fatalf("%v: the lock %q is acquired without the storage", trace, x.name)
					}
				} else if err := x.l.LockWithCtx(ctx); err == nil {
					t.Fatalf("%v: the lock %q is acquired without the storage", trace, x.name)
				}
				links[x.prov].broken.Store(false)
				cancel()
				failed = true
			case "try", "tryCancelled":
				ctx, cancel := context.WithCancel(context.Background())
				if op == "tryCancelled" {
					cancel()
				}
				res := x.l.TryLock(ctx)
				cancel()
				want := h == nil && !closed[x.prov]
				if op == "tryCancelled" {
					want = false
				}
				if res != want {
					t.Fatalf("%v: %s %q: %t, must be %t", trace, op, x.name, res, want)
				}
				if res {
					got()
				}
				vain = vain || h != nil
			case "unlock":
				if h == nil {
					continue
				}
				h.l.Unlock()
				delete(holder, x.name)
				x = h
			case "badUnlock":
				if h == x {
					continue
				}
				if !panics(x.l.Unlock) {
					t.Fatalf("%v: unlocked %q, what was not locked", trace, x.name)
				}
			case "close":
				if closed[x.prov] || rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				provs[x.prov].Shutdown()
				closed[x.prov] = true
			}
			trace = append(trace, fmt.Sprintf("%s %d/%s", op, x.prov, x.name))
		}
		for name, h := range holder {
			h.l.Unlock()
			delete(holder, name)
		}
		pr := dist.NewKvsLockProvider(st, "locks/")
		for _, name := range names {
			l := pr.NewLocker(name)
			if !l.TryLock(context.Background()) {
				t.Fatalf("%v: the lock %q is not released", trace, name)
			}
			l.Unlock()
		}
		pr.Shutdown()
		anyClosed := false
		for _, c := range closed {
			anyClosed = anyClosed || c
		}
		ev.Case(t, moved && gaveUp && vain && (anyClosed || failed), "redis=%t %v", isRedis, trace)
	})
}

// TestExclusion: P30 - concurrent lockers
func TestExclusion(t *testing.T) {
	ev.Check(t, "locks of one name are taken by different instances, somebody waited, and an attempt was cancelled or rejected", func(t *rapid.T) {
		st, isRedis := drawStore(t)
		np := rapid.IntRange(1, 3).Draw(t, "providers")
		names := []string{"x", "y"}[:rapid.IntRange(1, 2).Draw(t, "names")]
		type step struct {
			op     string
			name   int
			hold   time.Duration
			cancel time.Duration
		}
		type actor struct {
			prov  int
			own   bool // has its own lockers, not shared within the provider
			steps []step
		}
		var actors []actor
		us := func(max int) time.Duration {
			return time.Duration(rapid.IntRange(0, max).Draw(t, "us")) * time.Microsecond
		}
		for g := rapid.IntRange(2, 6).Draw(t, "actors"); g > 0; g-- {
			a := actor{prov: rapid.IntRange(0, np-1).Draw(t, "prov"), own: rapid.Bool().Draw(t, "own")}
			for s := rapid.IntRange(1, 5).Draw(t, "steps"); s > 0; s-- {
				a.steps = append(a.steps, step{op: rapid.SampledFrom([]string{"lock", "lock", "lock", "ctx", "ctx", "try"}).Draw(t, "op"),
					name: rapid.IntRange(0, len(names)-1).Draw(t, "name"), hold: us(400), cancel: us(1500)})
			}
			actors = append(actors, a)
		}
		closeProv, closeAfter := -1, us(2000)
		if rapid.IntRange(0, 3).Draw(t, "close") == 0 {
			closeProv = rapid.IntRange(0, np-1).Draw(t, "closeProv")
		}
		var provs []dist.LockProvider
		shared := make([][]ssync.Locker, np)
		for p := 0; p < np; p++ {
			provs = append(provs, dist.NewKvsLockProvider(&link{Storage: st}, "locks/"))
			for _, n := range names {
				shared[p] = append(shared[p], provs[p].NewLocker(n))
			}
		}
		pc := newPace()
		defer close(pc.stop)
		var closing atomic.Bool
		holders := make([]atomic.Int32, len(names))
		users := make([]sync.Map, len(names))
		var failed atomic.Pointer[string]
		fail := func(f string, args ...any) {
			s := fmt.Sprintf(f, args...)
			failed.CompareAndSwap(nil, &s)
		}
		var contended, rejected atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, a := range actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ls := shared[a.prov]
				if a.own {
					ls = nil
					for _, n := range names {
						ls = append(ls, provs[a.prov].NewLocker(n))
					}
				}
				<-start
				for _, s := range a.steps {
					l := ls[s.name]
					if holders[s.name].Load() > 0 {
						contended.Add(1)
					}
					switch s.op {
					case "lock":
						if err := l.LockWithCtx(context.Background()); err != nil {
							if a.prov != closeProv || !closing.Load() || !errors.Is(err, serrors.ErrClosed) {
								fail("the lock is not acquired: %v", err)
							}
							rejected.Add(1)
							continue
						}
					case "ctx":
						ctx, cancel := context.WithTimeout(context.Background(), s.cancel)
						err := l.LockWithCtx(ctx)
						over := ctx.Err() != nil
						cancel()
						if err != nil {
							if !over && (a.prov != closeProv || !closing.Load()) {
								fail("the lock is not acquired, but the context is not closed: %v", err)
							}
							rejected.Add(1)
							continue
						}
					case "try":
						if !l.TryLock(context.Background()) {
							rejected.Add(1)
							continue
						}
					}
					if n := holders[s.name].Add(1); n != 1 {
						fail("the lock %q is acquired by %d", names[s.name], n)
					}
					users[s.name].Store(a.prov, true)
					for end := time.Now().Add(s.hold); time.Now().Before(end); {
						if n := holders[s.name].Load(); n != 1 {
							fail("the lock %q is acquired by %d", names[s.name], n)
							break
						}
						time.Sleep(20 * time.Microsecond)
					}
					holders[s.name].Add(-1)
					l.Unlock()
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		close(start)
		var tm <-chan time.Time
		if closeProv >= 0 {
			tm = time.After(closeAfter)
		}
		bound := time.After(8 * time.Second)
	loop:
		for {
			select {
			case <-tm:
				closing.Store(true)
				provs[closeProv].Shutdown()
			case <-done:
				break loop
			case <-bound:
				if pc.ok() {
					t.Fatalf("the lock is not passed to the waiters in 8 seconds")
				}
			}
		}
		if s := failed.Load(); s != nil {
			t.Fatal(*s)
		}
		for p := range provs {
			if p != closeProv || !closing.Load() {
				provs[p].Shutdown()
			}
		}
		pr := dist.NewKvsLockProvider(st, "locks/")
		moved := false
		for i, name := range names {
			l := pr.NewLocker(name)
			if !l.TryLock(context.Background()) {
				t.Fatalf("the lock %q is not released", name)
			}
			l.Unlock()
			n := 0
			users[i].Range(func(_, _ any) bool { n++; return true })
			moved = moved || n > 1
		}
		pr.Shutdown()
		ev.Case(t, moved && contended.Load() > 0 && rejected.Load() > 0, "redis=%t close=%d %v", isRedis, closeProv, actors)
	})
}

// lease is a story of a lock, which is held for a long time
type lease struct {
	redis    bool
	hold     time.Duration // the holder unlocks in the time
	breakAt  time.Duration // when the holder loses the storage
	breakFor time.Duration // and for how long
	waiters  int
	try      bool // one more contender, which doesn't wait
	bHold    time.Duration
}

const leaseTTL = 10 * time.Second

func (l lease) dies() bool { return l.breakFor > leaseTTL/2 }

func drawLease(t *rapid.T) lease {
	ms := func(lo, hi int) time.Duration {
		return time.Duration(rapid.IntRange(lo, hi).Draw(t, "ms")) * time.Millisecond
	}
	l := lease{redis: rapid.IntRange(0, 3).Draw(t, "redis") == 0, waiters: rapid.IntRange(1, 3).Draw(t, "waiters"), try: rapid.Bool().Draw(t, "try")}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0: // a long holder
		l.hold = ms(100, 24000)
	case 1: // the storage is not available for a short time at the moment of a renewal
		l.hold = ms(14000, 24000)
		k := rapid.IntRange(1, 3).Draw(t, "renewal")
		l.breakAt = time.Duration(k)*5*time.Second - ms(100, 1000)
		l.breakFor = ms(1100, 1600)
	default: // the holder dies, and comes back when the lock belongs to another one already
		l.breakAt = ms(0, 8000)
		l.breakFor = 16 * time.Second
		l.hold = l.breakAt + l.breakFor + ms(100, 1500)
		l.bHold = 20 * time.Second
	}
	if l.bHold == 0 {
		l.bHold = ms(1, 100)
	}
	return l
}

// tell executes the story and returns what is wrong
func (l lease) tell(st kvs.Storage, name string, pc *pace) (res error) {
	ctx, stop := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := func(f string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if res == nil {
			res = fmt.Errorf(f, args...)
		}
	}
	lk := &link{Storage: st}
	pa := dist.NewKvsLockProvider(lk, "leases/")
	a := pa.NewLocker(name)
	begin := time.Now()
	if !a.TryLock(ctx) {
		stop()
		return fmt.Errorf("the free lock is not acquired")
	}
	var aHolds atomic.Bool
	aHolds.Store(true)
	var brokenAt time.Time
	var holders atomic.Int32
	var acquired, unlockedAt atomic.Int64
	for i := 0; i < l.waiters; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			pb := dist.NewKvsLockProvider(&link{Storage: st}, "leases/")
			defer pb.Shutdown()
			b := pb.NewLocker(name)
			if err := b.LockWithCtx(ctx); err != nil {
				if ctx.Err() == nil {
					bad("the waiter gets %v", err)
				}
				return
			}
			now := time.Now()
			if n := holders.Add(1); n > 1 {
				bad("%d waiters acquired the lock", n)
			}
			if acquired.CompareAndSwap(0, now.UnixNano()) && aHolds.Load() {
				if !l.dies() {
					bad("the lock is acquired in %s, but its holder is alive", now.Sub(begin))
				} else if d := now.Sub(time.Unix(0, lk.renewed.Load())); d < leaseTTL-20*time.Millisecond {
					bad("the lease of the lock is taken in %s after it was renewed", d)
				}
			}
			hold := l.bHold
			if l.dies() {
				hold = time.Until(begin.Add(l.hold + 2*time.Second))
			}
			select {
			case <-ctx.Done():
			case <-time.After(hold):
			}
			holders.Add(-1)
			b.Unlock()
		}()
	}
	if l.try {
		wg.Add(1)
		go func() {
			defer wg.Done()
			pt := dist.NewKvsLockProvider(&link{Storage: st}, "leases/")
			defer pt.Shutdown()
			c := pt.NewLocker(name)
			for ctx.Err() == nil {
				now := time.Now()
				mustFail := (aHolds.Load() && !l.dies()) || holders.Load() > 0
				if c.TryLock(ctx) {
					acquired.CompareAndSwap(0, time.Now().UnixNano())
					if n := holders.Add(1); mustFail && (n > 1 || aHolds.Load() && !l.dies()) {
						bad("the lock is acquired by trying in %s, but it is held", now.Sub(begin))
					} else if n > 1 {
						bad("the lock is acquired by trying and by a waiter")
					}
					holders.Add(-1)
					c.Unlock()
				}
				time.Sleep(150 * time.Millisecond)
			}
		}()
	}
	if l.breakFor > 0 {
		time.Sleep(time.Until(begin.Add(l.breakAt)))
		brokenAt = time.Now()
		lk.broken.Store(true)
		time.Sleep(time.Until(begin.Add(l.breakAt + l.breakFor)))
		lk.broken.Store(false)
		if l.dies() && acquired.Load() == 0 {
			bad("nobody acquired the lock in %s after its holder died", time.Since(brokenAt))
		}
	}
	time.Sleep(time.Until(begin.Add(l.hold)))
	aHolds.Store(false)
	a.Unlock()
	unlockedAt.Store(time.Now().UnixNano())
	if !l.dies() {
		for acquired.Load() == 0 && time.Now().UnixNano()-unlockedAt.Load() < int64(4*time.Second) {
			time.Sleep(time.Millisecond)
		}
		if acquired.Load() == 0 {
			bad("nobody acquired the lock in 4s after it was unlocked")
		}
	} else {
		// the current holder has nothing to do with the former one
		time.Sleep(500 * time.Millisecond)
	}
	stop()
	wg.Wait()
	pa.Shutdown()
	return res
}

// TestLeases: P30 - the lease of a live holder is prolonged, the one of a dead holder expires, in the real time
func TestLeases(t *testing.T) {
	ev.Rule(t, "the holder lost the storage")
	cases, _ := strconv.Atoi(os.Getenv("VERIF_CASES"))
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if cases == 0 {
		cases = 100
	}
	mini.FlushAll()
	stop := make(chan struct{})
	defer close(stop)
	go func() { // the time of the redis server
		last := time.Now()
		for {
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Millisecond):
			}
			now := time.Now()
			mini.FastForward(now.Sub(last))
			last = now
		}
	}()
	const atOnce = 300
	gen := rapid.Custom(drawLease)
	for from := 0; from < cases; from += atOnce {
		pc := newPace()
		errs := make([]error, min(atOnce, cases-from))
		ls := make([]lease, len(errs))
		var wg sync.WaitGroup
		for i := range errs {
			ls[i] = gen.Example(seed*1000003 + from + i)
			st := inmem.New()
			if ls[i].redis {
				st = redisStore
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = ls[i].tell(st, fmt.Sprintf("l%d", from+i), pc)
			}()
		}
		done := make(chan struct{})
		go func() {
			wg.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Minute):
			t.Fatalf("EV-FAIL: some of the stories did not end in 2 minutes: nothing in them takes longer than 30 seconds")
		}
		close(pc.stop)
		if !pc.ok() {
			fmt.Printf("the process was delayed for %s, nothing may be concluded\n", time.Duration(pc.worst.Load()))
			continue
		}
		for i, err := range errs {
			ev.Case(t, ls[i].breakFor > 0, "%+v", ls[i])
			if err != nil {
				t.Errorf("EV-FAIL: the story %d %+v: %v", from+i, ls[i], err)
			}
		}
	}
}
