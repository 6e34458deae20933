package lru

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"pgregory.net/rapid"
)

type val struct {
	key     string
	n       int
	expires time.Time
}

func (v *val) GetValue() any           { return v.n }
func (v *val) GetExpiresAt() time.Time { return v.expires }

type anyCache interface {
	GetOrCreate(k string) (*val, error)
	Remove(k string) bool
	Clear() int
}

// pkey is a key of an ECache: only the name matters
type pkey struct {
	name string
	data []byte
}

type ecache struct {
	*lru.ECache[pkey, string, *val]
	n int
}

func (e *ecache) pk(k string) pkey {
	e.n++
	return pkey{k, []byte(fmt.Sprint(e.n))}
}
func (e *ecache) GetOrCreate(k string) (*val, error) { return e.ECache.GetOrCreate(e.pk(k)) }
func (e *ecache) Remove(k string) bool               { return e.ECache.Remove(e.pk(k)) }

// TestSequential: P12 - all kinds of the caches against the model, one goroutine
func TestSequential(t *testing.T) {
	ev.Check(t, "something was evicted after a hit had changed the order, and a creation failed", func(t *rapid.T) {
		big := ev.Big(t)
		capacity := rapid.IntRange(1, 6*big).Draw(t, "capacity")
		kind := rapid.SampledFrom([]string{"cache", "ecache", "expirable"}).Draw(t, "kind")
		withDelete := rapid.IntRange(0, 9).Draw(t, "withDelete") > 0
		type entry struct {
			key string
			v   *val
		}
		var model []entry // the least recently used is the first
		var trace []string
		n := 0
		var createErr error
		var created []*val
		var deleted []entry
		create := func(k string) (*val, error) {
			n++
			v := &val{key: k, n: n}
			v.expires = time.Now().Add(time.Hour)
			created = append(created, v)
			if createErr != nil {
				if n%2 == 0 {
					return v, createErr
				}
				return nil, createErr
			}
			return v, nil
		}
		onDelete := func(k string, v *val) { deleted = append(deleted, entry{k, v}) }
		if !withDelete {
			onDelete = nil
		}
		var c anyCache
		var err error
		switch kind {
		case "cache":
			c, err = lru.NewCache[string, *val](capacity, create, onDelete)
		case "ecache":
			var ec *lru.ECache[pkey, string, *val]
			var od func(k pkey, v *val)
			firstPK := map[*val]string{}
			if withDelete {
				od = func(k pkey, v *val) {
					if firstPK[v] != string(k.data) {
						t.Fatalf("the delete callback gets the key %q %q, but the value was created for %q", k.name, k.data, firstPK[v])
					}
					onDelete(k.name, v)
				}
			}
			ec, err = lru.NewECache[pkey, string, *val](capacity, func(k pkey) string { return k.name }, func(k pkey) (*val, error) {
				v, err := create(k.name)
				firstPK[v] = string(k.data)
				return v, err
			}, od)
			c = &ecache{ECache: ec}
		case "expirable":
			c, err = lru.NewExpirableCache[string, *val](capacity, create, onDelete)
		}
		if err != nil {
			t.Fatal(err)
		}
		find := func(k string) int {
			for i, e := range model {
				if e.key == k {
					return i
				}
			}
			return -1
		}
		var expDeleted []entry
		drop := func(i int) {
			if withDelete {
				expDeleted = append(expDeleted, model[i])
			}
			model = append(model[:i:i], model[i+1:]...)
		}
		reordered, evictedAfter, failed := false, false, false
		keys := rapid.IntRange(1, 9*big).Draw(t, "keys")
		for k := rapid.IntRange(1, 50*big).Draw(t, "ops"); k > 0; k-- {
			key := fmt.Sprintf("k%d", rapid.IntRange(0, keys-1).Draw(t, "key"))
			created, deleted, expDeleted = nil, nil, nil
			createErr = nil
			expire := false
			switch op := rapid.SampledFrom([]string{"get", "get", "get", "get", "fail", "remove", "expire", "clear"}).Draw(t, "op"); op {
			case "expire":
				if i := find(key); i >= 0 && kind == "expirable" {
					// the boundary: it has expired just now
					model[i].v.expires = time.Now().Add(-time.Duration(rapid.SampledFrom([]int{1, 1000, 3600000000000}).Draw(t, "ago")))
					expire = true
				}
				fallthrough
			case "get", "fail":
				if op == "fail" {
					createErr = fmt.Errorf("could not create #%d", n+1)
				}
				trace = append(trace, op+" "+key)
				v, err := c.GetOrCreate(key)
				i := find(key)
				if expire && i >= 0 {
					drop(i)
					i = -1
				}
				if i >= 0 {
					if err != nil || v != model[i].v || len(created) > 0 {
						t.Fatalf("hit of %s: %v %v, created %d\n%v", key, v, err, len(created), trace)
					}
					reordered = reordered || i < len(model)-1
					model = append(append(model[:i:i], model[i+1:]...), model[i])
				} else {
					if len(created) != 1 || created[0].key != key {
						t.Fatalf("miss of %s, created %v\n%v", key, created, trace)
					}
					if createErr != nil {
						failed = true
						if err != createErr {
							t.Fatalf("the error is %v\n%v", err, trace)
						}
					} else {
						if err != nil || v != created[0] {
							t.Fatalf("miss of %s: %v %v\n%v", key, v, err, trace)
						}
						model = append(model, entry{key, v})
						if len(model) > capacity {
							drop(0)
							evictedAfter = evictedAfter || reordered
						}
					}
				}
			case "remove":
				trace = append(trace, "remove "+key)
				i := find(key)
				if r := c.Remove(key); r != (i >= 0) {
					t.Fatalf("Remove(%s)=%t\n%v", key, r, trace)
				}
				if i >= 0 {
					drop(i)
				}
			case "clear":
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				trace = append(trace, "clear")
				if r := c.Clear(); r != len(model) {
					t.Fatalf("Clear()=%d, expected %d\n%v", r, len(model), trace)
				}
				for len(model) > 0 {
					drop(0)
				}
			}
			if len(deleted) != len(expDeleted) {
				t.Fatalf("deleted %v, expected %v\n%v", deleted, expDeleted, trace)
			}
			for _, d := range deleted {
				ok := false
				for i, e := range expDeleted {
					if e == d {
						ok = true
						expDeleted = append(expDeleted[:i:i], expDeleted[i+1:]...)
						break
					}
				}
				if !ok {
					t.Fatalf("deleted %v, which is not expected\n%v", d, trace)
				}
			}
		}
		if _, err := lru.NewCache[string, *val](-rapid.IntRange(0, 2).Draw(t, "badSize"), create, onDelete); err == nil {
			t.Fatal("a wrong size is accepted")
		}
		ev.Label(t, kind)
		ev.Case(t, evictedAfter && failed, "%s(%d): %s", kind, capacity, strings.Join(trace, ", "))
	})
}

// TestConcurrent: P12 - concurrent lookups, removals and failures
func TestConcurrent(t *testing.T) {
	type cval struct {
		v         *val
		startSeq  int64 // the creation started
		deleted   int64 // the delete callback
		failed    bool
		delCount  int
		returned  bool
		createdAt int64
	}
	type lookup struct {
		key        string
		start, end int64
		v          *val
		err        error
	}
	type removal struct {
		key        string // "" is everything
		start, end int64
	}
	ev.Check(t, "a removal overlaps with a creation, lookups of the same key overlap", func(t *rapid.T) {
		capacity := rapid.IntRange(1, 4).Draw(t, "capacity")
		nkeys := rapid.IntRange(1, 5).Draw(t, "keys")
		failPct := rapid.SampledFrom([]int{0, 20, 50}).Draw(t, "failPct")
		workers := rapid.IntRange(2, 8).Draw(t, "workers")
		perWorker := rapid.IntRange(2, 12).Draw(t, "perWorker")
		type cmd struct {
			op, key string
			pause   int
		}
		cmds := make([][]cmd, workers)
		for w := range cmds {
			for i := 0; i < perWorker; i++ {
				cmds[w] = append(cmds[w], cmd{
					op:    rapid.SampledFrom([]string{"get", "get", "get", "get", "remove", "clear"}).Draw(t, "op"),
					key:   fmt.Sprintf("k%d", rapid.IntRange(0, nkeys-1).Draw(t, "key")),
					pause: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "pause"),
				})
			}
		}
		delays := rapid.SliceOfN(rapid.IntRange(0, 6), 8, 8).Draw(t, "delays")
		fails := rapid.SliceOfN(rapid.IntRange(0, 99), 8, 8).Draw(t, "fails")
		pause := func(n int) {
			switch {
			case n == 0:
			case n < 3:
				for i := 0; i < n*20; i++ {
					runtime.Gosched()
				}
			default:
				time.Sleep(time.Duration(n*20) * time.Microsecond)
			}
		}
		var seq atomic.Int64
		var mu sync.Mutex
		vals := map[*val]*cval{}
		creating := map[string]int{}
		removalsOf := map[string]int{} // started removals
		live := 0
		var bad []string
		n := 0
		creations := 0
		create := func(k string) (*val, error) {
			mu.Lock()
			n++
			v := &val{key: k, n: n}
			cv := &cval{v: v, startSeq: seq.Add(1)}
			vals[v] = cv
			creating[k]++
			if creating[k] > 1 && removalsOf[k] == 0 {
				bad = append(bad, "two concurrent creations of "+k)
			}
			creations++
			d, f := delays[n%8], fails[n%8] < failPct
			mu.Unlock()
			pause(d)
			mu.Lock()
			defer mu.Unlock()
			creating[k]--
			cv.createdAt = seq.Add(1)
			if f {
				cv.failed = true
				return v, fmt.Errorf("error %d", v.n)
			}
			live++
			return v, nil
		}
		var c *lru.Cache[string, *val]
		onDelete := func(k string, v *val) {
			mu.Lock()
			defer mu.Unlock()
			cv := vals[v]
			if cv == nil || v.key != k {
				bad = append(bad, fmt.Sprintf("deleted %v for the key %s", v, k))
				return
			}
			cv.delCount++
			cv.deleted = seq.Add(1)
			live--
			if cv.delCount > 1 || cv.failed {
				bad = append(bad, fmt.Sprintf("%v is deleted %d times, failed=%t", v, cv.delCount, cv.failed))
			}
		}
		c, err := lru.NewCache[string, *val](capacity, create, onDelete)
		if err != nil {
			t.Fatal(err)
		}
		var lookups []lookup
		var removals []removal
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, cm := range cmds[w] {
					pause(cm.pause)
					s := seq.Add(1)
					switch cm.op {
					case "get":
						v, err := c.GetOrCreate(cm.key)
						e := seq.Add(1)
						mu.Lock()
						lookups = append(lookups, lookup{cm.key, s, e, v, err})
						mu.Unlock()
					default:
						mu.Lock()
						for i := 0; i < nkeys; i++ {
							if k := fmt.Sprintf("k%d", i); cm.op == "clear" || cm.key == k {
								removalsOf[k]++
							}
						}
						mu.Unlock()
						rm := removal{key: cm.key, start: s}
						if cm.op == "clear" {
							rm.key = ""
							c.Clear()
						} else {
							c.Remove(cm.key)
						}
						rm.end = seq.Add(1)
						mu.Lock()
						removals = append(removals, rm)
						mu.Unlock()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if len(bad) > 0 {
			t.Fatalf("%v", bad)
		}
		if live > capacity {
			t.Fatalf("%d values are in the cache of %d", live, capacity)
		}
		overlapRm, overlapGet := false, false
		for i, l := range lookups {
			cv := vals[l.v]
			if cv == nil || l.v.key != l.key || cv.failed != (l.err != nil) {
				t.Fatalf("the lookup of %s returned %v %v", l.key, l.v, l.err)
			}
			if l.err != nil {
				// the error is of the creation during the call
				if cv.startSeq < l.start || cv.createdAt > l.end {
					t.Fatalf("an old error %v is returned for %s", l.err, l.key)
				}
				continue
			}
			if cv.deleted > 0 && cv.deleted < l.start {
				t.Fatalf("%v was deleted before the lookup started", l.v)
			}
			for _, r := range removals {
				if r.key != "" && r.key != l.key {
					continue
				}
				if r.end < l.start && cv.startSeq < r.start {
					t.Fatalf("the lookup, started after the removal of %s is over, returned %v, which had been created before the removal", l.key, l.v)
				}
				overlapRm = overlapRm || r.start < cv.createdAt && r.end > cv.startSeq
			}
			for _, l2 := range lookups[:i] {
				overlapGet = overlapGet || l2.key == l.key && l2.start < l.end && l.start < l2.end
			}
		}
		// what is left
		left := live
		if r := c.Clear(); r != left {
			t.Fatalf("%d values are cleared, but %d were not deleted", r, left)
		}
		for v, cv := range vals {
			if !cv.failed && cv.delCount != 1 {
				t.Fatalf("%v is deleted %d times", v, cv.delCount)
			}
		}
		if len(bad) > 0 {
			t.Fatalf("%v", bad)
		}
		ev.Case(t, overlapRm && overlapGet, "capacity=%d keys=%d workers=%d creations=%d removals=%d", capacity, nkeys, workers, creations, len(removals))
	})
}

// TestSingleFlight: P12 - one creation for all the concurrent lookups
func TestSingleFlight(t *testing.T) {
	ev.Check(t, "at least 3 lookups were waiting for the creation", func(t *rapid.T) {
		n := rapid.IntRange(2, 12).Draw(t, "n")
		failures := rapid.IntRange(0, 2).Draw(t, "failures")
		other := rapid.Bool().Draw(t, "other")
		var started, count atomic.Int32
		gate := make(chan struct{})
		c, _ := lru.NewCache[string, *val](3, func(k string) (*val, error) {
			if k == "other" {
				return &val{key: k}, nil
			}
			i := count.Add(1)
			<-gate
			if int(i) <= failures {
				return nil, fmt.Errorf("failure")
			}
			return &val{key: k, n: int(i)}, nil
		}, nil)
		var wg sync.WaitGroup
		var errs atomic.Int32
		var vs sync.Map
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				started.Add(1)
				v, err := c.GetOrCreate("x")
				if err != nil {
					errs.Add(1)
				} else {
					vs.Store(v, true)
				}
			}()
		}
		for started.Load() < int32(n) || count.Load() == 0 {
			runtime.Gosched()
		}
		if other {
			// a slow creation doesn't block the others
			ev.Within(t, 20*time.Second, "lookup of another key", func() { _, _ = c.GetOrCreate("other") })
		}
		if rapid.Bool().Draw(t, "wait") {
			time.Sleep(100 * time.Microsecond)
		}
		if count.Load() != 1 {
			t.Fatalf("%d concurrent creations", count.Load())
		}
		close(gate)
		wg.Wait()
		distinct := 0
		vs.Range(func(any, any) bool { distinct++; return true })
		expCount := failures + 1
		if failures >= n {
			expCount = n
		}
		if int(count.Load()) != expCount || int(errs.Load()) != min(failures, n) || distinct > 1 {
			t.Fatalf("%d lookups: %d creations, %d errors, %d values, %d failures are planned", n, count.Load(), errs.Load(), distinct, failures)
		}
		ev.Case(t, n >= 4, "n=%d failures=%d other=%t", n, failures, other)
	})
}

// TestExpiration: P12 - an entry is not returned after its expiration
func TestExpiration(t *testing.T) {
	ev.Check(t, "a value expired while it was in the cache", func(t *rapid.T) {
		ttl := time.Duration(rapid.IntRange(-1, 20).Draw(t, "ttl")) * 50 * time.Microsecond
		workers := rapid.IntRange(1, 4).Draw(t, "workers")
		perWorker := rapid.IntRange(1, 15).Draw(t, "perWorker")
		pauses := rapid.SliceOfN(rapid.IntRange(0, 8), 8, 8).Draw(t, "pauses")
		var n, dels atomic.Int32
		var mu sync.Mutex
		deleted := map[*val]int{}
		c, _ := lru.NewExpirableCache[string, *val](2, func(k string) (*val, error) {
			return &val{key: k, n: int(n.Add(1)), expires: time.Now().Add(ttl)}, nil
		}, func(k string, v *val) {
			mu.Lock()
			deleted[v]++
			mu.Unlock()
			dels.Add(1)
		})
		var wg sync.WaitGroup
		var bad atomic.Value
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < perWorker; i++ {
					time.Sleep(time.Duration(pauses[(i+w)%8]) * 40 * time.Microsecond)
					before := time.Now()
					first := n.Load()
					v, err := c.GetOrCreate(fmt.Sprintf("k%d", i%2))
					if err != nil {
						bad.Store(err.Error())
					} else if v.expires.Before(before) && v.n <= int(first) {
						bad.Store(fmt.Sprintf("%v had expired before the call", v))
					}
				}
			}()
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
		left := c.Clear()
		if int(dels.Load()) != int(n.Load()) {
			t.Fatalf("%d are created, %d are deleted, %d were left", n.Load(), dels.Load(), left)
		}
		for v, k := range deleted {
			if k != 1 {
				t.Fatalf("%v is deleted %d times", v, k)
			}
		}
		ev.Case(t, int(n.Load()) > 2, "ttl=%s workers=%d per=%d created=%d", ttl, workers, perWorker, n.Load()/3)
	})
}
