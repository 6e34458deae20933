package kvs

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/alicebob/miniredis/v2"
	goredis "github.com/go-redis/redis/v8"
	"github.com/gobwas/glob"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/golibs/kvs/redis"
	"pgregory.net/rapid"
)

var mini *miniredis.Miniredis
var redisStore kvs.Storage

func TestMain(m *testing.M) {
	mini = miniredis.NewMiniRedis()
	if err := mini.Start(); err != nil {
		fmt.Printf("EV-ENV: no redis: %v\n", err)
		os.Exit(3)
	}
	redisStore = redis.New(&goredis.Options{Addr: mini.Addr(), PoolSize: 32})
	ev.Main(m)
}

// clock is the time of a storage
type clock interface {
	// now returns the current time of the storage
	now() time.Time
	// advance moves the time
	advance(d time.Duration)
	// given turns a time of the storage to what is to be written to ExpiresAt
	given(at time.Time) time.Time
	// passed is called after records, which are expired already, were written
	passed()
}

type realClock struct{}

func (realClock) now() time.Time               { return time.Now() }
func (realClock) advance(d time.Duration)      { time.Sleep(d) }
func (realClock) given(at time.Time) time.Time { return at }
func (realClock) passed()                      {}

// miniClock is the time of the redis server, it is moved by hands only
type miniClock struct{ t time.Time }

func (c *miniClock) now() time.Time { return c.t }
func (c *miniClock) advance(d time.Duration) {
	mini.FastForward(d)
	c.t = c.t.Add(d)
}
func (c *miniClock) given(at time.Time) time.Time { return time.Now().Add(at.Sub(c.t)) }
func (c *miniClock) passed()                      { c.advance(2 * time.Millisecond) }

type world struct {
	st       kvs.Storage
	clk      clock
	exps     []time.Duration
	steps    []time.Duration
	realtime bool
}

func newWorld(t *rapid.T) *world {
	if rapid.Bool().Draw(t, "redis") {
		mini.FlushAll()
		h := time.Hour
		return &world{st: redisStore, clk: &miniClock{time.Unix(0, 0)},
			exps:  []time.Duration{-h, -time.Millisecond, h / 2, 3 * h / 2, 5 * h / 2, 1000 * h},
			steps: []time.Duration{0, h, 2 * h}}
	}
	ms := time.Millisecond
	return &world{st: inmem.New(), clk: realClock{}, realtime: true,
		exps:  []time.Duration{-time.Hour, -ms, ms, 3 * ms, 10 * ms, time.Hour},
		steps: []time.Duration{0, ms, 4 * ms, 12 * ms}}
}

// rec is a record of the model
type rec struct {
	value   []byte
	version string // "" is not known yet
	expires *time.Time
	given   *time.Time
}

const (
	gone = iota
	live
	either
)

// status returns the state of the record, for an operation executed between t0 and t1
func (r *rec) status(t0, t1 time.Time) int {
	if r == nil {
		return gone
	}
	if r.expires == nil || t1.Before(*r.expires) {
		return live
	}
	if t0.After(*r.expires) {
		return gone
	}
	return either
}

var keyPool = []string{"a", "b", "ab", "abc", "a/b", "a/c/d", "b*c", "b[1]", "k?{x}", "ключ", "x y", "", "\\", "very/long/" + strings.Repeat("z", 300)}

func drawKey(t *rapid.T, n int) string {
	return keyPool[rapid.IntRange(0, n-1).Draw(t, "key")]
}

func drawValue(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "valueKind") {
	case 0:
		return nil
	case 1:
		return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "b"))}, 5000)
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "value")
}

func scribble(b []byte, e *time.Time) {
	for i := range b {
		b[i] ^= 0xA5
	}
	if e != nil {
		*e = e.Add(-1000000 * time.Hour)
	}
}

// TestModel: P29 - histories of the operations of the storages against the model
func TestModel(t *testing.T) {
	ctx := context.Background()
	ev.Check(t, "a record was changed by its version, one was rejected for the version, and a record expired or was deleted and was written again", func(t *rapid.T) {
		w := newWorld(t)
		nkeys := rapid.IntRange(1, len(keyPool)).Draw(t, "nkeys")
		model := map[string]*rec{}
		seen := map[string]map[string]bool{}
		var trace []string
		var casOK, casBad, again int
		wasGone := map[string]bool{}

		newVersion := func(key, v, what string) {
			if v == "" {
				t.Fatalf("%s %q: no version", what, key)
			}
			if seen[key] == nil {
				seen[key] = map[string]bool{}
			}
			if seen[key][v] {
				t.Fatalf("%s %q: the version %q was used already", what, key, v)
			}
			seen[key][v] = true
		}
		drop := func(key string) {
			delete(model, key)
			wasGone[key] = true
		}
		drawRec := func() (kvs.Record, *rec) {
			r := kvs.Record{Key: drawKey(t, nkeys), Value: drawValue(t), Version: rapid.SampledFrom([]string{"", "ver"}).Draw(t, "ignoredVersion")}
			m := &rec{value: bytes.Clone(r.Value)}
			if rapid.IntRange(0, 2).Draw(t, "expires") == 0 {
				at := w.clk.now().Add(rapid.SampledFrom(w.exps).Draw(t, "expiresIn"))
				g := w.clk.given(at)
				g2 := g
				r.ExpiresAt = &g
				m.expires, m.given = &at, &g2
			}
			return r, m
		}
		written := func(key string, m *rec) {
			if wasGone[key] {
				again++
			}
			model[key] = m
			if m.expires != nil && !m.expires.After(w.clk.now()) {
				w.clk.passed()
			}
		}
		check := func(what string, r kvs.Record, key string, m *rec) {
			if r.Key != key || !bytes.Equal(r.Value, m.value) {
				t.Fatalf("%s %q: got the record {%q %q}, the value must be %q", what, key, r.Key, r.Value, m.value)
			}
			if (r.ExpiresAt == nil) != (m.given == nil) || (m.given != nil && !r.ExpiresAt.Equal(*m.given)) {
				t.Fatalf("%s %q: expires at %v, must be %v", what, key, r.ExpiresAt, m.given)
			}
			if m.version == "" {
				newVersion(key, r.Version, what)
				m.version = r.Version
			} else if m.version != r.Version {
				t.Fatalf("%s %q: the version is %q, must be %q", what, key, r.Version, m.version)
			}
		}

		n := rapid.IntRange(3, 25).Draw(t, "n")
		var bulk []string // many records, they match the most of the patterns
		if ev.Big(t) > 1 {
			var rs []kvs.Record
			var ms []*rec
			for i := rapid.SampledFrom([]int{20, 130, 1100, 2500}).Draw(t, "bulk"); i > 0; i-- {
				bulk = append(bulk, fmt.Sprintf("a/b/%d/ab/abc", i))
				v := []byte(fmt.Sprint(i))
				rs, ms = append(rs, kvs.Record{Key: bulk[len(bulk)-1], Value: v}), append(ms, &rec{value: bytes.Clone(v)})
			}
			if err := w.st.PutMany(ctx, rs); err != nil {
				t.Fatalf("putMany: %v", err)
			}
			for k, r := range rs {
				written(r.Key, ms[k])
				scribble(r.Value, nil)
			}
			trace = append(trace, fmt.Sprintf("putMany %d", len(rs)))
		}
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"create", "create", "put", "put", "putMany", "cas", "cas", "cas", "get", "get", "getMany", "delete", "delete", "list", "advance", "advance", "wait"}).Draw(t, "op")
			if len(bulk) > 0 && i < 2 {
				op = []string{"list", "getMany"}[i]
			}
			switch op {
			case "create":
				r, m := drawRec()
				t0 := w.clk.now()
				v, err := w.st.Create(ctx, r)
				st := model[r.Key].status(t0, w.clk.now())
				trace = append(trace, fmt.Sprintf("create %q %v", r.Key, err == nil))
				switch {
				case err == nil && st != live:
					newVersion(r.Key, v, op)
					m.version = v
					if model[r.Key] != nil {
						wasGone[r.Key] = true
					}
					written(r.Key, m)
				case errors.Is(err, serrors.ErrExist) && st != gone:
					if cur := model[r.Key]; cur.version != "" && cur.version != v {
						t.Fatalf("create %q: the record exists, its version is %q, but %q is returned", r.Key, cur.version, v)
					}
				default:
					t.Fatalf("create %q: status %d, v=%q err=%v", r.Key, st, v, err)
				}
				scribble(r.Value, r.ExpiresAt)
			case "put":
				r, m := drawRec()
				r1, err := w.st.Put(ctx, r)
				trace = append(trace, fmt.Sprintf("put %q", r.Key))
				if err != nil {
					t.Fatalf("put %q: %v", r.Key, err)
				}
				check(op, r1, r.Key, m)
				scribble(r.Value, r.ExpiresAt)
				scribble(r1.Value, nil)
				written(r.Key, m)
			case "putMany":
				var rs []kvs.Record
				var ms []*rec
				for k := rapid.IntRange(0, 4).Draw(t, "many"); k > 0; k-- {
					r, m := drawRec()
					rs, ms = append(rs, r), append(ms, m)
				}
				trace = append(trace, fmt.Sprintf("putMany %d", len(rs)))
				if err := w.st.PutMany(ctx, rs); err != nil {
					t.Fatalf("putMany: %v", err)
				}
				for k, r := range rs {
					written(r.Key, ms[k])
					scribble(r.Value, r.ExpiresAt)
				}
			case "cas":
				r, m := drawRec()
				cur := model[r.Key]
				if cur != nil && cur.version == "" { // written by putMany
					t0 := w.clk.now()
					r1, err := w.st.Get(ctx, r.Key)
					if err == nil {
						check("get", r1, r.Key, cur)
					} else if cur.status(t0, w.clk.now()) == live {
						t.Fatalf("get %q: %v", r.Key, err)
					} else {
						drop(r.Key)
						cur = nil
					}
				}
				switch rapid.IntRange(0, 3).Draw(t, "which") {
				case 0:
					var old []string
					for v := range seen[r.Key] {
						old = append(old, v)
					}
					sort.Strings(old)
					if len(old) > 0 {
						r.Version = rapid.SampledFrom(old).Draw(t, "old")
					}
				case 1: // whatever it is
				default:
					if cur != nil {
						r.Version = cur.version
					}
				}
				ver := r.Version
				t0 := w.clk.now()
				r1, err := w.st.CasByVersion(ctx, r)
				st := cur.status(t0, w.clk.now())
				trace = append(trace, fmt.Sprintf("cas %q %v", r.Key, err))
				switch {
				case err == nil && st != gone && ver == cur.version:
					check(op, r1, r.Key, m)
					scribble(r1.Value, nil)
					written(r.Key, m)
					casOK++
				case errors.Is(err, serrors.ErrConflict) && st != gone && ver != cur.version:
					casBad++
				case errors.Is(err, serrors.ErrNotExist) && st != live:
					if cur != nil {
						drop(r.Key)
					}
				default:
					t.Fatalf("cas %q: status %d, the version %q, the current %+v: err=%v", r.Key, st, ver, cur, err)
				}
				scribble(r.Value, r.ExpiresAt)
			case "get":
				key := drawKey(t, nkeys)
				t0 := w.clk.now()
				r, err := w.st.Get(ctx, key)
				st := model[key].status(t0, w.clk.now())
				trace = append(trace, fmt.Sprintf("get %q %v", key, err == nil))
				switch {
				case err == nil && st != gone:
					check(op, r, key, model[key])
					scribble(r.Value, r.ExpiresAt)
				case errors.Is(err, serrors.ErrNotExist) && st != live:
					if st == either {
						drop(key)
					}
				default:
					t.Fatalf("get %q: status %d, err=%v", key, st, err)
				}
			case "getMany":
				var keys []string
				for k := rapid.IntRange(0, 5).Draw(t, "many"); k > 0; k-- {
					keys = append(keys, drawKey(t, nkeys))
				}
				keys = append(keys, bulk...)
				t0 := w.clk.now()
				rs, err := w.st.GetMany(ctx, keys...)
				t1 := w.clk.now()
				trace = append(trace, fmt.Sprintf("getMany %d", len(keys)))
				if err != nil {
					t.Fatalf("getMany %q: %v", keys, err)
				}
				if len(rs) != len(keys) {
					t.Fatalf("getMany: %d entries for %d keys", len(rs), len(keys))
				}
				for k, key := range keys {
					st := model[key].status(t0, t1)
					switch {
					case rs[k] != nil && st != gone:
						check(op, *rs[k], key, model[key])
					case rs[k] == nil && st != live:
					default:
						t.Fatalf("getMany %q: status %d, the result is %v", key, st, rs[k])
					}
				}
				for k, key := range keys {
					if rs[k] == nil {
						if model[key] != nil {
							drop(key)
						}
					} else if k == 0 || rs[k] != rs[k-1] {
						scribble(rs[k].Value, rs[k].ExpiresAt)
					}
				}
			case "delete":
				key := drawKey(t, nkeys)
				t0 := w.clk.now()
				err := w.st.Delete(ctx, key)
				st := model[key].status(t0, w.clk.now())
				trace = append(trace, fmt.Sprintf("delete %q %v", key, err == nil))
				if !(err == nil && st != gone || errors.Is(err, serrors.ErrNotExist) && st != live) {
					t.Fatalf("delete %q: status %d, err=%v", key, st, err)
				}
				if model[key] != nil {
					drop(key)
				}
			case "list":
				q := glob.QuoteMeta(keyPool[rapid.IntRange(0, len(keyPool)-1).Draw(t, "patternKey")])
				match := strings.HasPrefix
				pat := q
				lit := unquote(q)
				switch rapid.IntRange(0, 3).Draw(t, "patternKind") {
				case 0:
					match = func(s, x string) bool { return s == x }
				case 1:
					pat = q + "*"
				case 2:
					pat, match = "*"+q, strings.HasSuffix
					if q == "" {
						pat = "*"
					}
				case 3:
					pat, match = "*"+q+"*", strings.Contains
					if q == "" {
						pat = "*"
					}
				}
				t0 := w.clk.now()
				it, err := w.st.ListKeys(ctx, pat)
				if err != nil {
					t.Fatalf("listKeys %q: %v", pat, err)
				}
				got := map[string]bool{}
				for it.HasNext() {
					if !it.HasNext() {
						t.Fatalf("listKeys %q: HasNext() changes the state", pat)
					}
					k, ok := it.Next()
					if !ok || got[k] {
						t.Fatalf("listKeys %q: the key %q, ok=%t is returned twice or not at all: %v", pat, k, ok, got)
					}
					got[k] = true
				}
				if k, ok := it.Next(); ok {
					t.Fatalf("listKeys %q: one more key %q after the end", pat, k)
				}
				_ = it.Close()
				t1 := w.clk.now()
				trace = append(trace, fmt.Sprintf("list %q %d", pat, len(got)))
				for k, m := range model {
					switch st := m.status(t0, t1); {
					case !match(k, lit):
						if got[k] {
							t.Fatalf("listKeys %q: the key %q doesn't match", pat, k)
						}
					case st == live && !got[k], st == gone && got[k]:
						t.Fatalf("listKeys %q: status %d, but the key %q listed: %t", pat, st, k, got[k])
					}
					delete(got, k)
				}
				if len(got) > 0 {
					t.Fatalf("listKeys %q: there are no keys %v", pat, got)
				}
			case "advance":
				d := rapid.SampledFrom(w.steps).Draw(t, "step")
				w.clk.advance(d)
				trace = append(trace, fmt.Sprintf("advance %v", d))
			case "wait":
				key := drawKey(t, nkeys)
				m := model[key]
				ver := "other"
				if m != nil && m.version != "" && rapid.Bool().Draw(t, "current") {
					ver = m.version
				}
				t0 := w.clk.now()
				// the wait which must be over at once has plenty of time
				wait, atOnce := 3*time.Millisecond, m.status(t0, t0) == gone || ver != m.version
				if atOnce {
					wait = 20 * time.Second
				}
				wctx, cancel := context.WithTimeout(ctx, wait)
				err := w.st.WaitForVersionChange(wctx, key, ver)
				st := m.status(t0, w.clk.now())
				trace = append(trace, fmt.Sprintf("wait %q %v", key, err))
				switch {
				case err == nil && st != gone && ver != m.version:
				case errors.Is(err, serrors.ErrNotExist) && st != live:
				case errors.Is(err, context.DeadlineExceeded) && wctx.Err() != nil && st != gone && ver == m.version:
				case errors.Is(err, context.DeadlineExceeded) && wctx.Err() != nil && !atOnce && w.realtime: // it expires while being waited for
				default:
					t.Fatalf("wait %q: status %d, ver=%q model=%+v: err=%v", key, st, ver, m, err)
				}
				cancel()
			}
		}
		// everything what is there must be readable
		for key, m := range model {
			t0 := w.clk.now()
			r, err := w.st.Get(ctx, key)
			switch st := m.status(t0, w.clk.now()); {
			case err == nil && st != gone:
				check("the final get", r, key, m)
			case errors.Is(err, serrors.ErrNotExist) && st != live:
			default:
				t.Fatalf("the final get %q: status %d, err=%v", key, st, err)
			}
		}
		ev.Case(t, casOK > 0 && casBad > 0 && again > 0, "redis=%t %v", !w.realtime, trace)
	})
}

func unquote(q string) string {
	var sb strings.Builder
	for i := 0; i < len(q); i++ {
		if q[i] == '\\' && i+1 < len(q) {
			i++
		}
		sb.WriteByte(q[i])
	}
	return sb.String()
}

type waiter struct {
	key, ver string
	cancel   context.CancelFunc
	done     chan error
	allowNil bool
	allowNE  bool
	allowCtx bool
}

// TestWaiters: P29 - waiters for the changes of the versions return when, and only when, there is something to report
func TestWaiters(t *testing.T) {
	ctx := context.Background()
	ev.Check(t, "two waiters of one key were waiting, one was cancelled and another was woken up by a change, a deletion or an expiration", func(t *rapid.T) {
		w := newWorld(t)
		if w.realtime {
			w.exps = []time.Duration{15 * time.Millisecond, time.Hour}
			w.steps = []time.Duration{time.Millisecond, 25 * time.Millisecond}
		}
		nkeys := rapid.IntRange(1, 3).Draw(t, "nkeys")
		model := map[string]*rec{}
		var old []string
		var ws []*waiter
		var trace []string
		defer func() {
			for _, x := range ws {
				x.cancel()
			}
			for _, x := range ws {
				<-x.done
			}
		}()
		status := func(key string) int { return model[key].status(w.clk.now(), w.clk.now()) }
		woken, cancelled, shared := 0, 0, false
		// settle checks the waiters
		settle := func() {
			if w.realtime { // records which are about to expire
				for _, m := range model {
					if m.expires != nil {
						if d := time.Until(*m.expires); d > 0 && d < 8*time.Millisecond {
							time.Sleep(d + 100*time.Microsecond)
						}
					}
				}
			}
			rest := ws[:0]
			for _, x := range ws {
				must := x.allowCtx
				switch m := model[x.key]; {
				case m.status(w.clk.now(), w.clk.now()) == gone:
					x.allowNE, must = true, true
				case m.version != x.ver:
					x.allowNil, must = true, true
				}
				var err error
				var got bool
				if must {
					select {
					case err = <-x.done:
						got = true
					case <-time.After(20 * time.Second):
						t.Fatalf("%v: the waiter of %q %q didn't return", trace, x.key, x.ver)
					}
				} else {
					select {
					case err = <-x.done:
						got = true
						if w.realtime && model[x.key].status(w.clk.now(), w.clk.now()) == gone {
							x.allowNE = true // expired meanwhile
						}
					default:
					}
				}
				if !got {
					rest = append(rest, x)
					continue
				}
				x.done <- err
				switch {
				case err == nil && x.allowNil, errors.Is(err, serrors.ErrNotExist) && x.allowNE:
					woken++
				case errors.Is(err, context.Canceled) && x.allowCtx:
					cancelled++
				default:
					t.Fatalf("%v: the waiter of %q %q returns %v: changed=%t deleted=%t cancelled=%t", trace, x.key, x.ver, err, x.allowNil, x.allowNE, x.allowCtx)
				}
				x.cancel()
			}
			ws = rest
		}
		n := rapid.IntRange(4, 16).Draw(t, "n")
		for i := 0; i < n; i++ {
			key := drawKey(t, nkeys)
			op := rapid.SampledFrom([]string{"wait", "wait", "wait", "put", "put", "putmany", "cas", "delete", "advance", "cancel", "cancel", "pause"}).Draw(t, "op")
			trace = append(trace, op+" "+key)
			switch op {
			case "wait":
				ver := "zzz"
				if m := model[key]; m != nil && rapid.IntRange(0, 7).Draw(t, "current") > 0 {
					ver = m.version
				} else if len(old) > 0 {
					ver = rapid.SampledFrom(old).Draw(t, "ver")
				}
				x := &waiter{key: key, ver: ver, done: make(chan error, 1)}
				for _, y := range ws {
					if y.key == key && y.ver == ver {
						shared = true
					}
				}
				var wctx context.Context
				wctx, x.cancel = context.WithCancel(ctx)
				go func() { x.done <- w.st.WaitForVersionChange(wctx, x.key, x.ver) }()
				if rapid.IntRange(0, 2).Draw(t, "letItWait") > 0 {
					time.Sleep(300 * time.Microsecond)
				}
				ws = append(ws, x)
			case "put", "putmany":
				m := &rec{}
				r := kvs.Record{Key: key, Value: []byte{byte(i)}}
				if rapid.IntRange(0, 2).Draw(t, "sameValue") > 0 {
					r.Value = []byte("same")
				}
				if rapid.IntRange(0, 2).Draw(t, "expires") == 0 {
					d := rapid.SampledFrom(w.exps).Draw(t, "expiresIn")
					if d > 0 {
						at := w.clk.now().Add(d)
						g := w.clk.given(at)
						m.expires, r.ExpiresAt = &at, &g
					}
				}
				var r1 kvs.Record
				var err error
				before := status(key)
				if op == "put" {
					r1, err = w.st.Put(ctx, r)
				} else if err = w.st.PutMany(ctx, []kvs.Record{r}); err == nil {
					r1, err = w.st.Get(ctx, key)
					if errors.Is(err, serrors.ErrNotExist) && m.expires != nil && !m.expires.After(w.clk.now()) {
						r1, err = kvs.Record{Version: "expired at once"}, nil
					}
				}
				if before == live {
					before = status(key)
				}
				if err != nil {
					t.Fatal(err)
				}
				m.version = r1.Version
				old = append(old, m.version)
				for _, x := range ws {
					if x.key == key && before != live {
						x.allowNE = true // it could start before the put
					}
					if x.key == key && x.ver != m.version {
						x.allowNil = true
					}
				}
				model[key] = m
			case "cas":
				m := model[key]
				if m == nil {
					continue
				}
				r1, err := w.st.CasByVersion(ctx, kvs.Record{Key: key, Version: m.version})
				if errors.Is(err, serrors.ErrNotExist) && status(key) != live {
					break
				}
				if err != nil {
					t.Fatalf("cas %q: %v", key, err)
				}
				model[key] = &rec{version: r1.Version}
				old = append(old, r1.Version)
			case "delete":
				err := w.st.Delete(ctx, key)
				if err != nil && status(key) == live {
					t.Fatal(err)
				}
				delete(model, key)
				for _, x := range ws {
					if x.key == key {
						x.allowNE = true
					}
				}
			case "advance":
				w.clk.advance(rapid.SampledFrom(w.steps).Draw(t, "step"))
			case "pause":
				time.Sleep(time.Duration(rapid.IntRange(1, 4).Draw(t, "ms")) * time.Millisecond)
			case "cancel":
				if len(ws) > 0 {
					x := ws[rapid.IntRange(0, len(ws)-1).Draw(t, "waiter")]
					x.allowCtx = true
					x.cancel()
				}
			}
			for _, x := range ws { // what could be seen meanwhile
				switch m := model[x.key]; {
				case m.status(w.clk.now(), w.clk.now()) != live:
					x.allowNE = true
				case m.version != x.ver:
					x.allowNil = true
				}
			}
			if op != "wait" && rapid.IntRange(0, 2).Draw(t, "settle") > 0 {
				settle()
			}
		}
		settle()
		ev.Case(t, shared && woken > 0 && cancelled > 0, "redis=%t %v", !w.realtime, trace)
	})
}

// operation of a concurrent history
type operation struct {
	op, key  string
	ver, val string // the arguments
	rver     string // the result
	rval     string
	err      error
	from, to int64
}

type state struct {
	exists   bool
	ver, val string
}

// step returns whether the operation may have the result in the state, and the next state
func (o *operation) step(s state) (state, bool) {
	ne, ex, cf := errors.Is(o.err, serrors.ErrNotExist), errors.Is(o.err, serrors.ErrExist), errors.Is(o.err, serrors.ErrConflict)
	if o.err != nil && !ne && !ex && !cf {
		return s, false
	}
	switch o.op {
	case "create":
		if s.exists {
			return s, ex && o.rver == s.ver
		}
		return state{true, o.rver, o.val}, o.err == nil
	case "put":
		return state{true, o.rver, o.val}, o.err == nil
	case "cas":
		if !s.exists {
			return s, ne
		}
		if s.ver != o.ver {
			return s, cf
		}
		return state{true, o.rver, o.val}, o.err == nil
	case "delete":
		if !s.exists {
			return s, ne
		}
		return state{}, o.err == nil
	case "get":
		if !s.exists {
			return s, ne
		}
		return s, o.err == nil && s.ver == o.rver && s.val == o.rval
	}
	panic(o.op)
}

func linearizable(ops []*operation) bool {
	type conf struct {
		mask uint64
		s    state
	}
	bad := map[conf]bool{}
	var try func(mask uint64, s state) bool
	try = func(mask uint64, s state) bool {
		if mask == 1<<len(ops)-1 {
			return true
		}
		c := conf{mask, s}
		if bad[c] {
			return false
		}
		first := int64(1 << 62) // the first end of the operations which are left
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.to < first {
				first = o.to
			}
		}
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.from <= first {
				if s1, ok := o.step(s); ok && try(mask|1<<i, s1) {
					return true
				}
			}
		}
		bad[c] = true
		return false
	}
	return try(0, state{})
}

// TestLinearizable: P29 - histories of concurrent operations are linearizable
func TestLinearizable(t *testing.T) {
	ctx := context.Background()
	ev.Check(t, "two successful writes of one key by its version, or creations, and one rejected, of different goroutines", func(t *rapid.T) {
		w := newWorld(t)
		ng := rapid.IntRange(2, 4).Draw(t, "goroutines")
		nk := rapid.IntRange(1, 2).Draw(t, "keys")
		plan := make([][]operation, ng)
		for g := range plan {
			for i := rapid.IntRange(2, 12/ng+1).Draw(t, "ops"); i > 0; i-- {
				plan[g] = append(plan[g], operation{key: keyPool[rapid.IntRange(0, nk-1).Draw(t, "key")], op: rapid.SampledFrom([]string{"create", "create", "put", "cas", "cas", "cas", "delete", "get"}).Draw(t, "op")})
			}
		}
		var clk atomic.Int64
		var mu sync.Mutex
		var history []*operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := map[string]string{}
				<-start
				for i := range plan[g] {
					o := plan[g][i]
					o.val = fmt.Sprintf("%d.%d", g, i)
					o.ver = last[o.key]
					if o.op == "cas" && o.ver == "" {
						o.op = "get"
					}
					buf := []byte(o.val)
					o.from = clk.Add(1)
					var r kvs.Record
					switch o.op {
					case "create":
						o.rver, o.err = w.st.Create(ctx, kvs.Record{Key: o.key, Value: buf})
					case "put":
						r, o.err = w.st.Put(ctx, kvs.Record{Key: o.key, Value: buf})
						o.rver = r.Version
					case "cas":
						r, o.err = w.st.CasByVersion(ctx, kvs.Record{Key: o.key, Value: buf, Version: o.ver})
						o.rver = r.Version
					case "delete":
						o.err = w.st.Delete(ctx, o.key)
					case "get":
						r, o.err = w.st.Get(ctx, o.key)
						o.rver, o.rval = r.Version, string(r.Value)
						scribble(r.Value, nil)
					}
					o.to = clk.Add(1)
					scribble(buf, nil)
					if o.err == nil && o.op != "delete" {
						last[o.key] = o.rver
					}
					mu.Lock()
					history = append(history, &o)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		perKey := map[string][]*operation{}
		for _, o := range history {
			perKey[o.key] = append(perKey[o.key], o)
		}
		nontrivial := false
		for k, ops := range perKey {
			sort.Slice(ops, func(i, j int) bool { return ops[i].from < ops[j].from })
			if !linearizable(ops) {
				for _, o := range ops {
					t.Logf("%d-%d %s(ver=%q, val=%q) = %q %q %v", o.from, o.to, o.op, o.ver, o.val, o.rver, o.rval, o.err)
				}
				t.Fatalf("redis=%t: the history of %q is not linearizable", !w.realtime, k)
			}
			okc, bad := 0, 0
			for _, o := range ops {
				if o.op == "cas" || o.op == "create" {
					if o.err == nil {
						okc++
					} else {
						bad++
					}
				}
			}
			if okc > 1 && bad > 0 {
				nontrivial = true
			}
		}
		ev.Case(t, nontrivial, "redis=%t %d goroutines, %d keys, %v", !w.realtime, ng, nk, fmtPlan(plan))
	})
}

func fmtPlan(p [][]operation) string {
	var sb strings.Builder
	for _, ops := range p {
		for _, o := range ops {
			sb.WriteString(o.op + o.key + " ")
		}
		sb.WriteString("| ")
	}
	return sb.String()
}
