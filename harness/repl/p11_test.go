package repl

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"pgregory.net/rapid"
)

type opKey struct{}

// aop is an operation with a chunk
type aop struct {
	n       int
	kind    string
	flags   int
	c       *achunk
	ctx     context.Context
	cancel  context.CancelFunc
	arrived chan struct{} // closed when the operation has the exclusive access, and it is in the storage call (or it is a writer)
	release chan struct{}
	fail    bool // the storage call fails
	done    chan struct{}
	err     error
	rc      lru.Releasable[*chunkfs.Chunk]
	// the model
	cancelled, holding, waiting bool
	// maybe is true if the access was passed from one to another while the operation was waiting: it could go through in between
	maybe bool
}

func (o *aop) String() string { return fmt.Sprintf("#%d %s(%d) of %s", o.n, o.kind, o.flags, o.c.id) }

// achunk is a chunk in the model
type achunk struct {
	id            string
	prov          *chunkfs.Provider
	fn            string
	content       []byte
	local, remote bool
	opened        bool   // it is in the provider's pool
	held          []*aop // successful opens, which are not released
	excl          *aop   // who has the exclusive access
	waiters       []*aop

	mu     sync.Mutex
	region *aop // who is in the exclusive region actually
	broken string
}

func (c *achunk) enter(o *aop) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.region != nil && c.broken == "" {
		c.broken = fmt.Sprintf("%s has the access at the time of %s", o, c.region)
	}
	c.region = o
}

func (c *achunk) leave() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.region = nil
}

// astore is a storage, every call waits until it is released
type astore struct {
	*store
}

var _ sss.Storage = (*astore)(nil)

func (s *astore) hold(ctx context.Context, key string) error {
	o, ok := ctx.Value(opKey{}).(*aop)
	if !ok || keyID(key) != o.c.id {
		return nil
	}
	o.c.enter(o)
	close(o.arrived)
	<-o.release
	o.c.leave()
	if o.fail {
		return errFault
	}
	return nil
}

func (s *astore) Put(ctx context.Context, key string, r io.Reader) error {
	if err := s.hold(ctx, key); err != nil {
		return err
	}
	return s.store.Put(ctx, key, r)
}

func (s *astore) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	if err := s.hold(ctx, key); err != nil {
		return nil, err
	}
	return s.store.Get(ctx, key)
}

func (s *astore) Delete(ctx context.Context, key string) error {
	if err := s.hold(ctx, key); err != nil {
		return err
	}
	return s.store.Delete(ctx, key)
}

const patience = 20 * time.Second

type accWorld struct {
	t      *rapid.T
	dir    string
	st     *astore
	ca     *chunkfs.ChunkAccessor
	repl   *chunkfs.Replicator
	chunks []*achunk
	ops    []*aop
	closed bool
	trace  []string
	cfg    stack.Cfg
}

func (w *accWorld) logf(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
}

func (w *accWorld) fatalf(format string, args ...any) {
	w.t.Helper()
	w.t.Fatalf("%s\n\t%s", fmt.Sprintf(format, args...), strings.Join(w.trace, "\n\t"))
}

func (w *accWorld) newProvider() *chunkfs.Provider {
	p := chunkfs.NewProvider(w.dir, 1, w.cfg.Chunk())
	p.CA, p.Replicator = w.ca, w.repl
	return p
}

// newAccWorld creates the chunks: every chunk has its own provider
func newAccWorld(t *rapid.T, dir string, n int) *accWorld {
	w := &accWorld{t: t, dir: filepath.Join(dir, "chunks"), st: &astore{newStore()}, cfg: stack.Cfg{New: stack.Block, Max: stack.Block, Grow: stack.Block, MaxOpened: 1}}
	w.ca = chunkfs.NewChunkAccessor()
	w.repl = chunkfs.NewReplicator(func(id string) string { return w.newProvider().GetFileNameByID(id) })
	w.repl.CA, w.repl.Storage = w.ca, w.st
	for i := 0; i < n; i++ {
		c := &achunk{id: ulidutils.NewID()}
		c.prov = w.newProvider()
		c.fn = c.prov.GetFileNameByID(c.id)
		rc, err := c.prov.GetOpenedChunk(context.Background(), c.id, true)
		if err != nil {
			w.fatalf("could not create a chunk: %v", err)
		}
		if _, err := rc.Value().AppendRecords([]*solaris.Record{{Payload: []byte{byte(i)}}}); err != nil {
			w.fatalf("could not write to a chunk: %v", err)
		}
		c.prov.ReleaseChunk(&rc)
		_ = c.prov.Close()
		c.prov = w.newProvider()
		c.content, err = os.ReadFile(c.fn)
		if err != nil {
			w.fatalf("no chunk file: %v", err)
		}
		c.local = true
		w.chunks = append(w.chunks, c)
	}
	return w
}

// bystanders opens n more chunks, which nobody touches: they are in use all the time. Then the returned func is called
func (w *accWorld) bystanders(n int) func() {
	if n == 0 {
		return func() {}
	}
	w.logf("%d more chunks are opened", n)
	p := chunkfs.NewProvider(w.dir, n, w.cfg.Chunk())
	p.CA, p.Replicator = w.ca, w.repl
	ids := make([]string, n)
	rcs := make([]lru.Releasable[*chunkfs.Chunk], n)
	for i := range rcs {
		var err error
		ids[i] = ulidutils.NewID()
		if rcs[i], err = p.GetOpenedChunk(context.Background(), ids[i], true); err != nil {
			w.fatalf("could not create a chunk: %v", err)
		}
	}
	return func() {
		for i := range rcs {
			if err := w.repl.DeleteChunk(context.Background(), ids[i], 0); !errors.Is(err, errors.ErrConflict) && !w.closed {
				w.fatalf("the chunk %s is opened, and it is deleted: %v", ids[i], err)
			}
			p.ReleaseChunk(&rcs[i])
		}
		_ = p.Close()
	}
}

// nBystanders draws how many of them are there
func nBystanders(t *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(t, "many") > 0 {
		return 0
	}
	return rapid.SampledFrom([]int{3, 20, 70, 150}).Draw(t, "bystanders")
}

func (w *accWorld) newOp(kind string, flags int, c *achunk) *aop {
	o := &aop{n: len(w.ops), kind: kind, flags: flags, c: c, arrived: make(chan struct{}), release: make(chan struct{}), done: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	o.ctx, o.cancel = context.WithValue(ctx, opKey{}, o), cancel
	w.ops = append(w.ops, o)
	return o
}

// run executes the operation
func (w *accWorld) run(o *aop) {
	defer close(o.done)
	switch o.kind {
	case "open":
		o.rc, o.err = o.c.prov.GetOpenedChunk(o.ctx, o.c.id, false)
	case "write":
		if o.err = w.ca.SetWriting(o.ctx, o.c.id); o.err == nil {
			o.c.enter(o)
			close(o.arrived)
			<-o.release
			o.c.leave()
			w.ca.SetIdle(o.c.id)
		}
	case "upload":
		o.err = w.repl.UploadChunk(o.ctx, o.c.id)
	case "download":
		o.err = w.repl.DownloadChunk(o.ctx, o.c.id, o.flags)
	case "delete":
		o.err = w.repl.DeleteChunk(o.ctx, o.c.id, o.flags)
	}
}

// finished or holding, false if nothing happens in the time
func (w *accWorld) settled(o *aop, d time.Duration) bool {
	select {
	case <-o.done:
		return true
	case <-o.arrived:
		return true
	case <-time.After(d):
		return false
	}
}

func isDone(o *aop) bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

func isHolding(o *aop) bool {
	select {
	case <-o.arrived:
		return !isDone(o)
	default:
		return false
	}
}

func (w *accWorld) exists(c *achunk) bool {
	b, err := os.ReadFile(c.fn)
	if err == nil && !bytes.Equal(b, c.content) {
		w.fatalf("the content of %s is changed", c.id)
	}
	return err == nil
}

// completed applies the result of the operation to the model. held is true if it had the access to the storage
func (w *accWorld) completed(o *aop) {
	c := o.c
	o.waiting = false
	held := o.holding
	o.holding = false
	w.logf("%s completed: %v", o, o.err)
	if !o.cancelled && !w.closed && (errors.Is(o.err, context.Canceled) || errors.Is(o.err, errors.ErrClosed)) {
		w.fatalf("%s is not cancelled, but %v is reported", o, o.err)
	}
	ok := o.err == nil
	if held && o.kind != "write" && !(o.kind == "delete" && o.flags == chunkfs.RFRemoteDelete) {
		if ok == o.fail && !(o.kind != "upload" && o.kind != "delete" && !c.remote) {
			w.fatalf("%s: the storage failed=%t, but the result is %v", o, o.fail, o.err)
		}
	}
	switch o.kind {
	case "open":
		if ok {
			if held {
				c.local = true
			}
			c.opened = true
			c.held = append(c.held, o)
		}
	case "upload":
		if held && ok {
			c.remote = true
		}
	case "download":
		if held && ok {
			c.local = true
		}
	case "delete":
		if held && o.flags == chunkfs.RFRemoteSync && ok {
			c.remote, c.local = true, false
		}
		if held && o.flags == chunkfs.RFRemoteDelete {
			if ok == o.fail {
				w.fatalf("%s: the storage failed=%t, but the result is %v", o, o.fail, o.err)
			}
			c.local = false
			if ok {
				c.remote = false
			}
		}
		if !held && ok {
			c.local = false
		}
	}
	if c.excl == o {
		c.excl = nil
	}
	for i, x := range c.waiters {
		if x == o {
			c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
			break
		}
	}
	w.check()
}

func (w *accWorld) check() {
	for _, c := range w.chunks {
		c.mu.Lock()
		b := c.broken
		c.mu.Unlock()
		if b != "" {
			w.fatalf("%s", b)
		}
		if c.excl != nil && c.excl.kind == "delete" && c.excl.flags == chunkfs.RFRemoteDelete {
			continue // may be removed locally already
		}
		if e := w.exists(c); e != c.local {
			w.fatalf("chunk %s: the file exists=%t, expected %t", c.id, e, c.local)
		}
	}
}

// couldPass returns true if the operation doesn't need the exclusive access, so it could be completed between two others
func (o *aop) couldPass() bool {
	return o.maybe && o.c.local && (o.kind == "open" || o.kind == "download" && o.flags == 0)
}

// become handles the operation which has got the access, or completed
func (w *accWorld) become(o *aop) {
	if isDone(o) {
		// it could be in the storage for a moment only, it never happens: it waits for the release
		w.completed(o)
		return
	}
	c := o.c
	if c.excl != nil && c.excl != o {
		w.fatalf("%s has the access at the time of %s", o, c.excl)
	}
	if o.kind == "delete" && c.opened {
		w.fatalf("%s is deleting the opened chunk", o)
	}
	w.logf("%s has the access", o)
	c.excl = o
	o.holding, o.waiting = true, false
	for i, x := range c.waiters {
		if x == o {
			c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
			break
		}
	}
	w.check()
}

// settle waits until somebody from the waiters gets the access, if there is nobody now
func (w *accWorld) settle(c *achunk) {
	deadline := time.Now().Add(patience)
	for _, o := range c.waiters {
		o.maybe = true
	}
	for len(c.waiters) > 0 {
		progress := false
		for _, o := range append([]*aop(nil), c.waiters...) {
			if isDone(o) || isHolding(o) {
				w.become(o)
				progress = true
				break
			}
		}
		if progress {
			deadline = time.Now().Add(patience)
			continue
		}
		if c.excl != nil && !w.closed {
			return
		}
		if time.Now().After(deadline) {
			w.fatalf("chunk %s: nobody of %v gets the access, it is released; excl=%v, closed=%t", c.id, c.waiters, c.excl, w.closed)
		}
		time.Sleep(20 * time.Microsecond)
	}
}

func (w *accWorld) start(kind string, flags int, c *achunk) {
	o := w.newOp(kind, flags, c)
	w.logf("start %s", o)
	go w.run(o)
	deleting := c.excl != nil && c.excl.kind == "delete"
	prompt := func() {
		if !w.settled(o, patience) {
			w.fatalf("%s doesn't return", o)
		}
	}
	refused := func(kind error) {
		prompt()
		if !isDone(o) {
			w.fatalf("%s has the access, it must be refused", o)
		}
		if o.err == nil || kind != nil && !errors.Is(o.err, kind) {
			w.fatalf("%s must be refused with the error %v, it is %v", o, kind, o.err)
		}
		w.completed(o)
	}
	switch {
	case kind == "delete" && (w.closed || c.opened || c.excl != nil):
		refused(errors.ErrConflict)
	case kind == "open" && c.opened:
		prompt()
		if o.err != nil || !isDone(o) {
			w.fatalf("%s: the chunk is opened already, but the result is %v", o, o.err)
		}
		w.completed(o)
	case w.closed, deleting:
		refused(nil)
	case c.excl != nil:
		o.waiting = true
		c.waiters = append(c.waiters, o)
	default:
		prompt()
		wasLocal, wasRemote := c.local, c.remote
		if isDone(o) {
			// what doesn't need the storage
			var ok, can bool
			switch kind {
			case "open":
				ok, can = true, wasLocal
			case "upload":
				ok, can = false, !wasLocal
			case "download":
				ok, can = true, wasLocal && flags == 0
			case "delete":
				ok, can = flags == 0, flags == 0 || flags == chunkfs.RFRemoteSync && !wasLocal
			}
			if !can || (o.err == nil) != ok {
				w.fatalf("%s: unexpected result %v, local=%t remote=%t", o, o.err, wasLocal, wasRemote)
			}
		}
		w.become(o)
	}
}

// TestAccess: P11, the operations are started and released one by one
func TestAccess(t *testing.T) {
	ev.Check(t, "a deletion was refused, an operation waited for another one and got the access, a waiter was cancelled", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		w := newAccWorld(t, dir, rapid.IntRange(1, 2).Draw(t, "chunks"))
		defer func() {
			for _, o := range w.ops {
				o.cancel()
				select {
				case <-o.release:
				default:
					close(o.release)
				}
			}
			w.ca.Shutdown()
			for _, o := range w.ops {
				select {
				case <-o.done:
				case <-time.After(patience):
				}
			}
			for _, c := range w.chunks {
				for _, o := range c.held {
					c.prov.ReleaseChunk(&o.rc)
				}
				_ = c.prov.Close()
			}
		}()
		defer w.bystanders(nBystanders(t))()
		refused, waited, cancelled := 0, 0, 0
		for i := rapid.IntRange(1, 40).Draw(t, "events"); i > 0; i-- {
			c := w.chunks[rapid.IntRange(0, len(w.chunks)-1).Draw(t, "chunk")]
			e := rapid.SampledFrom([]string{"open", "open", "write", "write", "upload", "upload", "download", "delete", "delete", "delete", "finish", "finish", "finish", "close", "close", "release", "delete empty", "release", "delete empty", "cancel", "cancel", "shutdown"}).Draw(t, "event")
			switch e {
			case "open":
				opening := false
				for _, o := range c.waiters {
					opening = opening || o.kind == "open"
				}
				if opening || c.excl != nil && c.excl.kind == "open" {
					continue // one at a time, they are the same for the accessor
				}
				w.start(e, 0, c)
			case "download":
				fl := rapid.SampledFrom([]int{0, chunkfs.RFRemoteSync}).Draw(t, "flags")
				w.start(e, fl, c)
			case "delete":
				fl := rapid.SampledFrom([]int{0, chunkfs.RFRemoteSync, chunkfs.RFRemoteSync, chunkfs.RFRemoteDelete}).Draw(t, "flags")
				w.start(e, fl, c)
				if errors.Is(w.ops[len(w.ops)-1].err, errors.ErrConflict) {
					refused++
				}
			case "write", "upload":
				w.start(e, 0, c)
			case "finish":
				o := c.excl
				if o == nil {
					continue
				}
				o.fail = o.kind != "write" && rapid.IntRange(0, 3).Draw(t, "fails") == 0
				had := len(c.waiters)
				w.logf("release %s fail=%t", o, o.fail)
				close(o.release)
				select {
				case <-o.done:
				case <-time.After(patience):
					w.fatalf("%s doesn't complete", o)
				}
				// the next one could get the access already
				w.completed(o)
				w.settle(c)
				if had > 0 && !w.closed {
					waited++
				}
			case "close":
				// release the chunk by everybody, and close it
				if len(c.held) == 0 && !c.opened {
					continue
				}
				for _, o := range c.held {
					c.prov.ReleaseChunk(&o.rc)
				}
				c.held = nil
				w.logf("close %s", c.id)
				_ = c.prov.Close()
				c.prov = w.newProvider()
				c.opened = false
			case "release":
				if len(c.held) == 0 {
					continue
				}
				w.logf("release %s", c.held[0])
				c.prov.ReleaseChunk(&c.held[0].rc)
				c.held = c.held[1:]
			case "delete empty":
				// it has records, whether it is used or not
				w.logf("delete %s if it is empty", c.id)
				before := w.exists(c)
				c.prov.DeleteFileIfEmpty(c.id)
				if (c.excl == nil || c.excl.kind != "delete") && before && !w.exists(c) {
					w.fatalf("the chunk %s was not empty, but it is deleted", c.id)
				}
			case "cancel":
				if len(c.waiters) == 0 {
					continue
				}
				o := c.waiters[rapid.IntRange(0, len(c.waiters)-1).Draw(t, "waiter")]
				o.cancelled = true
				w.logf("cancel %s", o)
				o.cancel()
				select {
				case <-o.done:
				case <-time.After(patience):
					w.fatalf("%s is cancelled, but it doesn't return", o)
				}
				if o.err == nil && !o.couldPass() {
					w.fatalf("%s is cancelled at the time of %s, but there is no error", o, c.excl)
				}
				w.completed(o)
				cancelled++
			case "shutdown":
				if rapid.IntRange(0, 5).Draw(t, "really") > 0 || w.closed {
					continue
				}
				w.logf("shutdown")
				w.closed = true
				w.ca.Shutdown()
				for _, c := range w.chunks {
					for _, o := range append([]*aop(nil), c.waiters...) {
						select {
						case <-o.done:
						case <-time.After(patience):
							w.fatalf("%s doesn't return, but everything is shut down", o)
						}
						if o.err == nil && !o.couldPass() {
							w.fatalf("%s: no error after the shutdown at the time of %s", o, c.excl)
						}
						w.completed(o)
					}
				}
			}
			w.check()
		}
		// everything is released: everybody completes
		for _, c := range w.chunks {
			for c.excl != nil {
				o := c.excl
				w.logf("release %s", o)
				close(o.release)
				select {
				case <-o.done:
				case <-time.After(patience):
					w.fatalf("%s doesn't complete", o)
				}
				w.completed(o)
				w.settle(c)
			}
			for _, o := range c.held {
				c.prov.ReleaseChunk(&o.rc)
			}
			c.held = nil
			_ = c.prov.Close()
			c.prov = w.newProvider()
			c.opened = false
		}
		w.check()
		if !w.closed {
			for _, c := range w.chunks {
				w.usable(c)
			}
		}
		ev.Case(t, refused > 0 && waited > 0 && cancelled > 0, "%s", strings.Join(w.trace, "; "))
	})
}

// usable checks that nobody uses the chunk: it can be written, opened (if it is here) and deleted
func (w *accWorld) usable(c *achunk) {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	if err := w.ca.SetWriting(ctx, c.id); err != nil {
		w.fatalf("nobody uses the chunk %s, but it cannot be written: %v", c.id, err)
	}
	w.ca.SetIdle(c.id)
	rc, err := c.prov.GetOpenedChunk(ctx, c.id, false)
	if (err == nil) != (c.local || c.remote) {
		w.fatalf("nobody uses the chunk %s, local=%t, remote=%t, open: %v", c.id, c.local, c.remote, err)
	}
	if err == nil {
		cr, err := rc.Value().OpenChunkReader(false)
		if err != nil || !cr.HasNext() {
			w.fatalf("the chunk %s cannot be read: %v", c.id, err)
		}
		_ = cr.Close()
		c.prov.ReleaseChunk(&rc)
	}
	_ = c.prov.Close()
	if err := w.repl.DeleteChunk(ctx, c.id, 0); err != nil {
		w.fatalf("nobody uses the chunk %s, but it cannot be deleted: %v", c.id, err)
	}
}

type stressOp struct {
	kind  string
	chunk int
	flags int
	pause int // us
	limit int // us, 0 - no limit
}

// TestAccessStress: P11, all the operations go concurrently
func TestAccessStress(t *testing.T) {
	ev.Check(t, "there were deletions and refused deletions, and at least 3 threads", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		w := newAccWorld(t, dir, rapid.IntRange(1, 2).Draw(t, "chunks"))
		defer w.ca.Shutdown()
		defer w.bystanders(nBystanders(t))()
		for _, c := range w.chunks {
			if err := w.repl.UploadChunk(context.Background(), c.id); err != nil {
				w.fatalf("upload failed: %v", err)
			}
			c.remote = true
		}
		var plans [][]stressOp
		for i := rapid.IntRange(2, 6).Draw(t, "threads"); i > 0; i-- {
			var p []stressOp
			for j := rapid.IntRange(1, 12).Draw(t, "n"); j > 0; j-- {
				o := stressOp{kind: rapid.SampledFrom([]string{"open", "open", "write", "upload", "download", "delete", "delete", "close"}).Draw(t, "kind"),
					chunk: rapid.IntRange(0, len(w.chunks)-1).Draw(t, "chunk"), pause: rapid.SampledFrom([]int{0, 0, 1, 30, 200}).Draw(t, "pause"),
					limit: rapid.SampledFrom([]int{0, 0, 0, 1, 50, 300}).Draw(t, "limit")}
				if o.kind == "delete" {
					o.flags = rapid.SampledFrom([]int{0, chunkfs.RFRemoteSync}).Draw(t, "flags")
				}
				p = append(p, o)
			}
			plans = append(plans, p)
		}
		// one shared provider, two chunks do not fit
		prov := chunkfs.NewProvider(w.dir, 1, w.cfg.Chunk())
		prov.CA, prov.Replicator = w.ca, w.repl
		var broken atomic.Value
		var deleted, refused, errs atomic.Int32
		report := func(format string, args ...any) { broken.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
		holds := make([]atomic.Int32, len(w.chunks)) // how many threads have the chunk opened
		regions := make([]atomic.Int32, len(w.chunks))
		w.st.store.onPut = func(key string) error {
			for i, c := range w.chunks {
				if c.id == keyID(key) {
					if n := regions[i].Add(1); n != 1 {
						report("chunk %s: %d exclusive accesses at a time", c.id, n)
					}
					time.Sleep(50 * time.Microsecond)
					regions[i].Add(-1)
				}
			}
			return nil
		}
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func(p []stressOp) {
				defer wg.Done()
				for _, o := range p {
					c := w.chunks[o.chunk]
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					if o.limit > 0 {
						ctx, cancel = context.WithTimeout(ctx, time.Duration(o.limit)*time.Microsecond)
					}
					var err error
					switch o.kind {
					case "open":
						var rc lru.Releasable[*chunkfs.Chunk]
						rc, err = prov.GetOpenedChunk(ctx, c.id, false)
						if err == nil {
							holds[o.chunk].Add(1)
							time.Sleep(time.Duration(o.pause) * time.Microsecond)
							if _, err := os.Stat(c.fn); err != nil {
								report("the chunk %s is opened, but its file is removed: %v", c.id, err)
							}
							cr, err := rc.Value().OpenChunkReader(false)
							if err != nil || !cr.HasNext() {
								report("the opened chunk %s cannot be read: %v", c.id, err)
							} else {
								_ = cr.Close()
							}
							holds[o.chunk].Add(-1)
							prov.ReleaseChunk(&rc)
						}
					case "write":
						if err = w.ca.SetWriting(ctx, c.id); err == nil {
							if n := regions[o.chunk].Add(1); n != 1 {
								report("chunk %s: %d exclusive accesses at a time", c.id, n)
							}
							time.Sleep(time.Duration(o.pause) * time.Microsecond)
							regions[o.chunk].Add(-1)
							w.ca.SetIdle(c.id)
						}
					case "upload":
						err = w.repl.UploadChunk(ctx, c.id)
					case "download":
						err = w.repl.DownloadChunk(ctx, c.id, 0)
					case "delete":
						err = w.repl.DeleteChunk(ctx, c.id, o.flags)
						if err == nil {
							deleted.Add(1)
						} else if errors.Is(err, errors.ErrConflict) {
							refused.Add(1)
						}
					case "close":
						time.Sleep(time.Duration(o.pause) * time.Microsecond)
					}
					cancel()
					if err != nil {
						errs.Add(1)
						if o.limit == 0 && !errors.Is(err, errors.ErrConflict) && !errors.Is(err, errors.ErrNotExist) {
							report("%s of %s: unexpected error %v", o.kind, c.id, err)
						}
					}
				}
			}(p)
		}
		ev.Within(t, patience*2, "the concurrent operations with the chunks", wg.Wait)
		_ = prov.Close()
		if b := broken.Load(); b != nil {
			t.Fatalf("%s; plans: %v", b, plans)
		}
		for _, c := range w.chunks {
			b, err := os.ReadFile(c.fn)
			c.local = err == nil
			if c.local && !bytes.Equal(b, c.content) {
				t.Fatalf("the content of %s is changed, plans: %v", c.id, plans)
			}
			w.usable(c)
		}
		ev.Case(t, deleted.Load() > 0 && refused.Load() > 0 && len(plans) > 2, "%v", plans)
	})
}
