package meta

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var errInjected = fmt.Errorf("injected")

// faulty is a storage where calls fail before or after they are executed
type faulty struct {
	cache.LogsChunksMetaStorage
	mode  string // "", "before", "after", "half" - fails once
	fired bool
	inits []error // results of Init
	shuts int
}

func (f *faulty) Init(ctx context.Context) error {
	err := f.around(func() error { return f.LogsChunksMetaStorage.(interface{ Init(context.Context) error }).Init(ctx) })
	f.inits = append(f.inits, err)
	return err
}

func (f *faulty) Shutdown() {
	f.shuts++
	f.LogsChunksMetaStorage.(interface{ Shutdown() }).Shutdown()
}

func (f *faulty) around(fn func() error) error {
	mode := f.mode
	f.mode = ""
	if mode == "" {
		return fn()
	}
	f.fired = true
	if mode == "before" {
		return errInjected
	}
	if err := fn(); err != nil {
		return err
	}
	return errInjected
}

func (f *faulty) GetLogByID(ctx context.Context, id string) (l *solaris.Log, err error) {
	err = f.around(func() error { l, err = f.LogsChunksMetaStorage.GetLogByID(ctx, id); return err })
	return
}

func (f *faulty) UpdateLog(ctx context.Context, log *solaris.Log) (l *solaris.Log, err error) {
	err = f.around(func() error { l, err = f.LogsChunksMetaStorage.UpdateLog(ctx, log); return err })
	return
}

func (f *faulty) CreateLog(ctx context.Context, log *solaris.Log) (l *solaris.Log, err error) {
	err = f.around(func() error { l, err = f.LogsChunksMetaStorage.CreateLog(ctx, log); return err })
	return
}

func (f *faulty) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (r *solaris.QueryLogsResult, err error) {
	err = f.around(func() error { r, err = f.LogsChunksMetaStorage.QueryLogs(ctx, qr); return err })
	return
}

func (f *faulty) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest) (r *solaris.DeleteLogsResult, err error) {
	if f.mode == "half" && len(req.IDs) > 1 {
		// only a part is deleted
		req.IDs = req.IDs[:len(req.IDs)/2]
	}
	err = f.around(func() error { r, err = f.LogsChunksMetaStorage.DeleteLogs(ctx, req); return err })
	if err != nil {
		r = nil
	}
	return
}

func (f *faulty) GetLastChunk(ctx context.Context, id string) (ci logfs.ChunkInfo, err error) {
	err = f.around(func() error { ci, err = f.LogsChunksMetaStorage.GetLastChunk(ctx, id); return err })
	return
}

func (f *faulty) GetChunks(ctx context.Context, id string) (cis []logfs.ChunkInfo, err error) {
	err = f.around(func() error { cis, err = f.LogsChunksMetaStorage.GetChunks(ctx, id); return err })
	return
}

func (f *faulty) UpsertChunkInfos(ctx context.Context, id string, cis []logfs.ChunkInfo) error {
	return f.around(func() error {
		if f.fired && len(cis) > 1 {
			cis = cis[:len(cis)/2]
		}
		return f.LogsChunksMetaStorage.UpsertChunkInfos(ctx, id, cis)
	})
}

// TestCacheTransparent: P15, one client - whatever is done through the cache, a read through the cache is the same as the read of
// the storage
func TestCacheTransparent(t *testing.T) {
	ev.Check(t, "an already cached log was modified and read again, some calls of the storage failed", func(t *rapid.T) {
		ctx := ev.Ctx()
		db := buntdb.NewStorage(buntdb.Config{})
		f := &faulty{LogsChunksMetaStorage: db}
		cs := cache.NewCachedStorage(f)
		if rapid.IntRange(0, 9).Draw(t, "initFails") == 0 {
			f.mode = "before"
			if err := cs.Init(ctx); !errors.Is(err, errInjected) {
				t.Fatalf("the storage is not initialized (%v), but the result is %v", f.inits, err)
			}
			f.fired = false
		}
		before := len(f.inits)
		if err := cs.Init(ctx); err != nil || len(f.inits) != before+1 {
			t.Fatalf("could not initialize, the storage is initialized %d times: %v", len(f.inits)-before, err)
		}
		defer func() {
			cs.Shutdown()
			if f.shuts != 1 {
				t.Errorf("the storage is shut down %d times", f.shuts)
			}
		}()
		var ids, trace []string
		fatalf := func(format string, args ...any) {
			t.Helper()
			t.Fatalf("%s\n\t%s", fmt.Sprintf(format, args...), strings.Join(trace, "\n\t"))
		}
		anyID := func() string {
			if len(ids) == 0 || rapid.IntRange(0, 8).Draw(t, "unknown") == 0 {
				return rapid.SampledFrom([]string{"unknown", "0", ""}).Draw(t, "unknownID")
			}
			return ids[rapid.IntRange(0, len(ids)-1).Draw(t, "id")]
		}
		sameErr := func(a, b error) bool {
			if (a == nil) != (b == nil) {
				return false
			}
			for _, k := range []error{errors.ErrNotExist, errors.ErrInvalid} {
				if errors.Is(a, k) != errors.Is(b, k) {
					return false
				}
			}
			return true
		}
		cached, modified := map[string]bool{}, map[string]bool{}
		rereads, faults := 0, 0
		read := func(what, id string) {
			var got, want any
			var gerr, werr error
			armed := f.mode != ""
			f.fired = false
			var spoil func()
			switch what {
			case "log":
				l, err := cs.GetLogByID(ctx, id)
				wl, err1 := db.GetLogByID(ctx, id)
				got, gerr, want, werr = proto.Clone(l), err, wl, err1
				spoil = func() {
					if l != nil {
						l.ID, l.Tags = "spoiled", map[string]string{"spoiled": "1"}
					}
				}
				if l != nil && rapid.Bool().Draw(t, "spoilTags") && l.Tags != nil {
					spoil = func() { l.Tags["spoiled"] = "1"; l.CreatedAt.Seconds = 1 }
				}
				if err == nil && err1 == nil && proto.Equal(l, wl) {
					got = want
				}
			case "chunks":
				cis, err := cs.GetChunks(ctx, id)
				wcis, err1 := db.GetChunks(ctx, id)
				got, gerr, want, werr = append([]logfs.ChunkInfo{}, cis...), err, append([]logfs.ChunkInfo{}, wcis...), err1
				spoil = func() {
					for i := range cis {
						cis[i] = logfs.ChunkInfo{ID: "spoiled"}
					}
					_ = append(cis, logfs.ChunkInfo{ID: "spoiled"})
				}
			case "last":
				ci, err := cs.GetLastChunk(ctx, id)
				wci, err1 := db.GetLastChunk(ctx, id)
				got, gerr, want, werr = ci, err, wci, err1
				spoil = func() {}
			}
			f.mode = ""
			if armed && f.fired && gerr != nil && errors.Is(gerr, errInjected) {
				return
			}
			if !sameErr(gerr, werr) || gerr == nil && !reflect.DeepEqual(got, want) {
				fatalf("%s %q: got %v %v, the storage has %v %v", what, id, got, gerr, want, werr)
			}
			spoil()
			if gerr == nil {
				k := what
				if what == "last" {
					k = "chunks"
				}
				if modified[k+id] {
					rereads++
				}
				cached[k+id] = true
				delete(modified, k+id)
			}
		}
		dirty := func(kinds []string, ids ...string) {
			for _, k := range kinds {
				for _, id := range ids {
					if cached[k+id] {
						modified[k+id] = true
					}
				}
			}
		}
		logMode := false // only the things of one kind are changed: a modification of other kinds may hide a defect
		kinds := []string{"create", "log", "log", "chunks", "last", "update", "upsert", "delete", "query", "all"}
		if rapid.IntRange(0, 2).Draw(t, "few") == 0 {
			logMode = true
			kinds = []string{"log", "chunks", "last", rapid.SampledFrom([]string{"update", "upsert", "delete"}).Draw(t, "only")}
		}
		for i := 0; i < 3; i++ {
			l, err := cs.CreateLog(ctx, &solaris.Log{Tags: genTags(t)})
			if err != nil {
				t.Fatal(err)
			}
			ids = append(ids, l.ID)
			if rapid.Bool().Draw(t, "initial chunks") {
				if err := cs.UpsertChunkInfos(ctx, l.ID, []logfs.ChunkInfo{{ID: "5", RecordsCount: 1}}); err != nil {
					t.Fatal(err)
				}
			}
		}
		n := 10
		for i := rapid.IntRange(1, 40).Draw(t, "nops"); i > 0; i-- {
			f.fired, f.mode = false, ""
			if rapid.IntRange(0, 4).Draw(t, "fault") == 0 {
				f.mode = rapid.SampledFrom([]string{"before", "after", "half"}).Draw(t, "faultMode")
			}
			op, id, mode := rapid.SampledFrom(kinds).Draw(t, "op"), anyID(), f.mode
			var err error
			txt := id
			switch op {
			case "create":
				var l *solaris.Log
				l, err = cs.CreateLog(ctx, &solaris.Log{Tags: genTags(t)})
				if err == nil {
					ids = append(ids, l.ID)
					txt = l.ID
					l.ID = "spoiled"
				}
			case "log", "chunks", "last":
				read(op, id)
			case "update":
				in := &solaris.Log{ID: id, Tags: genTags(t)}
				var l *solaris.Log
				if l, err = cs.UpdateLog(ctx, in); err == nil {
					l.Tags = map[string]string{"spoiled": "1"}
				}
				in.Tags, in.ID = map[string]string{"spoiled": "2"}, "spoiled"
				dirty([]string{"log"}, id)
			case "upsert":
				var cis []logfs.ChunkInfo
				for j := rapid.IntRange(1, 3).Draw(t, "nChunks"); j > 0; j-- {
					n++
					cis = append(cis, logfs.ChunkInfo{ID: fmt.Sprint(rapid.IntRange(0, 9).Draw(t, "chunk")), RecordsCount: n})
				}
				err = cs.UpsertChunkInfos(ctx, id, cis)
				for j := range cis {
					cis[j] = logfs.ChunkInfo{ID: "spoiled"}
				}
				dirty([]string{"chunks"}, id)
			case "delete":
				req := storage.DeleteLogsRequest{MarkOnly: rapid.Bool().Draw(t, "mark")}
				if rapid.Bool().Draw(t, "byIDs") {
					for j := rapid.IntRange(1, 3).Draw(t, "nDel"); j > 0; j-- {
						req.IDs = append(req.IDs, anyID())
					}
				} else {
					req.Condition = fmt.Sprintf("tag('a') = '%s'", rapid.SampledFrom(tagVals[:4]).Draw(t, "val"))
				}
				txt = fmt.Sprintf("%+v", req)
				_, err = cs.DeleteLogs(ctx, req)
				dirty([]string{"log", "chunks"}, ids...)
			case "query":
				got, gerr := cs.QueryLogs(ctx, storage.QueryLogsRequest{Limit: 2})
				if !f.fired {
					want, werr := db.QueryLogs(ctx, storage.QueryLogsRequest{Limit: 2})
					if !sameErr(gerr, werr) || !proto.Equal(got, want) {
						fatalf("query: %v %v, expected %v %v", got, gerr, want, werr)
					}
				}
				if got != nil {
					for _, l := range got.Logs {
						l.Tags = nil
						l.ID = "spoiled"
					}
				}
			case "all":
				f.mode = ""
				for _, id := range ids {
					read("log", id)
					read("last", id)
					read("chunks", id)
				}
			}
			if f.fired {
				faults++
			}
			trace = append(trace, fmt.Sprintf("%s %s %s -> %v", op, txt, mode, err))
		}
		f.mode = ""
		for _, id := range append([]string{"unknown"}, ids...) {
			read("last", id)
			read("log", id)
			read("chunks", id)
		}
		if logMode {
			ev.Label(t, "modifications of one kind")
		}
		ev.Case(t, rereads > 0 && faults > 0, "%s", strings.Join(trace, "; "))
	})
}

// slow is a storage with delays before and after a call is executed. Every modification of a log sets a new version
type slow struct {
	storage.Logs
	lock sync.Mutex
	ver  int
	tag  map[string]int // the version of the tags, the log does not exist if it is not here
	chk  map[string]int // the version of the last chunk
	dead map[string]int
	// applied are the versions set by the modifications by their numbers
	applied map[int]int
	calls   int
	delay   []int
	fail    []int
	pause   func(int)
}

func (s *slow) around(failing bool, fn func() error) error {
	s.lock.Lock()
	n := s.calls
	s.calls++
	d1, d2, f := s.delay[n%len(s.delay)], s.delay[(n*7+3)%len(s.delay)], s.fail[n%len(s.fail)]
	s.lock.Unlock()
	s.pause(d1)
	if failing && f == 1 {
		return errInjected
	}
	s.lock.Lock()
	err := fn()
	s.lock.Unlock()
	s.pause(d2)
	if failing && err == nil && f == 2 {
		return errInjected
	}
	return err
}

func (s *slow) GetLogByID(ctx context.Context, id string) (l *solaris.Log, err error) {
	err = s.around(true, func() error {
		if s.dead[id] > 0 {
			return errors.ErrNotExist
		}
		l = &solaris.Log{ID: id, Tags: map[string]string{"v": fmt.Sprint(s.tag[id])}}
		return nil
	})
	if err != nil {
		l = nil
	}
	return
}

func (s *slow) UpdateLog(ctx context.Context, log *solaris.Log) (l *solaris.Log, err error) {
	err = s.around(true, func() error {
		if s.dead[log.ID] > 0 {
			return errors.ErrNotExist
		}
		s.ver++
		s.tag[log.ID] = s.ver
		var op int
		_, _ = fmt.Sscan(log.Tags["op"], &op)
		s.applied[op] = s.ver
		l = &solaris.Log{ID: log.ID, Tags: map[string]string{"v": fmt.Sprint(s.ver)}}
		return nil
	})
	return
}

func (s *slow) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest) (r *solaris.DeleteLogsResult, err error) {
	err = s.around(true, func() error {
		r = &solaris.DeleteLogsResult{}
		for _, id := range req.IDs {
			if s.dead[id] == 0 {
				s.ver++
				s.dead[id] = s.ver
				r.DeletedIDs = append(r.DeletedIDs, id)
			}
		}
		return nil
	})
	return
}

func (s *slow) GetLastChunk(ctx context.Context, id string) (ci logfs.ChunkInfo, err error) {
	cis, err := s.GetChunks(ctx, id)
	if err == nil {
		ci = cis[len(cis)-1]
	}
	return
}

func (s *slow) GetChunks(ctx context.Context, id string) (cis []logfs.ChunkInfo, err error) {
	err = s.around(true, func() error {
		if s.dead[id] > 0 {
			return errors.ErrNotExist
		}
		cis = []logfs.ChunkInfo{{ID: "1"}, {ID: "2", RecordsCount: s.chk[id]}}
		return nil
	})
	return
}

func (s *slow) UpsertChunkInfos(ctx context.Context, id string, cis []logfs.ChunkInfo) error {
	return s.around(true, func() error {
		if s.dead[id] > 0 {
			return errors.ErrNotExist
		}
		s.ver++
		s.chk[id] = s.ver
		s.applied[cis[0].RecordsCount] = s.ver
		return nil
	})
}

// TestCacheConcurrent: P15, several clients
func TestCacheConcurrent(t *testing.T) {
	type event struct {
		kind       string // the kind of the read, or what is changed
		id         string
		start, end int64
		ver        int // what was read
		deleted    bool
		err        error
	}
	ev.Check(t, "a read overlaps a modification of the same log and another one starts after the modification", func(t *rapid.T) {
		nlogs := rapid.IntRange(1, 3).Draw(t, "logs")
		workers := rapid.IntRange(2, 6).Draw(t, "workers")
		type cmd struct {
			op, id string
			pause  int
		}
		ops := []string{"log", "log", "chunks", "last", "update", "upsert"}
		if rapid.Bool().Draw(t, "withDelete") {
			ops = append(ops, "delete")
		}
		switch rapid.IntRange(0, 3).Draw(t, "focus") {
		case 0:
			ops = []string{"log", "log", "update"}
		case 1:
			ops = []string{"last", "chunks", "upsert"}
		}
		cmds := make([][]cmd, workers)
		for w := range cmds {
			for i := rapid.IntRange(2, 12).Draw(t, "perWorker"); i > 0; i-- {
				cmds[w] = append(cmds[w], cmd{rapid.SampledFrom(ops).Draw(t, "op"), fmt.Sprintf("log%d", rapid.IntRange(0, nlogs-1).Draw(t, "log")),
					rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "pause")})
			}
		}
		pause := func(n int) {
			switch {
			case n == 0:
			case n < 3:
				for i := 0; i < n*20; i++ {
					runtime.Gosched()
				}
			default:
				time.Sleep(time.Duration(n*20) * time.Microsecond)
			}
		}
		s := &slow{tag: map[string]int{}, chk: map[string]int{}, dead: map[string]int{}, applied: map[int]int{}, pause: pause,
			delay: rapid.SliceOfN(rapid.IntRange(0, 6), 8, 8).Draw(t, "delays"), fail: []int{0}}
		if rapid.IntRange(0, 2).Draw(t, "faults") == 0 {
			s.fail = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2}), 8, 8).Draw(t, "fails")
		}
		c := cache.NewCachedStorage(s)
		var seq atomic.Int64
		var mu sync.Mutex
		var events []event
		ctx := ev.Ctx()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range cmds {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, cm := range cmds[w] {
					pause(cm.pause)
					e := event{kind: cm.op, id: cm.id, start: seq.Add(1)}
					switch cm.op {
					case "log":
						var l *solaris.Log
						if l, e.err = c.GetLogByID(ctx, cm.id); e.err == nil {
							_, _ = fmt.Sscan(l.Tags["v"], &e.ver)
							l.Tags["v"] = "1000000"
						}
					case "chunks":
						var cis []logfs.ChunkInfo
						if cis, e.err = c.GetChunks(ctx, cm.id); e.err == nil {
							e.ver = cis[1].RecordsCount
							cis[1].RecordsCount = 1000000
						}
					case "last":
						var ci logfs.ChunkInfo
						ci, e.err = c.GetLastChunk(ctx, cm.id)
						e.ver = ci.RecordsCount
					case "update":
						_, e.err = c.UpdateLog(ctx, &solaris.Log{ID: cm.id, Tags: map[string]string{"op": fmt.Sprint(e.start)}})
					case "upsert":
						e.err = c.UpsertChunkInfos(ctx, cm.id, []logfs.ChunkInfo{{ID: "2", RecordsCount: int(e.start)}})
					case "delete":
						var res *solaris.DeleteLogsResult
						res, e.err = c.DeleteLogs(ctx, storage.DeleteLogsRequest{IDs: []string{cm.id}})
						e.deleted = e.err == nil && len(res.DeletedIDs) > 0
					}
					e.end = seq.Add(1)
					mu.Lock()
					events = append(events, e)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		c.Shutdown()
		nontrivial := false
		for i, r := range events {
			if !slices.Contains([]string{"log", "chunks", "last"}, r.kind) {
				continue
			}
			if errors.Is(r.err, errInjected) {
				continue
			}
			dead, overlap, after := false, false, false
			minVer := 0
			for j, m := range events {
				if i == j || m.id != r.id {
					continue
				}
				if m.end < r.start {
					switch {
					case m.deleted:
						dead = true
					case m.kind == "update" && r.kind == "log", m.kind == "upsert" && r.kind != "log":
						minVer = max(minVer, s.applied[int(m.start)]) // also when it has failed after it was executed
						after = after || minVer > 0
					}
				}
				overlap = overlap || m.start < r.end && r.start < m.end && (m.kind == "update" || m.kind == "upsert" || m.kind == "delete")
			}
			nontrivial = nontrivial || overlap && after
			if r.err != nil {
				if !errors.Is(r.err, errors.ErrNotExist) || s.dead[r.id] == 0 {
					t.Fatalf("unexpected error: %+v", r)
				}
				continue
			}
			if dead {
				t.Fatalf("the log was deleted before the call, but it is found: %+v\n%+v", r, events)
			}
			if r.ver < minVer {
				t.Fatalf("stale: %+v, but the version %d was set before\n%+v", r, minVer, events)
			}
			if r.ver > s.ver {
				t.Fatalf("a value spoiled by another caller: %+v", r)
			}
		}
		ev.Case(t, nontrivial, "%d logs, workers %v, delays %v, fails %v", nlogs, cmds, s.delay, s.fail)
	})
}
