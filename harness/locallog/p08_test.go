package locallog

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"pgregory.net/rapid"
)

type cop struct {
	kind   string // append, asc, pages, desc, count
	log    int
	sizes  []int
	cancel time.Duration // -1: no cancel
	pause  time.Duration
	limit  int64

	start, end int64
	err        error
	added      int
	ids        []string
	recs       []*solaris.Record
	more       bool
	total      uint64
	count      uint64
}

func genOp(t *rapid.T, cfg stack.Cfg, nlogs int, appender bool, cancels bool) *cop {
	o := &cop{log: rapid.IntRange(0, nlogs-1).Draw(t, "log"), cancel: -1}
	if rapid.IntRange(0, 3).Draw(t, "pausing") == 0 {
		o.pause = time.Duration(rapid.IntRange(0, 500).Draw(t, "us")) * time.Microsecond
	}
	if appender {
		o.kind = "append"
		big := rapid.IntRange(0, 3).Draw(t, "big") == 0
		for n := rapid.IntRange(1, 10).Draw(t, "batch"); n > 0; n-- {
			if big {
				o.sizes = append(o.sizes, rapid.IntRange(12, cfg.Capacity()).Draw(t, "size"))
			} else {
				o.sizes = append(o.sizes, rapid.IntRange(12, 300).Draw(t, "size"))
			}
		}
	} else {
		o.kind = rapid.SampledFrom([]string{"asc", "asc", "pages", "desc", "count"}).Draw(t, "kind")
		o.limit = rapid.SampledFrom([]int64{1, 3, 10}).Draw(t, "limit")
	}
	if cancels && rapid.IntRange(0, 3).Draw(t, "cancelling") == 0 {
		o.cancel = time.Duration(rapid.SampledFrom([]int{0, 1, 10, 50, 100, 200, 500, 1000}).Draw(t, "cancelUs")) * time.Microsecond
	}
	return o
}

func cpayload(who, op, i, size int) []byte {
	b := make([]byte, size)
	for k := 12; k < size; k++ {
		b[k] = byte(who*7 + op*13 + i*31 + k)
	}
	binary.BigEndian.PutUint32(b, uint32(who))
	binary.BigEndian.PutUint32(b[4:], uint32(op))
	binary.BigEndian.PutUint32(b[8:], uint32(i))
	return b
}

// TestConcurrent: P08
func TestConcurrent(t *testing.T) { testConcurrent(t, false) }

// TestConcurrentCancel: P08, some of the calls are cancelled
func TestConcurrentCancel(t *testing.T) { testConcurrent(t, true) }

func testConcurrent(t *testing.T, cancels bool) {
	ev.Check(t, "two or more goroutines appended to the same log, overlapping in time, and it was read meanwhile", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		cfg.MaxRecs, cfg.MaxBunch = 100000, 1<<26
		nlogs := rapid.IntRange(1, 4).Draw(t, "logs")
		var plan [][]*cop
		for n := rapid.IntRange(2, 6).Draw(t, "appenders"); n > 0; n-- {
			var ops []*cop
			for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
				ops = append(ops, genOp(t, cfg, nlogs, true, cancels))
			}
			plan = append(plan, ops)
		}
		for n := rapid.IntRange(1, 4).Draw(t, "readers"); n > 0; n-- {
			var ops []*cop
			for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
				ops = append(ops, genOp(t, cfg, nlogs, false, cancels))
			}
			plan = append(plan, ops)
		}
		w := newWorld(t, cfg, nlogs, stack.Opts{})
		defer w.close()

		var clock atomic.Int64
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for who := range plan {
			wg.Add(1)
			go func(who int) {
				defer wg.Done()
				<-begin
				defer func() {
					if r := recover(); r != nil {
						w.panics.Store(fmt.Sprintf("%v\n%s", r, debug.Stack()))
					}
				}()
				for k, o := range plan[who] {
					w.run(&clock, who, k, o)
				}
			}(who)
		}
		close(begin)
		wg.Wait()
		if p := w.panics.Load(); p != nil {
			t.Fatalf("panic: %v", p)
		}
		if rapid.Bool().Draw(t, "reopen") {
			w.reopen()
		}
		w.checkHistory(plan, cancels)
		nt := false
		for li := range w.logs {
			n := 0
			overlap, read := false, false
			for i, a := range plan {
				for _, x := range a {
					if x.log != li {
						continue
					}
					if x.kind != "append" && x.start > 1 {
						read = true
					}
					for j := i + 1; j < len(plan); j++ {
						for _, y := range plan[j] {
							if y.log == li && x.kind == "append" && y.kind == "append" && x.start < y.end && y.start < x.end {
								overlap = true
							}
						}
					}
				}
			}
			if overlap && read {
				n++
			}
			nt = nt || n > 0
		}
		desc := ""
		for who, ops := range plan {
			desc += fmt.Sprintf(" %d:", who)
			for _, o := range ops {
				desc += fmt.Sprintf("%s/%d/%d ", o.kind, o.log, len(o.sizes))
			}
		}
		ev.Case(t, nt, "cfg=%s%s", cfg, desc)
	})
}

func (w *world) run(clock *atomic.Int64, who, k int, o *cop) {
	if o.pause > 0 {
		time.Sleep(o.pause)
	}
	ctx := context.Background()
	if o.cancel >= 0 {
		var cf context.CancelFunc
		if o.cancel == 0 {
			ctx, cf = context.WithCancel(ctx)
			cf()
		} else {
			ctx, cf = context.WithTimeout(ctx, o.cancel)
			defer cf()
		}
	}
	lid := w.logs[o.log].id
	o.start = clock.Add(1)
	switch o.kind {
	case "append":
		req := &solaris.AppendRecordsRequest{LogID: lid, ExpandIDs: true}
		for i, s := range o.sizes {
			req.Records = append(req.Records, &solaris.Record{Payload: cpayload(who, k, i, s)})
		}
		res, err := w.st.Log.AppendRecords(ctx, req)
		o.err = err
		if err == nil {
			o.added = int(res.Added)
			o.ids = res.RecordIDs
		}
	case "asc", "desc":
		o.recs, o.more, o.err = w.st.Log.QueryRecords(ctx, storage.QueryRecordsRequest{LogID: lid, Limit: 100000, Descending: o.kind == "desc"})
	case "pages":
		q := storage.QueryRecordsRequest{LogID: lid, Limit: o.limit}
		for o.more = true; o.more; {
			var recs []*solaris.Record
			recs, o.more, o.err = w.st.Log.QueryRecords(ctx, q)
			if o.err != nil || len(recs) == 0 {
				break
			}
			o.recs = append(o.recs, recs...)
			q.StartID = step(ulid.MustParse(recs[len(recs)-1].ID), false).String()
		}
	case "count":
		o.total, o.count, o.err = w.st.Log.CountRecords(ctx, storage.QueryRecordsRequest{LogID: lid})
	}
	o.end = clock.Add(1)
}

func (w *world) checkHistory(plan [][]*cop, cancels bool) {
	t := w.t
	for li, l := range w.logs {
		final, more, err := w.st.Log.QueryRecords(ev.Ctx(), storage.QueryRecordsRequest{LogID: l.id, Limit: 100000})
		if err != nil || more {
			t.Fatalf("could not read the final content: more=%t, err=%v", more, err)
		}
		pos := map[[2]int]int{} // position of the first record of the batch
		batches := map[[2]int]int{}
		prev := ""
		for i, r := range final {
			if r.ID <= prev {
				t.Fatalf("the IDs do not increase: %s, %s", prev, r.ID)
			}
			prev = r.ID
			if len(r.Payload) < 12 {
				t.Fatalf("unknown record with %d bytes", len(r.Payload))
			}
			who, op, n := int(binary.BigEndian.Uint32(r.Payload)), int(binary.BigEndian.Uint32(r.Payload[4:])), int(binary.BigEndian.Uint32(r.Payload[8:]))
			if who >= len(plan) || op >= len(plan[who]) || plan[who][op].kind != "append" || n >= len(plan[who][op].sizes) || plan[who][op].log != li ||
				!bytes.Equal(r.Payload, cpayload(who, op, n, plan[who][op].sizes[n])) {
				t.Fatalf("unknown or changed record %d/%d/%d, %d bytes, in the log %d", who, op, n, len(r.Payload), li)
			}
			k := [2]int{who, op}
			if n == 0 {
				if _, ok := pos[k]; ok {
					t.Fatalf("the batch %v is stored twice", k)
				}
				pos[k] = i
			}
			if p, ok := pos[k]; !ok || p+n != i {
				t.Fatalf("the record %d of the batch %v is out of the order: the position is %d, the batch is at %d", n, k, i, p)
			}
			o := plan[who][op]
			if n < len(o.ids) && o.ids[n] != r.ID {
				t.Fatalf("the record %d of the batch %v has ID %s, but %s was reported", n, k, r.ID, o.ids[n])
			}
			batches[k]++
		}
		type acked struct {
			o        *cop
			pos, end int
		}
		var acks []acked
		for who, ops := range plan {
			for k, o := range ops {
				if o.log != li {
					continue
				}
				key := [2]int{who, k}
				if o.err != nil && o.cancel < 0 {
					t.Fatalf("%s of %v failed: %v", o.kind, key, o.err)
				}
				if o.kind != "append" {
					continue
				}
				if o.err == nil && o.cancel < 0 && o.added != len(o.sizes) {
					t.Fatalf("append of %v: added %d of %d", key, o.added, len(o.sizes))
				}
				if batches[key] != o.added {
					t.Fatalf("append of %v: %d records are acknowledged (err=%v), but %d are stored", key, o.added, o.err, batches[key])
				}
				if o.added > 0 {
					acks = append(acks, acked{o, pos[key], pos[key] + o.added})
				}
			}
		}
		for _, a := range acks {
			for _, b := range acks {
				if a.o.end < b.o.start && a.pos > b.pos {
					t.Fatalf("the append at %d..%d is stored after the one at %d..%d", a.o.start, a.o.end, b.o.start, b.o.end)
				}
			}
		}
		for _, ops := range plan {
			for _, o := range ops {
				if o.log != li || o.kind == "append" || o.err != nil {
					continue
				}
				seen, started := 0, 0
				for _, a := range acks {
					if a.o.end < o.start {
						seen = max(seen, a.end)
					}
					if a.o.start < o.end {
						started = max(started, a.end)
					}
				}
				if o.kind == "count" {
					if int(o.total) < seen || int(o.total) > started || o.count != o.total {
						t.Fatalf("count: total=%d, count=%d, but %d are acknowledged before the call, and %d by the end", o.total, o.count, seen, started)
					}
					continue
				}
				n := len(o.recs)
				if n < seen || n > started {
					t.Fatalf("%s: %d records are read, but %d are acknowledged before the call, and %d by the end", o.kind, n, seen, started)
				}
				for i, r := range o.recs {
					f := final[i]
					if o.kind == "desc" {
						f = final[n-1-i]
					}
					if r.ID != f.ID || !bytes.Equal(r.Payload, f.Payload) {
						t.Fatalf("%s: the record %d of %d is %s, %d bytes; but %s, %d bytes is in the log at the end", o.kind, i, n, r.ID, len(r.Payload), f.ID, len(f.Payload))
					}
				}
			}
		}
	}
}
