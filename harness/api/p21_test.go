package api

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// expected returns the records of the logs starting from start, which satisfy f, in the order of the direction
func (w *world) expected(logs map[*mlog]bool, start string, desc bool, f func(time.Time) bool) []*mrec {
	var sid ulid.ULID
	if start != "" {
		sid = ulid.MustParse(start)
	}
	var res []*mrec
	for i := range w.recs {
		r := w.recs[i]
		if desc {
			r = w.recs[len(w.recs)-1-i]
		}
		if !logs[r.log] || start != "" && (!desc && r.id.Compare(sid) < 0 || desc && r.id.Compare(sid) > 0) || f != nil && !f(inTime(r.id)) {
			continue
		}
		res = append(res, r)
	}
	return res
}

func (w *world) checkRec(r *solaris.Record, m *mrec) {
	if r.ID != m.id.String() || r.LogID != m.log.id || !bytes.Equal(r.Payload, m.payload) || !r.CreatedAt.AsTime().Equal(inTime(m.id)) {
		w.t.Fatalf("the record {%s log=%s at %v, %d bytes} is got, but {%s log=%s, %d bytes} is expected", r.ID, r.LogID, r.CreatedAt.AsTime(), len(r.Payload), m.id, m.log.id, len(m.payload))
	}
}

// genTimeCond generates a condition over the creation time of the records
func (w *world) genTimeCond() (string, func(time.Time) bool) {
	t := w.t
	if len(w.recs) == 0 || rapid.IntRange(0, 2).Draw(t, "cond") > 0 {
		return "", nil
	}
	leaf := func() (string, func(time.Time) bool) {
		tm := inTime(rapid.SampledFrom(w.recs).Draw(t, "rec").id).Add(time.Duration(rapid.IntRange(-1, 1).Draw(t, "ms")) * time.Millisecond)
		op := rapid.SampledFrom([]string{"<", ">", "<=", ">=", "=", "!="}).Draw(t, "op")
		return fmt.Sprintf("ctime %s '%s'", op, strconv.FormatInt(tm.UnixNano(), 10)), func(x time.Time) bool {
			c := x.Compare(tm)
			switch op {
			case "<":
				return c < 0
			case ">":
				return c > 0
			case "<=":
				return c <= 0
			case ">=":
				return c >= 0
			case "=":
				return c == 0
			}
			return c != 0
		}
	}
	s1, f1 := leaf()
	switch rapid.IntRange(0, 3).Draw(t, "join") {
	case 0:
		s2, f2 := leaf()
		return s1 + " OR " + s2, func(x time.Time) bool { return f1(x) || f2(x) }
	case 1:
		s2, f2 := leaf()
		return s1 + " AND NOT " + s2, func(x time.Time) bool { return f1(x) && !f2(x) }
	}
	return s1, f1
}

// genStart generates a start ID: it may be a record, between them, or anything else
func (w *world) genStart() string {
	t := w.t
	if len(w.recs) == 0 || rapid.IntRange(0, 2).Draw(t, "withStart") > 0 {
		return ""
	}
	id := rapid.SampledFrom(w.recs).Draw(t, "startRec").id
	switch rapid.IntRange(0, 6).Draw(t, "startKind") {
	case 0:
		id = step(id, false)
	case 1:
		id = step(id, true)
	case 2:
		id = ulid.ULID{}
	case 3:
		for i := range id {
			id[i] = 0xff
		}
	case 4:
		_ = id.SetTime(id.Time() + uint64(rapid.IntRange(-2, 2).Draw(t, "startMs")))
	}
	return id.String()
}

func minID(desc bool, a, b ulid.ULID) bool { // a goes not later than b
	if desc {
		return a.Compare(b) >= 0
	}
	return a.Compare(b) <= 0
}

// TestMerged: P21
func TestMerged(t *testing.T) {
	ev.Check(t, "two or more logs with records are selected, their records alternate, and there are several pages", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		if rapid.Bool().Draw(t, "bigPages") {
			cfg.MaxRecs, cfg.MaxBunch = 10000, 1<<20
		}
		w := newWorld(t, cfg)
		defer w.close()
		n := rapid.SampledFrom([]int{3, 2, 1, 4, 5, 7, 9, 12}).Draw(t, "logs")
		for i := 0; i < n; i++ {
			w.createLog(map[string]string{"g": fmt.Sprint(rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "group")), "n": fmt.Sprint(i)})
		}
		big := rapid.IntRange(0, 7).Draw(t, "many") == 0
		for k := rapid.SampledFrom([]int{12, 8, 20, 30, 3, 0}).Draw(t, "batches"); k > 0; k-- {
			l := w.logs[rapid.IntRange(0, n-1).Draw(t, "log")]
			m := rapid.SampledFrom([]int{1, 1, 2, 3, 6}).Draw(t, "batch")
			if big {
				m = rapid.SampledFrom([]int{20, 50, 99, 100, 101, 130}).Draw(t, "bigBatch")
			}
			var sizes []int
			for ; m > 0; m-- {
				if !big && rapid.IntRange(0, 9).Draw(t, "large") == 0 {
					sizes = append(sizes, rapid.IntRange(0, cfg.Capacity()).Draw(t, "size"))
				} else {
					sizes = append(sizes, rapid.IntRange(0, 40).Draw(t, "size"))
				}
			}
			w.append(l, sizes...)
			if rapid.IntRange(0, 5).Draw(t, "sleep") == 5 {
				time.Sleep(time.Duration(rapid.IntRange(500, 1500).Draw(t, "us")) * time.Microsecond)
			}
		}
		for k := rapid.IntRange(1, 6).Draw(t, "queries"); k > 0; k-- {
			w.query()
		}
	})
}

func (w *world) query() {
	t := w.t
	sel := map[*mlog]bool{}
	req := &solaris.QueryRecordsRequest{Descending: rapid.Bool().Draw(t, "desc")}
	switch rapid.IntRange(0, 4).Draw(t, "select") {
	case 0: // all of them
		req.LogsCondition = rapid.SampledFrom([]string{"", " ", "tag('g') != 'zz'"}).Draw(t, "all")
		for _, l := range w.logs {
			sel[l] = true
		}
	case 1:
		g := rapid.SampledFrom([]string{"0", "1", "2", "9"}).Draw(t, "g")
		req.LogsCondition = fmt.Sprintf("tag('g') = '%s'", g)
		for _, l := range w.logs {
			sel[l] = l.tags["g"] == g
		}
	default:
		perm := rapid.Permutation(w.logs).Draw(t, "order")
		for _, l := range perm[:rapid.IntRange(1, len(perm)).Draw(t, "listed")] {
			sel[l] = true
			req.LogIDs = append(req.LogIDs, l.id)
		}
		if rapid.Bool().Draw(t, "alsoCond") {
			req.LogsCondition = "tag('g') = '1'" // it must be ignored
		}
	}
	nsel, withRecs := 0, 0
	for l, ok := range sel {
		if ok {
			nsel++
			if len(l.recs) > 0 {
				withRecs++
			}
		}
	}
	var f func(time.Time) bool
	req.Condition, f = w.genTimeCond()
	req.StartRecordID = w.genStart()
	exp := w.expected(sel, req.StartRecordID, req.Descending, f)
	all := exp
	req.Limit = rapid.SampledFrom([]int64{1, 2, 3, 4, 5, 7, 10, 50, 99, 100, 101, math.MaxInt64}).Draw(t, "limit")
	if len(exp) > 60 && req.Limit < 20 {
		req.Limit = 37
	}
	// all the counts
	cr, err := w.s.cl.CountRecords(ev.Ctx(), req)
	w.noPanics()
	if err != nil {
		t.Fatalf("count of %v failed: %v", req, err)
	}
	if tot := len(w.expected(sel, "", req.Descending, nil)); int(cr.Total) != tot || int(cr.Count) != len(exp) {
		t.Fatalf("the count for %v is %v, but it must be total=%d count=%d", req, cr, tot, len(exp))
	}
	alt := false
	for i := 2; i < len(exp); i++ {
		alt = alt || exp[i].log == exp[i-2].log && exp[i].log != exp[i-1].log
	}
	pages := 0
	first := fmt.Sprint(req)
	for {
		res, err := w.s.cl.QueryRecords(ev.Ctx(), req)
		w.noPanics()
		if err != nil {
			t.Fatalf("query %v failed: %v", req, err)
		}
		if int64(len(res.Records)) > req.Limit {
			t.Fatalf("%d records are returned for %v", len(res.Records), req)
		}
		if len(res.Records) > len(exp) {
			t.Fatalf("query %v: %d records are returned, only %d must be left, the excessive one is %v", req, len(res.Records), len(exp), res.Records[len(exp)])
		}
		for i, r := range res.Records {
			w.checkRec(r, exp[i])
		}
		got := len(res.Records)
		exp = exp[got:]
		pages++
		if nsel > 1 && got < int(min(req.Limit, int64(got+len(exp)))) {
			t.Fatalf("query %v: %d records in the page, but %d more are there", req, got, len(exp))
		}
		if res.NextPageID == "" {
			if len(exp) > 0 {
				t.Fatalf("query %v (initially %s): no next page, but %d records are left, the next one is %s", req, first, len(exp), exp[0].id)
			}
			break
		}
		if nsel > 1 && len(exp) == 0 {
			t.Fatalf("query %v: there is the next page %s after the last record", req, res.NextPageID)
		}
		if got == 0 {
			t.Fatalf("query %v: an empty page has the next one %s", req, res.NextPageID)
		}
		nid, err := ulid.ParseStrict(res.NextPageID)
		if err != nil {
			t.Fatalf("query %v: the page token %q is not an ID", req, res.NextPageID)
		}
		if len(exp) > 0 && !minID(req.Descending, nid, exp[0].id) {
			t.Fatalf("query %v: the page token %s skips the record %s", req, nid, exp[0].id)
		}
		if nsel > 1 && nid != exp[0].id {
			t.Fatalf("query %v: the page token %s is not the next record %s", req, nid, exp[0].id)
		}
		req.StartRecordID = res.NextPageID
		if pages > 2*len(all)+5 {
			t.Fatalf("query %s: too many pages", first)
		}
	}
	ev.Label(t, fmt.Sprintf("logs:%d", min(nsel, 3)))
	ev.Case(t, withRecs > 1 && alt && pages > 1, "%d logs (%d with records), %d records, %d pages: %s", nsel, withRecs, len(all), pages, first)
}

// fakeLog implements storage.Log by its contract: the pages may be shorter than requested
type fakeLog struct {
	logs  map[string][]*solaris.Record
	short func() int
	calls int
	// failAt is the number of the call, which fails with err
	failAt int
	err    error
	onFail func()
}

func (f *fakeLog) AppendRecords(context.Context, *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	return nil, errors.ErrUnimplemented
}

func (f *fakeLog) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	f.calls++
	if f.calls == f.failAt {
		if f.onFail != nil {
			f.onFail()
		}
		if f.err != nil {
			return nil, false, f.err
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, false, err
	}
	recs, ok := f.logs[q.LogID]
	if !ok {
		return nil, false, errors.ErrNotExist
	}
	var res []*solaris.Record
	lim := int(min(q.Limit, 10000))
	if s := f.short(); s > 0 {
		lim = min(lim, s)
	}
	for i := range recs {
		r := recs[i]
		if q.Descending {
			r = recs[len(recs)-1-i]
		}
		if q.StartID != "" && (!q.Descending && r.ID < q.StartID || q.Descending && r.ID > q.StartID) {
			continue
		}
		if len(res) >= lim {
			break
		}
		res = append(res, r)
	}
	return res, len(res) >= lim, nil
}

func (f *fakeLog) CountRecords(ctx context.Context, q storage.QueryRecordsRequest) (uint64, uint64, error) {
	f.calls++
	if f.calls == f.failAt && f.err != nil {
		return 0, 0, f.err
	}
	return uint64(len(f.logs[q.LogID])), 0, nil
}

var kinds = []struct {
	err  error
	code codes.Code
}{
	{errors.ErrExist, codes.AlreadyExists}, {errors.ErrNotExist, codes.NotFound}, {errors.ErrInvalid, codes.InvalidArgument},
	{errors.ErrNotAuthorized, codes.PermissionDenied}, {errors.ErrInternal, codes.Internal}, {errors.ErrDataLoss, codes.DataLoss},
	{errors.ErrExhausted, codes.ResourceExhausted}, {errors.ErrUnimplemented, codes.Unimplemented}, {errors.ErrConflict, codes.FailedPrecondition},
	{fmt.Errorf("any other one"), codes.Internal},
}

// TestMergedPages: P21, any number of logs over a storage, which pages may be short, and which may fail
func TestMergedPages(t *testing.T) {
	ev.Check(t, "more than one log, several pages of the storage are read for one of the query", func(t *rapid.T) {
		s := theServer()
		n := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 8, 16, 17, 40, 999, 1000, 1001, 1500}).Draw(t, "logs")
		f := &fakeLog{logs: map[string][]*solaris.Record{}}
		seed := uint32(rapid.Uint32().Draw(t, "seed"))
		rnd := func(m int) int {
			seed = seed*1664525 + 1013904223
			return int(seed>>8) % m
		}
		var ids []string
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("L%05d", i)
			ids = append(ids, id)
			f.logs[id] = nil
		}
		total := rapid.SampledFrom([]int{0, 1, 5, 20, 60, 60, 250}).Draw(t, "records")
		skew := rapid.SampledFrom([]int{1, 3, n}).Draw(t, "active")
		base := ulid.MustParse("01ARZ3NDEKTSV4RRFFQ69G5FAV")
		runs := rapid.SampledFrom([]int{1, 1, 3, 40}).Draw(t, "runs") // the records go by runs to one log
		cur := ids[0]
		var all []*solaris.Record
		for i := 0; i < total; i++ {
			if i%runs == 0 {
				cur = ids[rnd(min(skew, n))]
				if rnd(5) == 0 {
					cur = ids[n-1]
				}
			}
			gap := 1 + rnd(2)*rnd(1000)
			for ; gap > 0; gap-- {
				base = step(base, false)
			}
			r := &solaris.Record{ID: base.String(), LogID: cur, Payload: []byte{byte(i)}, CreatedAt: timestamppb.New(inTime(base))}
			f.logs[cur] = append(f.logs[cur], r)
			all = append(all, r)
		}
		maxShort := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(t, "short")
		f.short = func() int {
			if maxShort == 0 {
				return 0
			}
			return rnd(maxShort) + 1
		}
		s.use(nil, f)
		ctx, cancel := context.WithCancel(ev.Ctx())
		defer cancel()
		req := &solaris.QueryRecordsRequest{LogIDs: rapid.Permutation(ids[:min(n, 20)]).Draw(t, "order"), Descending: rapid.Bool().Draw(t, "desc"),
			Limit: rapid.SampledFrom([]int64{0, 1, 2, 7, 30, 100, 101, 120, 5000, -1}).Draw(t, "limit")}
		req.LogIDs = append(req.LogIDs, ids[min(n, 20):]...)
		if rapid.IntRange(0, 3).Draw(t, "failing") == 0 {
			f.failAt = rapid.IntRange(1, max(1, min(3*n, n+total))).Draw(t, "failAt")
			k := rapid.SampledFrom(kinds).Draw(t, "kind")
			f.err = fmt.Errorf("the storage failed: %w", k.err)
			if rapid.IntRange(0, 4).Draw(t, "cancelIt") == 0 {
				f.err = nil
				f.onFail = cancel
			}
		}
		exp := all
		if req.Descending {
			exp = make([]*solaris.Record, 0, len(all))
			for i := range all {
				exp = append(exp, all[len(all)-1-i])
			}
		}
		what := fmt.Sprintf("%d logs (%d active), %d records in runs of %d, limit=%d desc=%t short=%d failAt=%d err=%v", n, min(skew, n), total, runs, req.Limit, req.Descending, maxShort, f.failAt, f.err)
		pages, maxCalls := 0, 0
		for {
			before := f.calls
			res, err := s.svc.QueryRecords(ctx, req)
			maxCalls = max(maxCalls, f.calls-before)
			if n > 1000 {
				if status.Code(err) != codes.ResourceExhausted {
					t.Fatalf("%s: too many logs, but err=%v", what, err)
				}
				ev.Label(t, "too many logs")
				break
			}
			if f.failAt > before && f.failAt <= f.calls && f.onFail == nil {
				want := codes.Internal
				for _, k := range kinds {
					if errors.Is(f.err, k.err) {
						want = k.code
					}
				}
				if err == nil || status.Code(err) != want {
					t.Fatalf("%s: the storage failed with %v, but the query returned %v, err=%v", what, f.err, res, err)
				}
				ev.Label(t, "failed")
				break
			}
			if ctx.Err() != nil {
				if err == nil && (n > 1 && req.Limit > 0) && (len(res.Records) < min(int(req.Limit), len(exp)) || res.NextPageID == "" && len(exp) > len(res.Records)) {
					t.Fatalf("%s: the context is cancelled, but a part of the result is returned", what)
				}
				ev.Label(t, "cancelled")
				break
			}
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if req.Limit <= 0 {
				if len(res.Records) > 0 {
					t.Fatalf("%s: %d records are returned", what, len(res.Records))
				}
				break
			}
			if len(res.Records) > len(exp) || len(res.Records) > int(req.Limit) {
				t.Fatalf("%s: %d records are returned, but %d are left", what, len(res.Records), len(exp))
			}
			for i, r := range res.Records {
				if r.ID != exp[i].ID || r.LogID != exp[i].LogID || !bytes.Equal(r.Payload, exp[i].Payload) {
					t.Fatalf("%s: the record %v is expected, but it is %v", what, exp[i], r)
				}
			}
			if n > 1 && len(res.Records) < min(int(req.Limit), len(exp)) {
				t.Fatalf("%s: %d records are returned, but %d are left", what, len(res.Records), len(exp))
			}
			exp = exp[len(res.Records):]
			pages++
			if res.NextPageID == "" {
				if len(exp) > 0 {
					t.Fatalf("%s: no token, but %d records are left", what, len(exp))
				}
				break
			}
			if len(exp) > 0 && (!req.Descending && res.NextPageID > exp[0].ID || req.Descending && res.NextPageID < exp[0].ID) || n > 1 && (len(exp) == 0 || res.NextPageID != exp[0].ID) {
				t.Fatalf("%s: wrong token %s with %d records left", what, res.NextPageID, len(exp))
			}
			if len(res.Records) == 0 {
				t.Fatalf("%s: no progress", what)
			}
			req.StartRecordID = res.NextPageID
		}
		if n > 1 && pages > 0 && strings.Contains(what, "short=0") {
			ev.Label(t, "full pages")
		}
		ev.Case(t, n > 1 && n <= 1000 && maxCalls > n+1 && total > 1, "%s, %d pages, up to %d calls", what, pages, maxCalls)
	})
}

// TestTooManyLogs: P21, a condition selects more logs than could be merged
func TestTooManyLogs(t *testing.T) {
	ev.Check(t, "more than 900 logs are selected", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		cfg.MaxRecs, cfg.MaxBunch = 10000, 1<<20
		w := newWorld(t, cfg)
		defer w.close()
		n := rapid.SampledFrom([]int{950, 999, 1000, 1001, 1002, 1300}).Draw(t, "logs")
		for i := 0; i < n; i++ {
			tags := map[string]string{"n": fmt.Sprint(i)}
			l, err := w.st.Meta.CreateLog(ev.Ctx(), &solaris.Log{Tags: tags})
			if err != nil {
				t.Fatalf("could not create a log: %v", err)
			}
			w.logs = append(w.logs, &mlog{id: l.ID, tags: tags})
		}
		for k := rapid.IntRange(1, 5).Draw(t, "appends"); k > 0; k-- {
			w.append(rapid.SampledFrom([]*mlog{w.logs[0], w.logs[1], w.logs[n/2], w.logs[n-2], w.logs[n-1]}).Draw(t, "log"), 10, 20)
		}
		req := &solaris.QueryRecordsRequest{Limit: 100, Descending: rapid.Bool().Draw(t, "desc")}
		sel := n
		m := map[*mlog]bool{}
		for _, l := range w.logs {
			m[l] = true
		}
		if rapid.Bool().Draw(t, "part") {
			req.LogsCondition = "tag('n') != '1'"
			sel--
			delete(m, w.logs[1])
		}
		res, err := w.s.cl.QueryRecords(ev.Ctx(), req)
		cnt, cerr := w.s.cl.CountRecords(ev.Ctx(), req)
		w.noPanics()
		if sel > 1000 {
			if status.Code(err) != codes.ResourceExhausted || status.Code(cerr) != codes.ResourceExhausted {
				t.Fatalf("%d logs are selected, query: %d records err=%v, count: %v err=%v", sel, len(res.GetRecords()), err, cnt, cerr)
			}
		} else {
			if err != nil || cerr != nil {
				t.Fatalf("%d logs are selected: %v, %v", sel, err, cerr)
			}
			exp := w.expected(m, "", req.Descending, nil)
			if len(exp) != len(res.Records) || int(cnt.Count) != len(exp) || int(cnt.Total) != len(exp) {
				t.Fatalf("%d records are expected, but it is %d, count=%v", len(exp), len(res.Records), cnt)
			}
			for i, r := range res.Records {
				w.checkRec(r, exp[i])
			}
		}
		ev.Case(t, sel > 900, "%d logs, %d selected: %s", n, sel, req)
	})
}
