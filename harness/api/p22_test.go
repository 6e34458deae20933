package api

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var badConds = []string{"(", ")", "tag('a') =", "= 'a'", "tag('a') = 'b' AND", "tag('a' = 'b'", "'", "ctime >", "unknown = 'a' OR", "OR", "NOT", "ctime > 'x", "tag('a') ~ 'b'"}

// word generates any text which may be passed by gRPC
func word(t *rapid.T) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"", "a", "b", "a b", "'", "\"", "\\", "%", "_", "tag", "\x00", "привет", "\u2028", "..", "/", "a/b", "~", "{}", "null", strings.Repeat("x", 3000)}),
		rapid.StringN(0, 12, 40)).Draw(t, "word")
}

func genTags(t *rapid.T) map[string]string {
	n := rapid.IntRange(0, 4).Draw(t, "tags")
	if n == 0 {
		return nil
	}
	res := map[string]string{}
	for ; n > 0; n-- {
		res[word(t)] = word(t)
	}
	res["g"] = rapid.SampledFrom([]string{"0", "1", "2"}).Draw(t, "g")
	return res
}

// logsCond generates a condition for logs. ok is false if it is malformed, sure is whether it is known
func (w *world) logsCond() (cond string, ok, sure bool, f func(l *mlog) bool) {
	t := w.t
	switch rapid.IntRange(0, 9).Draw(t, "logsCond") {
	case 0:
		return rapid.SampledFrom(badConds).Draw(t, "badCond"), false, true, nil
	case 1:
		return word(t) + rapid.SampledFrom([]string{"", " = ", " AND "}).Draw(t, "op") + word(t), false, false, nil
	case 2, 3:
		return rapid.SampledFrom([]string{"", " "}).Draw(t, "blank"), true, true, func(*mlog) bool { return true }
	case 4:
		if len(w.logs) > 0 {
			l := rapid.SampledFrom(w.logs).Draw(t, "logByID")
			return fmt.Sprintf("logID = '%s'", l.id), true, true, func(o *mlog) bool { return o.id == l.id }
		}
	}
	g := rapid.SampledFrom([]string{"0", "1", "2", "9"}).Draw(t, "g")
	if rapid.IntRange(0, 3).Draw(t, "like") == 0 {
		return fmt.Sprintf("tag('g') like '%s'", g+"%"), true, true, func(l *mlog) bool { return strings.HasPrefix(l.tags["g"], g) }
	}
	return fmt.Sprintf("tag('g') = '%s'", g), true, true, func(l *mlog) bool { return l.tags["g"] == g }
}

func (w *world) selected(f func(l *mlog) bool) []*mlog {
	var res []*mlog
	for _, l := range w.logs {
		if !l.gone && f(l) {
			res = append(res, l)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	return res
}

func (w *world) anyLogID() (string, *mlog) {
	t := w.t
	if len(w.logs) == 0 || rapid.IntRange(0, 4).Draw(t, "unknownLog") == 0 {
		return rapid.OneOf(rapid.SampledFrom([]string{"", "~", "01ARZ3NDEKTSV4RRFFQ69G5FAV", " ", "../..", "\xc3\xbf"}), rapid.Custom(word)).Draw(t, "logID"), nil
	}
	l := rapid.SampledFrom(w.logs).Draw(t, "log")
	if l.gone {
		return l.id, nil
	}
	return l.id, l
}

var limits = []int64{0, -1, 1, 2, 3, 7, 50, 100, 101, 1000, 1001, 100000, math.MaxInt32 + 1, math.MaxInt64, math.MinInt64}

func sameLog(w *world, l *solaris.Log, m *mlog) {
	if l.ID != m.id || len(l.Tags) != len(m.tags) {
		w.t.Fatalf("the log %v is got, but it must be %s %q", l, m.id, m.tags)
	}
	for k, v := range m.tags {
		if got, ok := l.Tags[k]; !ok || got != v {
			w.t.Fatalf("the log %v is got, but it must be %s %q", l, m.id, m.tags)
		}
	}
	if l.CreatedAt == nil || l.UpdatedAt == nil {
		w.t.Fatalf("the log %v without the times", l)
	}
}

// TestRequests: P22
func TestRequests(t *testing.T) {
	ev.Check(t, "there were successful requests of 4 or more methods, and two or more kinds of errors", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg)
		defer w.close()
		okMethods, errKinds := map[string]bool{}, map[codes.Code]bool{}
		var trace []string
		// done checks the outcome of a request
		done := func(method string, req fmt.Stringer, err error, allowed ...codes.Code) bool {
			w.noPanics()
			c := status.Code(err)
			txt := req.String()
			if len(txt) > 150 {
				txt = txt[:150] + "..."
			}
			trace = append(trace, fmt.Sprintf("%s(%s) -> %s", method, txt, c))
			for _, a := range allowed {
				if a == c {
					if c == codes.OK {
						okMethods[method] = true
					} else {
						errKinds[c] = true
						ev.Label(t, method+" "+c.String())
					}
					return c == codes.OK
				}
			}
			t.Fatalf("%s(%v): the status is %s (%v), but it must be one of %v", method, req, c, err, allowed)
			return false
		}
		for k := 0; k < 3; k++ {
			w.createLog(genTags(t))
		}
		for n := rapid.IntRange(3, 25).Draw(t, "requests"); n > 0; n-- {
			switch rapid.SampledFrom([]string{"create", "update", "queryLogs", "queryLogs", "delete", "append", "append", "append", "records", "records", "count"}).Draw(t, "method") {
			case "create":
				req := &solaris.Log{ID: rapid.SampledFrom([]string{"", "xyz"}).Draw(t, "givenID"), Tags: genTags(t)}
				res, err := w.s.cl.CreateLog(ev.Ctx(), req)
				if done("CreateLog", req, err, codes.OK) {
					for _, l := range w.logs {
						if l.id == res.ID {
							t.Fatalf("the ID %s is not unique", res.ID)
						}
					}
					l := &mlog{id: res.ID, tags: req.Tags}
					w.logs = append(w.logs, l)
					sameLog(w, res, l)
				}
			case "update":
				id, l := w.anyLogID()
				req := &solaris.Log{ID: id, Tags: genTags(t)}
				res, err := w.s.cl.UpdateLog(ev.Ctx(), req)
				allowed := codes.OK
				if l == nil {
					allowed = codes.NotFound
					if id == "" {
						allowed = codes.InvalidArgument
					}
				}
				if done("UpdateLog", req, err, allowed) {
					l.tags = req.Tags
					sameLog(w, res, l)
				}
			case "queryLogs":
				req := &solaris.QueryLogsRequest{Limit: rapid.SampledFrom(limits).Draw(t, "limit")}
				var ok, sure bool
				var f func(l *mlog) bool
				req.Condition, ok, sure, f = w.logsCond()
				if rapid.IntRange(0, 3).Draw(t, "page") == 0 {
					req.PageID, _ = w.anyLogID()
				}
				res, err := w.s.cl.QueryLogs(ev.Ctx(), req)
				allowed := []codes.Code{codes.OK, codes.InvalidArgument}
				if sure && ok {
					allowed = allowed[:1]
				} else if sure {
					allowed = allowed[1:]
				}
				if done("QueryLogs", req, err, allowed...) {
					if len(res.Logs) > 1000 || req.Limit > 0 && int64(len(res.Logs)) > req.Limit {
						t.Fatalf("%d logs are returned for %v", len(res.Logs), req)
					}
					if sure {
						sel := w.selected(f)
						if int(res.Total) != len(sel) {
							t.Fatalf("QueryLogs(%v): total=%d, but it must be %d", req, res.Total, len(sel))
						}
						for len(sel) > 0 && sel[0].id < req.PageID {
							sel = sel[1:]
						}
						if len(res.Logs) > len(sel) || len(res.Logs) < len(sel) && (res.NextPageID == "" || len(res.Logs) == 0) {
							t.Fatalf("QueryLogs(%v): %d logs of %d, next=%q", req, len(res.Logs), len(sel), res.NextPageID)
						}
						for i, l := range res.Logs {
							sameLog(w, l, sel[i])
						}
					}
				}
			case "delete":
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				req := &solaris.DeleteLogsRequest{}
				var ok, sure bool
				var f func(l *mlog) bool
				req.Condition, ok, sure, f = w.logsCond()
				if !sure {
					continue // it may be correct and delete something
				}
				if ok && strings.TrimSpace(req.Condition) == "" {
					continue // the meaning of the empty one is not defined
				}
				res, err := w.s.cl.DeleteLogs(ev.Ctx(), req)
				allowed := codes.OK
				if !ok {
					allowed = codes.InvalidArgument
				}
				if done("DeleteLogs", req, err, allowed) {
					sel := w.selected(f)
					ids := res.DeletedIDs
					sort.Strings(ids)
					if len(ids) != len(sel) {
						t.Fatalf("DeleteLogs(%v): %q are deleted, but there are %d such logs", req, ids, len(sel))
					}
					for i, l := range sel {
						if l.id != ids[i] {
							t.Fatalf("DeleteLogs(%v): %q are deleted", req, ids)
						}
						l.gone = true
					}
				}
			case "append":
				id, l := w.anyLogID()
				req := &solaris.AppendRecordsRequest{LogID: id, ExpandIDs: rapid.Bool().Draw(t, "expand")}
				want, total := -1, 0
				for k := rapid.IntRange(0, 6).Draw(t, "batch"); k > 0; k-- {
					w.seq++
					size := rapid.IntRange(0, 60).Draw(t, "size")
					if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
						size = cfg.Capacity() + rapid.IntRange(-1, 3).Draw(t, "around")
					}
					if total += size; total > maxRequest {
						break
					}
					if size > cfg.Capacity() && want < 0 {
						want = len(req.Records)
					}
					r := &solaris.Record{Payload: payload(w.seq, size)}
					if rapid.IntRange(0, 5).Draw(t, "fields") == 0 {
						r.ID, r.LogID = word(t), word(t) // it doesn't matter
					}
					req.Records = append(req.Records, r)
				}
				if want < 0 {
					want = len(req.Records)
				}
				res, err := w.s.cl.AppendRecords(ev.Ctx(), req)
				allowed := codes.OK
				if l == nil {
					allowed = codes.NotFound
					if id == "" {
						allowed = codes.InvalidArgument
					}
				} else if want == 0 && len(req.Records) > 0 {
					allowed = codes.InvalidArgument
				}
				if done("AppendRecords", &solaris.AppendRecordsRequest{LogID: req.LogID}, err, allowed) {
					if int(res.Added) != want {
						t.Fatalf("%d records of %d are added, but %d must be", res.Added, len(req.Records), want)
					}
					if req.ExpandIDs != (len(res.RecordIDs) > 0) && want > 0 || req.ExpandIDs && len(res.RecordIDs) != want {
						t.Fatalf("expand=%t, but the IDs are %q for %d records", req.ExpandIDs, res.RecordIDs, want)
					}
					for i := 0; i < want; i++ {
						l.recs = append(l.recs, &mrec{payload: req.Records[i].Payload, log: l})
					}
				}
			case "records", "count":
				w.anyQuery(done)
			}
		}
		ev.Case(t, len(okMethods) >= 4 && len(errKinds) >= 2, "%s %s", cfg, strings.Join(trace, "; "))
	})
}

func (w *world) anyQuery(done func(method string, req fmt.Stringer, err error, allowed ...codes.Code) bool) {
	t := w.t
	req := &solaris.QueryRecordsRequest{Descending: rapid.Bool().Draw(t, "desc"), Limit: rapid.SampledFrom(limits).Draw(t, "limit")}
	var sel []*mlog
	unknown, selSure, selOk := false, true, true
	if rapid.Bool().Draw(t, "listed") {
		seen := map[string]bool{}
		for k := rapid.IntRange(1, 5).Draw(t, "ids"); k > 0; k-- {
			id, l := w.anyLogID()
			if seen[id] {
				continue
			}
			seen[id] = true
			req.LogIDs = append(req.LogIDs, id)
			if l == nil {
				unknown = true
			} else {
				sel = append(sel, l)
			}
		}
	} else {
		var f func(l *mlog) bool
		req.LogsCondition, selOk, selSure, f = w.logsCond()
		if selOk && selSure {
			sel = w.selected(f)
		}
	}
	condOk, condSure, cond := true, true, false
	switch rapid.IntRange(0, 9).Draw(t, "recCond") {
	case 0:
		req.Condition, condOk = rapid.SampledFrom(badConds).Draw(t, "badCond"), false
	case 1:
		req.Condition, condSure = word(t)+rapid.SampledFrom([]string{"", " = ", " > "}).Draw(t, "op")+word(t), false
	case 2:
		req.Condition, condOk, cond = "ctime > '1000'", true, true // all of them
	case 3:
		req.Condition, condOk, cond = "ctime < '1000'", true, true // none
	case 4:
		req.Condition, condSure = "tag('g') = '1'", false
	}
	startOk, startSure, start := true, true, false
	switch rapid.IntRange(0, 5).Draw(t, "startKind") {
	case 0:
		req.StartRecordID, start = rapid.SampledFrom([]string{"", "00000000000000000000000000", "7ZZZZZZZZZZZZZZZZZZZZZZZZZ"}).Draw(t, "start"), true
	case 1:
		req.StartRecordID = word(t)
		startOk = len(req.StartRecordID) == 26 || req.StartRecordID == ""
		startSure = !startOk
	case 2:
		req.StartRecordID, startSure = "!!!!!!!!!!!!!!!!!!!!!!!!!!", false
	case 3:
		req.StartRecordID, start = ulid.MustNew(ulid.Now(), nil).String(), true
	}
	withRecs, total := 0, 0
	for _, l := range sel {
		if len(l.recs) > 0 {
			withRecs++
		}
		total += len(l.recs)
	}
	all := !cond && !start && (req.StartRecordID == "")
	// what may be returned
	must := func() []codes.Code {
		switch {
		case !selOk && selSure:
			return []codes.Code{codes.InvalidArgument}
		case !selSure:
			return []codes.Code{codes.OK, codes.InvalidArgument}
		case unknown && (!condOk || !condSure || !startOk || !startSure) && withRecs > 0:
			return []codes.Code{codes.NotFound, codes.InvalidArgument}
		case unknown:
			return []codes.Code{codes.NotFound}
		case (!condOk || !startOk) && withRecs > 0:
			return []codes.Code{codes.InvalidArgument}
		case (!condSure || !startSure || !condOk || !startOk) && len(sel) > 0:
			return []codes.Code{codes.OK, codes.InvalidArgument}
		}
		return []codes.Code{codes.OK}
	}()
	res, err := w.s.cl.QueryRecords(ev.Ctx(), req)
	if done("QueryRecords", req, err, must...) {
		lim := max(0, req.Limit)
		if len(sel) == 1 {
			lim = min(lim, int64(w.cfg.MaxRecs))
		}
		if int64(len(res.Records)) > lim {
			t.Fatalf("QueryRecords(%v): %d records are returned, the maximum is %d", req, len(res.Records), lim)
		}
		if selSure && all && condOk && condSure {
			if len(sel) > 1 && len(res.Records) != int(min(int64(total), lim)) || len(res.Records) > total || lim > 0 && total > 0 && len(res.Records) == 0 {
				t.Fatalf("QueryRecords(%v): %d records are returned, there are %d", req, len(res.Records), total)
			}
			if lim > 0 && len(res.Records) < total && res.NextPageID == "" {
				t.Fatalf("QueryRecords(%v): %d records are returned of %d without the next page", req, len(res.Records), total)
			}
		}
	}
	cnt, err := w.s.cl.CountRecords(ev.Ctx(), req)
	if done("CountRecords", req, err, must...) {
		var count, tot int64
		for _, l := range sel {
			one := proto.Clone(req).(*solaris.QueryRecordsRequest)
			one.LogIDs = []string{l.id}
			c, err := w.s.cl.CountRecords(ev.Ctx(), one)
			if err != nil {
				t.Fatalf("CountRecords(%v) failed: %v", one, err)
			}
			if int(c.Total) != len(l.recs) {
				t.Fatalf("CountRecords(%v): the total is %d of %d", one, c.Total, len(l.recs))
			}
			count += c.Count
			tot += c.Total
		}
		if selSure && (cnt.Total != tot || cnt.Count != count || int(tot) != total) {
			t.Fatalf("CountRecords(%v) = %v, but the sums are total=%d count=%d, and there are %d records", req, cnt, tot, count, total)
		}
	}
}

// failing implements the storages by failing with the error
type failing struct {
	err error
	// after says how many calls are successful
	after int
	logs  int
}

func (f *failing) next() error {
	if f.after > 0 {
		f.after--
		return nil
	}
	return f.err
}

func (f *failing) CreateLog(context.Context, *solaris.Log) (*solaris.Log, error) {
	return nil, f.next()
}
func (f *failing) GetLogByID(_ context.Context, id string) (*solaris.Log, error) {
	return &solaris.Log{ID: id}, f.next()
}
func (f *failing) UpdateLog(context.Context, *solaris.Log) (*solaris.Log, error) {
	return nil, f.next()
}
func (f *failing) QueryLogs(context.Context, storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	if err := f.next(); err != nil {
		return nil, err
	}
	res := &solaris.QueryLogsResult{}
	for i := 0; i < f.logs; i++ {
		res.Logs = append(res.Logs, &solaris.Log{ID: fmt.Sprint(i)})
	}
	return res, nil
}
func (f *failing) DeleteLogs(context.Context, storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	return &solaris.DeleteLogsResult{}, f.next()
}
func (f *failing) AppendRecords(context.Context, *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	return nil, f.next()
}
func (f *failing) QueryRecords(context.Context, storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	return nil, false, f.next()
}
func (f *failing) CountRecords(context.Context, storage.QueryRecordsRequest) (uint64, uint64, error) {
	return 1, 1, f.next()
}

// TestFailures: P22, any failure of the storages is reported with its code
func TestFailures(t *testing.T) {
	ev.Check(t, "a storage failed", func(t *rapid.T) {
		s := theServer()
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		f := &failing{err: k.err, after: rapid.IntRange(0, 3).Draw(t, "after"), logs: rapid.IntRange(0, 3).Draw(t, "logs")}
		for n := rapid.IntRange(0, 3).Draw(t, "wraps"); n > 0; n-- {
			f.err = fmt.Errorf("%s: %w", rapid.SampledFrom([]string{"x", "could not", "%d"}).Draw(t, "text"), f.err)
		}
		msg := f.err.Error()
		s.use(f, f)
		var ids []string
		for i := rapid.IntRange(0, 3).Draw(t, "ids"); i > 0; i-- {
			ids = append(ids, fmt.Sprint(i))
		}
		qr := &solaris.QueryRecordsRequest{LogIDs: ids, Limit: 10}
		m := rapid.SampledFrom([]string{"CreateLog", "UpdateLog", "QueryLogs", "DeleteLogs", "AppendRecords", "QueryRecords", "CountRecords"}).Draw(t, "method")
		after := f.after
		calls := map[string]int{"CreateLog": 1, "UpdateLog": 1, "QueryLogs": 1, "DeleteLogs": 1, "AppendRecords": 2, "QueryRecords": len(ids), "CountRecords": len(ids)}[m]
		if len(ids) == 0 && strings.HasSuffix(m, "tRecords") || len(ids) == 0 && m == "QueryRecords" {
			calls = 1 + f.logs
		}
		var err error
		switch m {
		case "CreateLog":
			_, err = s.cl.CreateLog(ev.Ctx(), &solaris.Log{})
		case "UpdateLog":
			_, err = s.cl.UpdateLog(ev.Ctx(), &solaris.Log{ID: "1"})
		case "QueryLogs":
			_, err = s.cl.QueryLogs(ev.Ctx(), &solaris.QueryLogsRequest{})
		case "DeleteLogs":
			_, err = s.cl.DeleteLogs(ev.Ctx(), &solaris.DeleteLogsRequest{Condition: "a"})
		case "AppendRecords":
			_, err = s.cl.AppendRecords(ev.Ctx(), &solaris.AppendRecordsRequest{LogID: "1"})
		case "QueryRecords":
			_, err = s.cl.QueryRecords(ev.Ctx(), qr)
		case "CountRecords":
			_, err = s.cl.CountRecords(ev.Ctx(), qr)
		}
		if p := s.g.take(); len(p) > 0 {
			t.Fatalf("the service panics: %s", p[0])
		}
		failed := after < calls
		what := fmt.Sprintf("%s (ids=%d, logs=%d), the storage fails after %d calls of %d with %q", m, len(ids), f.logs, after, calls, msg)
		if failed && (status.Code(err) != k.code || !strings.Contains(status.Convert(err).Message(), msg)) {
			t.Fatalf("%s: %v is reported, but the code must be %s", what, err, k.code)
		}
		if failed && !errors.Is(k.err, errors.ErrInternal) && k.code != codes.Internal && !errors.Is(err, k.err) {
			t.Fatalf("%s: the error %v is not recognised by the client", what, err)
		}
		ev.Label(t, m)
		ev.Case(t, failed, "%s", what)
	})
}

// TestConcurrentRequests: P22, the logs are being created and deleted while they are used
func TestConcurrentRequests(t *testing.T) {
	ev.Check(t, "a log was deleted while records were being added into it", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg)
		defer w.close()
		type plan struct {
			kind  string
			log   int
			size  int
			pause time.Duration
		}
		nlogs := rapid.IntRange(1, 3).Draw(t, "logs")
		for i := 0; i < nlogs; i++ {
			w.createLog(map[string]string{"n": fmt.Sprint(i)})
		}
		var plans [][]plan
		for n := rapid.IntRange(2, 6).Draw(t, "clients"); n > 0; n-- {
			var p []plan
			for k := rapid.IntRange(1, 8).Draw(t, "requests"); k > 0; k-- {
				p = append(p, plan{kind: rapid.SampledFrom([]string{"append", "append", "append", "query", "merge", "count", "delete", "update"}).Draw(t, "kind"),
					log: rapid.IntRange(0, nlogs-1).Draw(t, "log"), size: rapid.IntRange(0, cfg.Capacity()).Draw(t, "size"),
					pause: time.Duration(rapid.SampledFrom([]int{0, 0, 0, 50, 200}).Draw(t, "us")) * time.Microsecond})
			}
			plans = append(plans, p)
		}
		var mu sync.Mutex
		var fails []string
		notFound := 0
		deleted := map[int]time.Time{} // when the deletion was completed
		fail := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			fails = append(fails, fmt.Sprintf(format, args...))
		}
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func(p []plan) {
				defer wg.Done()
				for _, o := range p {
					time.Sleep(o.pause)
					id := w.logs[o.log].id
					mu.Lock()
					del, gone := deleted[o.log]
					mu.Unlock()
					gone = gone && del.Before(time.Now())
					var err error
					wasOk := false
					switch o.kind {
					case "append":
						var res *solaris.AppendRecordsResult
						res, err = w.s.cl.AppendRecords(ev.Ctx(), &solaris.AppendRecordsRequest{LogID: id, Records: []*solaris.Record{{Payload: payload(1, o.size)}, {Payload: payload(2, 10)}}})
						if err == nil && res.Added != 2 {
							fail("%d records are added", res.Added)
						}
					case "query":
						_, err = w.s.cl.QueryRecords(ev.Ctx(), &solaris.QueryRecordsRequest{LogIDs: []string{id}, Limit: 10})
					case "merge":
						_, err = w.s.cl.QueryRecords(ev.Ctx(), &solaris.QueryRecordsRequest{Limit: 10})
						wasOk = true
					case "count":
						_, err = w.s.cl.CountRecords(ev.Ctx(), &solaris.QueryRecordsRequest{LogIDs: []string{id}})
					case "update":
						_, err = w.s.cl.UpdateLog(ev.Ctx(), &solaris.Log{ID: id, Tags: map[string]string{"n": fmt.Sprint(o.log)}})
					case "delete":
						var res *solaris.DeleteLogsResult
						res, err = w.s.cl.DeleteLogs(ev.Ctx(), &solaris.DeleteLogsRequest{Condition: fmt.Sprintf("logID = '%s'", id)})
						wasOk = true
						if err == nil && len(res.DeletedIDs) == 1 {
							mu.Lock()
							deleted[o.log] = time.Now()
							mu.Unlock()
						}
					}
					c := status.Code(err)
					if c != codes.OK && c != codes.NotFound {
						fail("%+v: %v", o, err)
					}
					if c == codes.NotFound {
						mu.Lock()
						notFound++
						mu.Unlock()
					}
					if gone && !wasOk && c == codes.OK {
						fail("%+v is successful, but the log is deleted", o)
					}
				}
			}(p)
		}
		wg.Wait()
		w.noPanics()
		if len(fails) > 0 {
			t.Fatalf("%s", strings.Join(fails, "\n"))
		}
		ev.Case(t, len(deleted) > 0 && notFound > 0, "%s logs=%d plans=%v: %d deleted, %d not found", cfg, nlogs, plans, len(deleted), notFound)
	})
}
