package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// what the REST API speaks, by its specification (api/openapi)
type (
	jlog struct {
		ID        string            `json:"id"`
		Tags      map[string]string `json:"tags"`
		CreatedAt *time.Time        `json:"createdAt"`
		UpdatedAt *time.Time        `json:"updatedAt"`
	}
	jlogs struct {
		Items      []jlog  `json:"items"`
		NextPageID *string `json:"nextPageId"`
		Total      *int64  `json:"total"`
	}
	jrec struct {
		ID        string     `json:"id"`
		LogID     string     `json:"logId"`
		Payload   []byte     `json:"payload"`
		CreatedAt *time.Time `json:"createdAt"`
	}
	jrecs struct {
		Items      []jrec  `json:"items"`
		NextPageID *string `json:"nextPageId"`
		Total      *int64  `json:"total"`
	}
)

func httpStatus(c codes.Code) (int, bool) {
	switch c {
	case codes.NotFound:
		return http.StatusNotFound, true
	case codes.InvalidArgument:
		return http.StatusBadRequest, true
	case codes.AlreadyExists, codes.FailedPrecondition:
		return http.StatusConflict, true
	case codes.Internal, codes.DataLoss:
		return http.StatusInternalServerError, true
	}
	return 0, false
}

type restWorld struct {
	*world
	trace   []string
	methods map[string]bool
	errs    map[int]bool
}

// call makes the request and checks its outcome: serr is the error of the corresponding call of the service. If the request is successful,
// the response is parsed into res
func (r *restWorld) call(method, path string, body any, okStatus int, serr error, res any) bool {
	t := r.t
	ct := ""
	var b []byte
	if body != nil {
		ct = "application/json"
		if rapid.IntRange(0, 3).Draw(t, "charset") == 0 {
			ct += "; charset=utf-8"
		}
		b, _ = json.Marshal(body)
	}
	st, rb, err := r.s.http(method, path, ct, b)
	r.noPanics()
	if err != nil {
		t.Fatalf("%s %s %s failed: %v", method, path, b, err)
	}
	txt := string(b)
	if len(txt) > 150 {
		txt = txt[:150] + "..."
	}
	r.trace = append(r.trace, fmt.Sprintf("%s %s %s -> %d", method, path, txt, st))
	if serr != nil {
		want, ok := httpStatus(status.Code(serr))
		if ok && st != want || !ok && st < 400 {
			t.Fatalf("%s %s %s: the status is %d (%s), but the service returns %v", method, path, b, st, rb, serr)
		}
		var em struct {
			Error string `json:"error"`
		}
		if err := json.Unmarshal(rb, &em); err != nil || em.Error == "" {
			t.Fatalf("%s %s %s: the error is not reported: %d %q", method, path, b, st, rb)
		}
		r.errs[st] = true
		ev.Label(t, fmt.Sprintf("%s %d", method, st))
		return false
	}
	if st != okStatus {
		t.Fatalf("%s %s %s: the status is %d (%s), but it must be %d", method, path, b, st, rb, okStatus)
	}
	if err := json.Unmarshal(rb, res); err != nil {
		t.Fatalf("%s %s %s: wrong response %q: %v", method, path, b, rb, err)
	}
	r.methods[method+strings.SplitN(path[1:], "?", 2)[0]] = true
	return true
}

func (r *restWorld) sameLog(j jlog, l *solaris.Log) {
	if j.ID != l.ID || len(j.Tags) != len(l.Tags) || j.CreatedAt == nil || j.UpdatedAt == nil || !j.CreatedAt.Equal(l.CreatedAt.AsTime()) || !j.UpdatedAt.Equal(l.UpdatedAt.AsTime()) {
		r.t.Fatalf("the log is %+v, but it must be %v", j, l)
	}
	for k, v := range l.Tags {
		if jv, ok := j.Tags[k]; !ok || jv != v {
			r.t.Fatalf("the log is %+v, but it must be %v", j, l)
		}
	}
}

// get returns the log from the service
func (r *restWorld) get(id string) *solaris.Log {
	l, err := r.st.Meta.GetLogByID(ev.Ctx(), id)
	if err != nil {
		r.t.Fatalf("no log %s: %v", id, err)
	}
	return l
}

// state describes everything which is stored
func (r *restWorld) state() string {
	var sb strings.Builder
	for _, l := range r.logs {
		lg, err := r.st.Meta.GetLogByID(ev.Ctx(), l.id)
		if err != nil {
			sb.WriteString("no log " + l.id + "\n")
			continue
		}
		c, err := r.s.svc.CountRecords(ev.Ctx(), &solaris.QueryRecordsRequest{LogIDs: []string{l.id}})
		if err != nil {
			r.t.Fatalf("could not count: %v", err)
		}
		sb.WriteString(fmt.Sprintf("%s %v %v %v %d\n", lg.ID, lg.Tags, lg.CreatedAt.AsTime(), lg.UpdatedAt.AsTime(), c.Total))
	}
	qr, err := r.s.svc.QueryLogs(ev.Ctx(), &solaris.QueryLogsRequest{Limit: 1})
	if err != nil {
		r.t.Fatalf("could not query: %v", err)
	}
	return sb.String() + fmt.Sprint(qr.Total)
}

func (r *restWorld) logCond() string {
	c, _, _, _ := r.logsCond()
	return c
}

// TestRest: P23
func TestRest(t *testing.T) {
	ev.Check(t, "there were successful requests of 4 or more endpoints, and an error", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		r := &restWorld{world: newWorld(t, cfg), methods: map[string]bool{}, errs: map[int]bool{}}
		defer r.close()
		r.createLog(map[string]string{"g": "1"})
		r.createLog(map[string]string{"g": "2", "<&>": "'\"+ %"})
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "initial"); i < n; i++ {
			r.append(r.logs[rapid.IntRange(0, 1).Draw(t, "log")], 5, 0, 40)
		}
		for n := rapid.IntRange(3, 15).Draw(t, "requests"); n > 0; n-- {
			switch rapid.SampledFrom([]string{"create", "update", "queryLogs", "queryLogs", "delete", "append", "append", "records", "records", "records", "malformed"}).Draw(t, "request") {
			case "create":
				tags := genTags(t)
				var res jlog
				before := time.Now().Add(-time.Second)
				r.call("POST", "/logs", map[string]any{"tags": tags}, 201, nil, &res)
				for _, l := range r.logs {
					if l.id == res.ID {
						t.Fatalf("the ID %s is not new", res.ID)
					}
				}
				l := r.get(res.ID)
				r.sameLog(res, l)
				sameLog(r.world, l, &mlog{id: res.ID, tags: tags})
				if l.CreatedAt.AsTime().Before(before) || l.CreatedAt.AsTime().After(time.Now().Add(time.Second)) {
					t.Fatalf("the log is created at %v", l.CreatedAt.AsTime())
				}
				r.logs = append(r.logs, &mlog{id: res.ID, tags: tags})
			case "update":
				id, l := r.anyLogID()
				if id == "" || strings.Contains(id, "%") { // the routing doesn't allow these, and there are no such IDs
					continue
				}
				tags := genTags(t)
				var serr error
				if l == nil {
					_, serr = r.s.svc.UpdateLog(ev.Ctx(), &solaris.Log{ID: id, Tags: tags})
				}
				var res jlog
				if r.call("PUT", "/logs/"+url.PathEscape(id), map[string]any{"tags": tags}, 200, serr, &res) {
					r.sameLog(res, r.get(id))
					l.tags = tags
					sameLog(r.world, r.get(id), l)
				}
			case "queryLogs":
				req := &solaris.QueryLogsRequest{}
				q := url.Values{}
				if rapid.Bool().Draw(t, "withCond") {
					req.Condition = r.logCond()
					q.Set("logsCondFilter", req.Condition)
				}
				if rapid.Bool().Draw(t, "withLimit") {
					req.Limit = rapid.SampledFrom(limits).Draw(t, "limit")
					q.Set("limit", strconv.FormatInt(req.Limit, 10))
				}
				if rapid.IntRange(0, 2).Draw(t, "withPage") == 0 {
					req.PageID, _ = r.anyLogID()
					q.Set("fromPageId", req.PageID)
				}
				exp, serr := r.s.svc.QueryLogs(ev.Ctx(), req)
				var res jlogs
				if r.call("GET", "/logs?"+q.Encode(), nil, 200, serr, &res) {
					if len(res.Items) != len(exp.Logs) || res.Total == nil || *res.Total != exp.Total || (res.NextPageID == nil) != (exp.NextPageID == "") ||
						res.NextPageID != nil && *res.NextPageID != exp.NextPageID {
						t.Fatalf("GET /logs?%s: %d logs total=%v next=%v, but the service returns %d ones total=%d next=%q", q.Encode(), len(res.Items), res.Total, res.NextPageID, len(exp.Logs), exp.Total, exp.NextPageID)
					}
					for i, l := range exp.Logs {
						r.sameLog(res.Items[i], l)
					}
				}
			case "delete":
				cond, ok, sure, f := r.logsCond()
				if !sure || ok && strings.TrimSpace(cond) == "" {
					continue
				}
				var serr error
				if !ok {
					_, serr = r.s.svc.DeleteLogs(ev.Ctx(), &solaris.DeleteLogsRequest{Condition: cond})
				}
				var res struct {
					Deleted *int `json:"deleted"`
				}
				if r.call("DELETE", "/logs", map[string]any{"filterCondition": cond}, 200, serr, &res) {
					sel := r.selected(f)
					if res.Deleted == nil || *res.Deleted != len(sel) {
						t.Fatalf("%d logs must be deleted, but it is %v", len(sel), res.Deleted)
					}
					for _, l := range sel {
						l.gone = true
					}
					qr, err := r.s.svc.QueryLogs(ev.Ctx(), &solaris.QueryLogsRequest{Limit: 1000})
					if err != nil {
						t.Fatalf("could not query: %v", err)
					}
					left := r.selected(func(*mlog) bool { return true })
					if len(left) != len(qr.Logs) {
						t.Fatalf("%d logs are left, but it must be %d", len(qr.Logs), len(left))
					}
					for i, l := range qr.Logs {
						if l.ID != left[i].id {
							t.Fatalf("the log %s must be left, but it is %s", left[i].id, l.ID)
						}
					}
				}
			case "append":
				r.appendRest()
			case "records":
				r.queryRest()
			case "malformed":
				r.malformed()
			}
		}
		ev.Case(t, len(r.methods) >= 4 && len(r.errs) > 0, "%s %s", cfg, strings.Join(r.trace, "; "))
	})
}

func (r *restWorld) appendRest() {
	t := r.t
	id, l := r.anyLogID()
	if id == "" || strings.Contains(id, "%") { // the routing doesn't allow these, and there are no such IDs
		return
	}
	var recs []map[string]any
	var pls [][]byte
	want := -1
	for k := rapid.IntRange(0, 5).Draw(t, "batch"); k > 0; k-- {
		r.seq++
		size := rapid.IntRange(0, 60).Draw(t, "size")
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			size = r.cfg.Capacity() + rapid.IntRange(-1, 1).Draw(t, "around")
		}
		if size > r.cfg.Capacity() && want < 0 {
			want = len(recs)
		}
		p := payload(r.seq, size)
		pls = append(pls, p)
		recs = append(recs, map[string]any{"payload": p})
	}
	if want < 0 {
		want = len(recs)
	}
	var serr error
	if l == nil || want == 0 && len(recs) > 0 {
		sreq := &solaris.AppendRecordsRequest{LogID: id}
		for _, p := range pls {
			sreq.Records = append(sreq.Records, &solaris.Record{Payload: p})
		}
		if _, serr = r.s.svc.AppendRecords(ev.Ctx(), sreq); serr == nil {
			t.Fatalf("the append to %q must fail", id)
		}
	}
	if recs == nil {
		recs = []map[string]any{}
	}
	var res struct {
		Added *int `json:"added"`
	}
	if !r.call("POST", "/logs/"+url.PathEscape(id)+"/records", map[string]any{"records": recs}, 201, serr, &res) {
		return
	}
	if res.Added == nil || *res.Added != want {
		t.Fatalf("%d records of %d must be added, but it is %v", want, len(recs), res.Added)
	}
	// now read them all
	var got []*solaris.Record
	q := &solaris.QueryRecordsRequest{LogIDs: []string{id}, Limit: 1000}
	for {
		qr, err := r.s.svc.QueryRecords(ev.Ctx(), q)
		if err != nil {
			t.Fatalf("could not read: %v", err)
		}
		got = append(got, qr.Records...)
		if q.StartRecordID = qr.NextPageID; qr.NextPageID == "" {
			break
		}
	}
	if len(got) != len(l.recs)+want {
		t.Fatalf("there were %d records, %d are added, now there are %d", len(l.recs), want, len(got))
	}
	for i, g := range got[len(l.recs):] {
		if !bytes.Equal(g.Payload, pls[i]) {
			t.Fatalf("the payload %q is read, but %q was sent", g.Payload, pls[i])
		}
		m := &mrec{id: ulid.MustParse(g.ID), payload: pls[i], log: l}
		l.recs = append(l.recs, m)
		r.recs = append(r.recs, m)
	}
}

func (r *restWorld) queryRest() {
	t := r.t
	req := &solaris.QueryRecordsRequest{}
	q := url.Values{}
	if rapid.Bool().Draw(t, "withIDs") {
		for k := rapid.IntRange(1, 3).Draw(t, "ids"); k > 0; k-- {
			id, _ := r.anyLogID()
			if rapid.IntRange(0, 2).Draw(t, "live") > 0 {
				if sel := r.selected(func(*mlog) bool { return true }); len(sel) > 0 {
					id = rapid.SampledFrom(sel).Draw(t, "liveLog").id
				}
			}
			req.LogIDs = append(req.LogIDs, id)
			q.Add("logIds", id)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "withCond") == 0 {
		req.LogsCondition = r.logCond()
		q.Set("logsCondFilter", req.LogsCondition)
	}
	switch rapid.IntRange(0, 5).Draw(t, "recCond") {
	case 0:
		req.Condition = rapid.OneOf(rapid.Custom(word), rapid.SampledFrom(badConds)).Draw(t, "anyCond")
		q.Set("recordsCondFilter", req.Condition)
	case 1, 2:
		req.Condition, _ = r.genTimeCond()
		q.Set("recordsCondFilter", req.Condition)
	}
	switch rapid.IntRange(0, 3).Draw(t, "desc") {
	case 0:
		req.Descending = true
		q.Set("desc", "true")
	case 1:
		q.Set("desc", "false")
	}
	if rapid.IntRange(0, 5).Draw(t, "withLimit") > 0 {
		req.Limit = rapid.SampledFrom(append([]int64{2, 3, 5, 1000, 1000}, limits...)).Draw(t, "limit")
		q.Set("limit", strconv.FormatInt(req.Limit, 10))
	}
	switch rapid.IntRange(0, 5).Draw(t, "start") {
	case 0:
		req.StartRecordID = word(t)
		q.Set("fromPageId", req.StartRecordID)
	case 1, 2:
		if len(r.recs) > 0 {
			req.StartRecordID = rapid.SampledFrom(r.recs).Draw(t, "startRec").id.String()
			q.Set("fromPageId", req.StartRecordID)
		}
	}
	exp, serr := r.s.svc.QueryRecords(ev.Ctx(), proto.Clone(req).(*solaris.QueryRecordsRequest))
	var cnt *solaris.CountResult
	if serr == nil {
		cnt, serr = r.s.svc.CountRecords(ev.Ctx(), proto.Clone(req).(*solaris.QueryRecordsRequest))
	}
	var res jrecs
	if !r.call("GET", "/records?"+q.Encode(), nil, 200, serr, &res) {
		return
	}
	if len(res.Items) != len(exp.Records) || res.Total == nil || *res.Total != cnt.Count || (res.NextPageID == nil) != (exp.NextPageID == "") ||
		res.NextPageID != nil && *res.NextPageID != exp.NextPageID {
		t.Fatalf("GET /records?%s: %d records total=%v next=%v, but the service returns %d ones count=%v next=%q", q.Encode(), len(res.Items), res.Total, res.NextPageID, len(exp.Records), cnt, exp.NextPageID)
	}
	for i, e := range exp.Records {
		g := res.Items[i]
		if g.ID != e.ID || g.LogID != e.LogID || !bytes.Equal(g.Payload, e.Payload) || g.CreatedAt == nil || !g.CreatedAt.Equal(e.CreatedAt.AsTime()) {
			t.Fatalf("GET /records?%s: the record is %+v, but it must be %v", q.Encode(), g, e)
		}
	}
	if len(exp.Records) > 0 {
		ev.Label(t, "records")
	}
	if exp.NextPageID != "" {
		ev.Label(t, "pages")
	}
}

// malformed makes a request which is not a correct one: it must be rejected and change nothing
func (r *restWorld) malformed() {
	t := r.t
	id := r.logs[0].id
	eps := [][2]string{{"POST", "/logs"}, {"PUT", "/logs/" + id}, {"DELETE", "/logs"}, {"POST", "/logs/" + id + "/records"}}
	good := map[string]string{"POST/logs": `{"tags":{"a":"b"}}`, "PUT/logs/" + id: `{"tags":{"a":"b"}}`, "DELETE/logs": `{"filterCondition":"tag('g') != 'zz'"}`,
		"POST/logs/" + id + "/records": `{"records":[{"payload":"AAAA"}]}`}
	var method, path, ct, body string
	switch rapid.IntRange(0, 2).Draw(t, "malformedKind") {
	case 0: // the body is broken
		ep := rapid.SampledFrom(eps).Draw(t, "ep")
		method, path, ct = ep[0], ep[1], "application/json"
		g := good[method+path]
		body = rapid.SampledFrom([]string{"", "{", g[:len(g)-1], "[]", "\"x\"", strings.Replace(g, ":", ":1", 1), strings.Replace(g, ":\"", ":[\"", 1), "\xff" + g}).Draw(t, "broken")
	case 1: // wrong content type
		ep := rapid.SampledFrom(eps).Draw(t, "ep")
		method, path = ep[0], ep[1]
		ct = rapid.SampledFrom([]string{"", "text/plain", "application/xml", "application/x-www-form-urlencoded", "application/jsonx"}).Draw(t, "ct")
		body = good[method+path]
	case 2: // wrong parameters
		method = "GET"
		path = rapid.SampledFrom([]string{"/logs?limit=abc", "/logs?limit=1.5", "/records?limit=x", "/records?desc=maybe", "/records?limit=99999999999999999999", "/logs?limit=99999999999999999999"}).Draw(t, "params")
	}
	before := r.state()
	st, rb, err := r.s.http(method, path, ct, []byte(body))
	r.noPanics()
	if err != nil {
		t.Fatalf("%s %s %q failed: %v", method, path, body, err)
	}
	r.trace = append(r.trace, fmt.Sprintf("%s %s %q %q -> %d", method, path, ct, body, st))
	if st < 400 {
		t.Fatalf("%s %s %q %q is malformed, but the status is %d %s", method, path, ct, body, st, rb)
	}
	if after := r.state(); after != before {
		t.Fatalf("%s %s %q %q is rejected, but it changed the storage from\n%s to\n%s", method, path, ct, body, before, after)
	}
	r.errs[st] = true
	ev.Label(t, "malformed "+method)
}

// TestRestFailures: P23, the failures of the storages are reported with the corresponding statuses
func TestRestFailures(t *testing.T) {
	ev.Check(t, "a storage failed", func(t *rapid.T) {
		s := theServer()
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		f := &failing{err: k.err, after: rapid.IntRange(0, 4).Draw(t, "after"), logs: rapid.IntRange(0, 3).Draw(t, "logs")}
		for n := rapid.IntRange(0, 3).Draw(t, "wraps"); n > 0; n-- {
			f.err = fmt.Errorf("%s: %w", rapid.SampledFrom([]string{"x", "could not", "%d"}).Draw(t, "text"), f.err)
		}
		msg := f.err.Error()
		after := f.after
		s.use(f, f)
		// number of calls to the storages the endpoint makes
		eps := []struct {
			method, path, body string
			calls              int
		}{
			{"POST", "/logs", `{"tags":{}}`, 1}, {"PUT", "/logs/1", `{"tags":{}}`, 1}, {"DELETE", "/logs", `{"filterCondition":"a"}`, 1}, {"GET", "/logs", "", 1},
			{"POST", "/logs/1/records", `{"records":[]}`, 2}, {"GET", "/records?limit=1", "", 2 + 2*f.logs}, {"GET", "/records?limit=1&logIds=1", "", 2}, {"GET", "/records?limit=1&logIds=1&logIds=2&desc=true", "", 4},
		}
		ep := rapid.SampledFrom(eps).Draw(t, "ep")
		if after >= ep.calls {
			f.after = rapid.IntRange(0, ep.calls-1).Draw(t, "after2")
			after = f.after
		}
		ct := ""
		if ep.body != "" {
			ct = "application/json"
		}
		st, body, err := s.http(ep.method, ep.path, ct, []byte(ep.body))
		if err != nil {
			t.Fatalf("the request failed: %v", err)
		}
		what := fmt.Sprintf("%s %s, logs=%d, the storage fails after %d calls with %q", ep.method, ep.path, f.logs, after, msg)
		want, ok := httpStatus(k.code)
		if ok && st != want || !ok && st < 400 {
			t.Fatalf("%s: the status is %d %s", what, st, body)
		}
		var em struct {
			Error string `json:"error"`
		}
		if err := json.Unmarshal(body, &em); err != nil || !strings.Contains(em.Error, msg) {
			t.Fatalf("%s: the error is not reported: %q", what, body)
		}
		ev.Label(t, fmt.Sprint(st))
		ev.Case(t, true, "%s -> %d", what, st)
	})
}
