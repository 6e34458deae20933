package locallog

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

type (
	mrec struct {
		id      ulid.ULID
		payload []byte
	}

	mlog struct {
		id   string
		recs []mrec
		rem  int // what is left in the last chunk (an estimate, only for the generator)
	}

	// world is the storage and its model
	world struct {
		t       *rapid.T
		cfg     stack.Cfg
		dir     string
		clean   func()
		st      *stack.Stack
		opts    stack.Opts
		logs    []*mlog
		seq     int
		reopens int
		splits  int
		trace   []string
		panics  atomic.Value
	}
)

func newWorld(t *rapid.T, cfg stack.Cfg, nlogs int, opts stack.Opts) *world {
	w := &world{t: t, cfg: cfg, opts: opts}
	w.dir, w.clean = ev.Dir(t)
	w.open()
	for i := 0; i < nlogs; i++ {
		l, err := w.st.Meta.CreateLog(ev.Ctx(), &solaris.Log{Tags: map[string]string{"n": fmt.Sprint(i)}})
		if err != nil {
			t.Fatalf("could not create a log: %v", err)
		}
		w.logs = append(w.logs, &mlog{id: l.ID})
	}
	return w
}

func (w *world) open() {
	st, err := stack.Open(w.dir, w.cfg, w.opts)
	if err != nil {
		w.t.Fatalf("could not open the storage: %v", err)
	}
	w.st = st
}

func (w *world) close() {
	if w.st != nil {
		w.st.Close()
		w.st = nil
	}
	w.clean()
}

func (w *world) reopen() {
	w.st.Close()
	w.st = nil
	w.open()
	w.reopens++
	w.trace = append(w.trace, "reopen")
}

func payload(seq, size int) []byte {
	b := make([]byte, size)
	x := uint32(seq)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// genSizes generates sizes of a batch: small ones, and ones around the free space of the chunk and the chunk capacity
func (w *world) genSizes(l *mlog, maxN int, small bool) []int {
	t := w.t
	if rapid.IntRange(0, 14).Draw(t, "burst") == 0 {
		// a lot of tiny records: the table of records becomes bigger than the payloads
		res := make([]int, rapid.IntRange(50, 400).Draw(t, "burstLen"))
		for m, i := rapid.IntRange(0, 3).Draw(t, "tiny"), 0; i < len(res); i++ {
			res[i] = m
		}
		return res
	}
	n := rapid.IntRange(0, maxN).Draw(t, "batch")
	res := make([]int, n)
	rem := l.rem
	for i := range res {
		k := rapid.IntRange(0, 9).Draw(t, "sizeKind")
		if small && k > 6 {
			k = 1
		}
		switch {
		case k <= 4:
			res[i] = rapid.IntRange(0, 40).Draw(t, "size")
		case k <= 6:
			res[i] = rapid.IntRange(0, 1500).Draw(t, "size")
		case k == 7:
			res[i] = rem - stack.RecMeta + rapid.IntRange(-2, 2).Draw(t, "size")
		case k == 8:
			res[i] = w.cfg.Capacity() - rapid.IntRange(0, 2).Draw(t, "size")
		default:
			if rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
				res[i] = w.cfg.Capacity() + rapid.SampledFrom([]int{1, 2, 24, 32, 5000}).Draw(t, "size")
			} else {
				res[i] = rapid.IntRange(0, w.cfg.Capacity()).Draw(t, "size")
			}
		}
		res[i] = max(0, res[i])
		if need := res[i] + stack.RecMeta; need <= rem {
			rem -= need
		} else if res[i] <= w.cfg.Capacity() {
			rem = w.cfg.Capacity() - res[i]
		}
	}
	return res
}

// append makes the call and checks its result
func (w *world) append(l *mlog, sizes []int) {
	t := w.t
	req := &solaris.AppendRecordsRequest{LogID: l.id, ExpandIDs: rapid.Bool().Draw(t, "expand")}
	want := 0
	tooBig := false
	for _, s := range sizes {
		w.seq++
		req.Records = append(req.Records, &solaris.Record{Payload: payload(w.seq, s)})
		if s > w.cfg.Capacity() {
			tooBig = true
		}
		if !tooBig {
			want++
		}
	}
	w.trace = append(w.trace, fmt.Sprintf("append(%s,%v)", l.id[22:], sizes))
	before := time.Now().Add(-time.Second)
	var orig [][]byte
	for _, r := range req.Records {
		orig = append(orig, r.Payload)
	}
	res, err := w.st.Log.AppendRecords(ev.Ctx(), req)
	after := time.Now().Add(time.Second)
	if want == 0 && len(sizes) > 0 {
		if !errors.Is(err, errors.ErrInvalid) {
			t.Fatalf("the record is bigger than a chunk (%d), but it is not reported as invalid: %v\n%s", sizes[0], err, w.history())
		}
		return
	}
	if err != nil {
		t.Fatalf("the append failed: %v\n%s", err, w.history())
	}
	if res.Added != int64(want) {
		t.Fatalf("added %d, but %d records of %v must fit\n%s", res.Added, want, sizes, w.history())
	}
	if req.ExpandIDs && len(res.RecordIDs) != want || !req.ExpandIDs && len(res.RecordIDs) > 0 {
		t.Fatalf("expand=%t, but %d IDs are reported for %d records\n%s", req.ExpandIDs, len(res.RecordIDs), want, w.history())
	}
	for i := 0; i < want; i++ {
		rec := mrec{payload: payload(w.seq-len(sizes)+1+i, sizes[i])}
		if !bytes.Equal(orig[i], rec.payload) {
			t.Fatalf("the payload of the caller is changed\n%s", w.history())
		}
		if req.ExpandIDs {
			id, err := ulid.ParseStrict(res.RecordIDs[i])
			if err != nil {
				t.Fatalf("wrong ID %q is reported: %v\n%s", res.RecordIDs[i], err, w.history())
			}
			if tm := ulid.Time(id.Time()); tm.Before(before) || tm.After(after) {
				t.Fatalf("wrong time %s of the ID %s, it was created between %s and %s", tm, id, before, after)
			}
			rec.id = id
		}
		l.recs = append(l.recs, rec)
		if need := sizes[i] + stack.RecMeta; need <= l.rem {
			l.rem -= need
		} else {
			if len(l.recs) > 1 {
				w.splits++
			}
			l.rem = w.cfg.Capacity() - sizes[i]
		}
	}
}

func (w *world) history() string {
	return fmt.Sprintf("cfg=%s history: %s", w.cfg, strings.Join(w.trace, "; "))
}

// checkRec compares the record got with the expected one
func (w *world) checkRec(l *mlog, r *solaris.Record, m *mrec) {
	t := w.t
	id, err := ulid.ParseStrict(r.ID)
	if err != nil {
		t.Fatalf("wrong ID %q of a record: %v", r.ID, err)
	}
	if !bytes.Equal(r.Payload, m.payload) {
		t.Fatalf("the record %s of the log %s has %d bytes of payload %.40q, expected %d bytes %.40q\n%s", r.ID, l.id, len(r.Payload), r.Payload, len(m.payload), m.payload, w.history())
	}
	if m.id == (ulid.ULID{}) {
		m.id = id // the ID was not asked for, so it is remembered when it is met first
	}
	if id != m.id {
		t.Fatalf("the record has ID %s, but it must be %s\n%s", id, m.id, w.history())
	}
	if r.LogID != l.id {
		t.Fatalf("the record %s of the log %s has LogID=%s", r.ID, l.id, r.LogID)
	}
	if r.CreatedAt == nil || !r.CreatedAt.AsTime().Equal(ulid.Time(id.Time())) {
		t.Fatalf("the record %s has the creation time %v", r.ID, r.CreatedAt)
	}
}

// page makes the query and checks that the result is a correct page of exp: the records of the log to be returned in the order of the direction
func (w *world) page(l *mlog, q storage.QueryRecordsRequest, exp []*mrec) (int, bool) {
	t := w.t
	q.LogID = l.id
	recs, more, err := w.st.Log.QueryRecords(ev.Ctx(), q)
	if err != nil {
		t.Fatalf("query %+v failed: %v\n%s", q, err, w.history())
	}
	limit := max(0, min(int(q.Limit), w.cfg.MaxRecs))
	if len(recs) > limit {
		t.Fatalf("query %+v: %d records are returned, the limit is %d\n%s", q, len(recs), limit, w.history())
	}
	if len(recs) > len(exp) {
		t.Fatalf("query %+v: %d records are returned, but only %d are there. The first excessive one is %s\n%s", q, len(recs), len(exp), recs[len(exp)].ID, w.history())
	}
	size := 0
	for i, r := range recs {
		if i > 0 && size >= w.cfg.MaxBunch {
			t.Fatalf("query %+v: the size of the page exceeds %d by more than its last record\n%s", q, w.cfg.MaxBunch, w.history())
		}
		w.checkRec(l, r, exp[i])
		size += len(r.Payload)
	}
	if len(recs) < min(limit, len(exp)) {
		if len(recs) == 0 || size < w.cfg.MaxBunch {
			t.Fatalf("query %+v: the page has %d records of %d bytes, but there are %d ones to return\n%s", q, len(recs), size, len(exp), w.history())
		}
	}
	if !more && len(recs) < len(exp) {
		t.Fatalf("query %+v: no more records are promised after %d records, but %d must be left\n%s", q, len(recs), len(exp)-len(recs), w.history())
	}
	return len(recs), more
}

// readAll reads everything by pages, starting from the position
func (w *world) readAll(l *mlog, q storage.QueryRecordsRequest, exp []*mrec) (pages int) {
	t := w.t
	for {
		n, more := w.page(l, q, exp)
		pages++
		exp2 := exp[n:]
		if !more {
			return
		}
		if n == 0 {
			if len(exp2) > 0 {
				t.Fatalf("query %+v: no progress", q)
			}
			return
		}
		q.StartID = step(exp[n-1].id, q.Descending).String()
		if len(exp2) == 0 && pages > 0 {
			// more is allowed to be true potentially: nothing must be there then
			if n, _ := w.page(l, q, exp2); n != 0 {
				t.Fatalf("not reachable")
			}
			return
		}
		exp = exp2
	}
}

// step returns the neighbour of the ID
func step(id ulid.ULID, desc bool) ulid.ULID {
	for i := len(id) - 1; i >= 0; i-- {
		if desc {
			id[i]--
			if id[i] != 0xff {
				break
			}
		} else {
			id[i]++
			if id[i] != 0 {
				break
			}
		}
	}
	return id
}

// expected returns the records of the log starting from the ID in the order of the direction, which satisfy the filter
func (l *mlog) expected(start string, desc bool, f func(m *mrec) bool) []*mrec {
	var sid ulid.ULID
	if start != "" {
		sid = ulid.MustParse(start)
	}
	var res []*mrec
	for i := range l.recs {
		m := &l.recs[i]
		if start != "" && (!desc && m.id.Compare(sid) < 0 || desc && m.id.Compare(sid) > 0) {
			continue
		}
		if f == nil || f(m) {
			res = append(res, m)
		}
	}
	if desc {
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// verify reads the log completely and compares with the model
func (w *world) verify(l *mlog, desc bool, limit int64) {
	w.trace = append(w.trace, fmt.Sprintf("read(%s,desc=%t,lim=%d)", l.id[22:], desc, limit))
	w.readAll(l, storage.QueryRecordsRequest{Descending: desc, Limit: limit}, l.expected("", desc, nil))
	for i := 1; i < len(l.recs); i++ {
		if l.recs[i-1].id.Compare(l.recs[i].id) >= 0 {
			w.t.Fatalf("IDs of records do not increase: %s, %s", l.recs[i-1].id, l.recs[i].id)
		}
	}
}

// learn reads the logs for knowing all IDs of the records
func (w *world) learn() {
	for _, l := range w.logs {
		w.verify(l, false, 10000)
	}
}

func (w *world) checkUnique() {
	seen := map[ulid.ULID]string{}
	for _, l := range w.logs {
		for _, r := range l.recs {
			if o, ok := seen[r.id]; ok {
				w.t.Fatalf("the ID %s is met in the log %s and in %s", r.id, o, l.id)
			}
			seen[r.id] = l.id
		}
	}
}

// checkFiles checks the sizes of the chunk files, and that every chunk of the catalogue has the file and vice versa
func (w *world) checkFiles() {
	files := w.st.ChunkFiles()
	known := map[string]bool{}
	for _, l := range w.logs {
		cis, err := w.st.Meta.GetChunks(ev.Ctx(), l.id)
		if err != nil {
			w.t.Fatalf("GetChunks failed: %v", err)
		}
		for _, ci := range cis {
			known[w.st.Prov.GetFileNameByID(ci.ID)] = true
		}
	}
	for fn, size := range files {
		if size > w.cfg.Max {
			w.t.Fatalf("the chunk file %s has %d bytes, the maximum is %d\n%s", fn, size, w.cfg.Max, w.history())
		}
		if !known[fn] {
			w.t.Fatalf("the file %s (%d bytes) does not belong to any log\n%s", fn, size, w.history())
		}
	}
	for fn := range known {
		if _, err := os.Stat(fn); err != nil {
			w.t.Fatalf("no file of the chunk: %v\n%s", err, w.history())
		}
	}
}

// genID generates an ID for starting from
func (w *world) genID(l *mlog) ulid.ULID {
	t := w.t
	var maxID ulid.ULID
	for i := range maxID {
		maxID[i] = 0xff
	}
	k := rapid.IntRange(0, 9).Draw(t, "idKind")
	if len(l.recs) == 0 && k < 8 {
		k = 8
	}
	switch {
	case k <= 3:
		return rapid.SampledFrom(l.recs).Draw(t, "rec").id
	case k <= 5:
		return step(rapid.SampledFrom(l.recs).Draw(t, "rec").id, rapid.Bool().Draw(t, "prev"))
	case k == 6: // chunk borders
		cis, err := w.st.Meta.GetChunks(ev.Ctx(), l.id)
		if err != nil || len(cis) == 0 {
			t.Fatalf("could not get chunks of the log with records: %v", err)
		}
		ci := rapid.SampledFrom(cis).Draw(t, "chunk")
		id := ci.Min
		if rapid.Bool().Draw(t, "max") {
			id = ci.Max
		}
		switch rapid.IntRange(0, 2).Draw(t, "step") {
		case 0:
			return step(id, true)
		case 1:
			return step(id, false)
		}
		return id
	case k == 7: // another entropy at the time of a record
		id := rapid.SampledFrom(l.recs).Draw(t, "rec").id
		e := rapid.SliceOfN(rapid.Byte(), 10, 10).Draw(t, "entropy")
		_ = id.SetEntropy(e)
		return id
	case k == 8:
		var id ulid.ULID
		switch rapid.IntRange(0, 2).Draw(t, "limits") {
		case 0:
			return maxID
		case 1:
			id[15] = 1
			return id
		}
		return id
	default: // an ID of another log, or of the current time
		o := rapid.SampledFrom(w.logs).Draw(t, "other")
		if len(o.recs) > 0 {
			return rapid.SampledFrom(o.recs).Draw(t, "rec").id
		}
		return ulid.Make()
	}
}

func genLimit(t *rapid.T) int64 {
	return rapid.SampledFrom([]int64{1, 1, 2, 3, 5, 10, 1000, 100000, 1 << 40}).Draw(t, "limit")
}

// fill appends some records, so that IDs get different times
func (w *world) fill(maxRounds, maxBatch int, spread bool, small bool) {
	t := w.t
	n := rapid.IntRange(1, maxRounds).Draw(t, "rounds")
	for i := 0; i < n; i++ {
		l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
		w.append(l, w.genSizes(l, maxBatch, small))
		if spread && rapid.Bool().Draw(t, "wait") {
			time.Sleep(time.Duration(rapid.IntRange(1, 3).Draw(t, "ms")) * time.Millisecond)
		}
		if rapid.IntRange(0, 9).Draw(t, "reopen") == 0 {
			w.reopen()
		}
	}
}

func (w *world) chunks(l *mlog) int {
	cis, _ := w.st.Meta.GetChunks(ev.Ctx(), l.id)
	return len(cis)
}

func sorted(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}
