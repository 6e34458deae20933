package meta

import (
	"context"
	"encoding/binary"
	"fmt"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"solverif/ev"
	"solverif/pgfake"
	"solverif/qlgen"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	rawdb "github.com/tidwall/buntdb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// mlog is a log of the model
type mlog struct {
	id               string
	tags             map[string]string
	created, updated time.Time
	marked           bool
	chunks           map[string]logfs.ChunkInfo
}

// leaf is a comparison of a log condition
type leaf struct {
	tag, op string
	vals    []string
}

func (l *leaf) eval(m *mlog) bool {
	v := m.id
	if l.tag != "" {
		v = m.tags[l.tag]
	}
	switch l.op {
	case "=":
		return v == l.vals[0]
	case "!=":
		return v != l.vals[0]
	case "<":
		return v < l.vals[0]
	case ">":
		return v > l.vals[0]
	case "<=":
		return v <= l.vals[0]
	case ">=":
		return v >= l.vals[0]
	case "like":
		return strings.HasPrefix(v, strings.TrimSuffix(l.vals[0], "%"))
	case "in":
		return slices.Contains(l.vals, v)
	}
	panic(l.op)
}

var (
	tagNames = []string{"a", "b", "c d"}
	tagVals  = []string{"", "1", "2", "12", "x'y", "\"", "ж%"}
)

func genTags(t *rapid.T) map[string]string {
	if rapid.IntRange(0, 9).Draw(t, "nilTags") == 0 {
		return nil
	}
	res := map[string]string{}
	for _, n := range tagNames {
		if rapid.IntRange(0, 2).Draw(t, "hasTag") > 0 {
			if rapid.IntRange(0, 15).Draw(t, "anyTag") == 0 {
				res[n] = rapid.String().Draw(t, "anyVal")
			} else {
				res[n] = rapid.SampledFrom(tagVals).Draw(t, "tagVal")
			}
		}
	}
	if rapid.IntRange(0, 15).Draw(t, "extra") == 0 {
		res[rapid.String().Draw(t, "anyName")] = rapid.String().Draw(t, "anyVal")
	}
	if rapid.IntRange(0, 49).Draw(t, "burst") == 49 {
		for i := rapid.IntRange(1, 150).Draw(t, "burstLen"); i > 0; i-- {
			res[fmt.Sprintf("tag%d", i)] = strings.Repeat("v", i*i%300)
		}
		res["long"] = strings.Repeat("long '\"", rapid.IntRange(0, 3000).Draw(t, "longLen"))
	}
	return res
}

type store interface {
	storage.Logs
	logfs.LogsMetaStorage
}

// eval3 is the 3-valued logic of SQL: 0 - false, 1 - NULL, 2 - true. The comparison with a tag, which the log
// does not have, is NULL (the known finding)
func eval3(e *qlgen.Expr[leaf], m *mlog) int {
	res := 0
	for _, and := range e.Or {
		a := 2
		for _, tm := range and {
			v := 0
			if tm.Leaf == nil {
				v = eval3(tm.Sub, m)
			} else if _, ok := m.tags[tm.Leaf.tag]; tm.Leaf.tag != "" && !ok {
				v = 1
			} else if tm.Leaf.eval(m) {
				v = 2
			}
			if tm.Not {
				v = 2 - v
			}
			a = min(a, v)
		}
		res = max(res, a)
	}
	return res
}

type catalogue struct {
	t          *rapid.T
	db         store
	bdb        *buntdb.Storage
	pg         *pgfake.DB // the database, if the storage is the one over PostgreSQL
	file       string
	logs       map[string]*mlog
	ids        []string // all the IDs which ever existed, ascending
	trace      []string
	ctx        context.Context
	withChunks bool            // the chunks are checked
	chunkIDs   map[string]bool // the chunk IDs which are log IDs
	// what was met
	multiPage, markedSeen, restarted, chunked, physical bool
	faults                                              int
}

func (c *catalogue) logf(format string, args ...any) {
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

func (c *catalogue) fatalf(format string, args ...any) {
	c.t.Helper()
	c.t.Fatalf("%s\n\t%s", fmt.Sprintf(format, args...), strings.Join(c.trace, "\n\t"))
}

// eval tells whether the log has to be selected
func (c *catalogue) eval(e *qlgen.Expr[leaf], m *mlog) bool {
	if c.pg != nil {
		return eval3(e, m) == 2
	}
	return e.Eval(func(l *leaf) bool { return l.eval(m) })
}

// tags returns generated tags
func (c *catalogue) tags() map[string]string {
	res := genTags(c.t)
	if c.pg == nil {
		return res
	}
	for k, v := range res { // NUL cannot be stored
		delete(res, k)
		res[strings.ReplaceAll(k, "\x00", "0")] = strings.ReplaceAll(v, "\x00", "0")
	}
	return res
}

// faulty tells whether a failure is injected into the operation, which makes the function fail then. The
// statements of the operation before the failed one work.
func (c *catalogue) faulty() bool {
	if c.pg == nil || rapid.IntRange(0, 9).Draw(c.t, "faulty") > 0 {
		return false
	}
	skip := rapid.IntRange(0, 2).Draw(c.t, "skipStatements")
	rows := rapid.IntRange(0, 4).Draw(c.t, "rowsToFail")
	c.pg.Fault = func(string) int {
		if skip > 0 {
			skip--
			return -1
		}
		return rows
	}
	return true
}

// faultOver checks that the operation, which met a failure, has reported it. It returns true, if it was so
func (c *catalogue) faultOver(faulty bool, what string, err error) bool {
	if !faulty {
		return false
	}
	c.pg.Fault = nil
	if c.pg.Faults == c.faults {
		return false
	}
	c.faults = c.pg.Faults
	if err == nil || errors.Is(err, errors.ErrNotExist) || errors.Is(err, errors.ErrInvalid) || errors.Is(err, errors.ErrExist) {
		c.fatalf("%s: a statement failed, but the result is %v", what, err)
	}
	c.logf("%s failed: %v", what, err)
	return true
}

func (c *catalogue) open() {
	if c.pg != nil {
		c.db = postgres.NewStorage(&postgres.Db{DB: c.pg.DB})
		return
	}
	c.bdb = buntdb.NewStorage(buntdb.Config{DBFilePath: c.file})
	c.db = c.bdb
	if err := c.bdb.Init(c.ctx); err != nil {
		c.fatalf("could not open the storage: %v", err)
	}
}

// anyID returns an ID of a log: mostly a known one
func (c *catalogue) anyID() string {
	t := c.t
	if len(c.ids) == 0 || rapid.IntRange(0, 6).Draw(t, "unknown") == 0 {
		if len(c.ids) > 0 && rapid.Bool().Draw(t, "similar") {
			id := c.ids[rapid.IntRange(0, len(c.ids)-1).Draw(t, "similarTo")]
			return rapid.SampledFrom([]string{id[:len(id)-1], id + "0", id[1:], strings.ToLower(id)}).Draw(t, "similarID")
		}
		return rapid.SampledFrom([]string{"0", "unknown", "zzzzzzzzzzzzzzzzzzzzzzzzzz", "00000000000000000000000000", "/"}).Draw(t, "unknownID")
	}
	return c.ids[rapid.IntRange(0, len(c.ids)-1).Draw(t, "idIdx")]
}

func (c *catalogue) close() {
	if c.bdb != nil {
		c.bdb.Shutdown()
	}
}

func (c *catalogue) live(id string) *mlog {
	if m := c.logs[id]; m != nil && !m.marked {
		return m
	}
	return nil
}

func (c *catalogue) cond() (*qlgen.Expr[leaf], string) {
	t := c.t
	e := qlgen.Gen(t, 2, func(t *rapid.T) leaf {
		var l leaf
		if rapid.IntRange(0, 3).Draw(t, "byID") > 0 {
			l.tag = rapid.SampledFrom(append([]string{"no"}, tagNames...)).Draw(t, "condTag")
		}
		val := func() string {
			if l.tag == "" && len(c.ids) > 0 {
				return c.anyID()
			}
			return rapid.SampledFrom(tagVals[:len(tagVals)-1]).Draw(t, "condVal")
		}
		l.op = rapid.SampledFrom([]string{"=", "!=", "<", ">", "<=", ">=", "like", "in", "in"}).Draw(t, "condOp")
		switch l.op {
		case "like":
			l.vals = []string{val() + "%"}
		case "in":
			for i := rapid.IntRange(1, 4).Draw(t, "inLen"); i > 0; i-- {
				l.vals = append(l.vals, val())
			}
		default:
			l.vals = []string{val()}
		}
		return l
	})
	text := qlgen.Plain(e.Tokens(func(l *leaf) []string {
		res := []string{"logID"}
		if l.tag != "" {
			res = []string{"tag", "(", qlgen.QuoteWith(l.tag, '\''), ")"}
		}
		res = append(res, strings.ToUpper(l.op))
		if l.op == "in" {
			res = append(res, "[")
			for i, v := range l.vals {
				if i > 0 {
					res = append(res, ",")
				}
				res = append(res, qlgen.QuoteWith(v, '\''))
			}
			return append(res, "]")
		}
		return append(res, qlgen.QuoteWith(l.vals[0], '\''))
	}))
	return e, text
}

// checkLog compares the log with its model
func (c *catalogue) checkLog(what string, l *solaris.Log, m *mlog) {
	c.t.Helper()
	if l == nil || l.ID != m.id || len(l.Tags) != len(m.tags) || !l.CreatedAt.AsTime().Equal(m.created) || !l.UpdatedAt.AsTime().Equal(m.updated) {
		c.fatalf("%s: got the log %v, expected %v", what, l, *m)
	}
	for k, v := range m.tags {
		if v1, ok := l.Tags[k]; !ok || v1 != v {
			c.fatalf("%s: the log %s has the tags %q, expected %q", what, l.ID, l.Tags, m.tags)
		}
	}
}

func cloneTags(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	res := map[string]string{}
	for k, v := range m {
		res[k] = v
	}
	return res
}

func (c *catalogue) create() {
	tags := c.tags()
	in := &solaris.Log{Tags: cloneTags(tags)}
	if rapid.IntRange(0, 4).Draw(c.t, "foreignFields") == 0 && len(c.ids) > 0 {
		// the fields, which are set by the storage
		in.ID = c.anyID()
		in.CreatedAt = timestamppb.New(time.Unix(1000, 0))
		in.UpdatedAt = in.CreatedAt
	}
	start := time.Now()
	faulty := c.faulty()
	l, err := c.db.CreateLog(c.ctx, in)
	if c.faultOver(faulty, "create", err) {
		return
	}
	if err != nil {
		c.fatalf("create %q: %v", tags, err)
	}
	end := time.Now()
	c.logf("create %q -> %s", tags, l.ID)
	if _, err := ulid.ParseStrict(l.ID); err != nil || slices.Contains(c.ids, l.ID) || (len(c.ids) > 0 && c.ids[len(c.ids)-1] >= l.ID) {
		c.fatalf("the new ID %s is not fresh", l.ID)
	}
	m := &mlog{id: l.ID, tags: tags, created: l.CreatedAt.AsTime(), updated: l.UpdatedAt.AsTime(), chunks: map[string]logfs.ChunkInfo{}}
	if m.created.Before(start.Add(-time.Millisecond)) || m.created.After(end.Add(time.Millisecond)) || !m.created.Equal(m.updated) {
		c.fatalf("wrong times of the new log: %v", l)
	}
	c.checkLog("create", l, m)
	// the values are of the caller
	l.Tags = map[string]string{"spoiled": "1"}
	in.Tags = nil
	c.logs[m.id] = m
	c.ids = append(c.ids, m.id)
}

func (c *catalogue) get(id string) {
	faulty := c.faulty()
	l, err := c.db.GetLogByID(c.ctx, id)
	if c.faultOver(faulty, "get", err) {
		return
	}
	m := c.live(id)
	if m == nil {
		if !errors.Is(err, errors.ErrNotExist) {
			c.fatalf("get %q: expected ErrNotExist, got %v %v", id, l, err)
		}
		return
	}
	if err != nil {
		c.fatalf("get %q: %v", id, err)
	}
	c.checkLog("get", l, m)
}

func (c *catalogue) update() {
	id := c.anyID()
	tags := c.tags()
	in := &solaris.Log{ID: id, Tags: cloneTags(tags)}
	if rapid.IntRange(0, 3).Draw(c.t, "foreignTimes") == 0 {
		in.CreatedAt = timestamppb.New(time.Unix(1000, 0))
		in.UpdatedAt = in.CreatedAt
	}
	start := time.Now()
	faulty := c.faulty()
	l, err := c.db.UpdateLog(c.ctx, in)
	if c.faultOver(faulty, "update", err) {
		return
	}
	c.logf("update %s %q -> %v", id, tags, err)
	m := c.live(id)
	if m == nil {
		if !errors.Is(err, errors.ErrNotExist) {
			c.fatalf("update %q: expected ErrNotExist, got %v %v", id, l, err)
		}
		return
	}
	if err != nil {
		c.fatalf("update %q: %v", id, err)
	}
	m.tags = tags
	m.updated = l.UpdatedAt.AsTime()
	if m.updated.Before(start.Add(-time.Millisecond)) || m.updated.After(time.Now().Add(time.Millisecond)) {
		c.fatalf("update %s at %v sets the time %v", id, start, m.updated)
	}
	c.checkLog("update", l, m)
}

// query reads all the pages and compares with the model
func (c *catalogue) query() {
	t := c.t
	var req storage.QueryLogsRequest
	match := func(*mlog) bool { return true }
	if rapid.Bool().Draw(t, "byIDs") {
		for i := rapid.IntRange(1, 8).Draw(t, "nIDs"); i > 0; i-- {
			req.IDs = append(req.IDs, c.anyID())
		}
		ids := slices.Clone(req.IDs)
		match = func(m *mlog) bool { return slices.Contains(ids, m.id) }
		if rapid.Bool().Draw(t, "alsoCond") {
			req.Condition = "disregarded"
		}
	} else if rapid.IntRange(0, 3).Draw(t, "hasCond") > 0 {
		e, text := c.cond()
		req.Condition = text
		match = func(m *mlog) bool { return c.eval(e, m) }
	}
	req.Limit = rapid.SampledFrom([]int64{1, 1, 2, 2, 3, 5, 1000, 5000, 0, -1, -1 << 63, 1<<63 - 1}).Draw(t, "limit")
	if len(c.ids) > 500 {
		req.Limit = rapid.SampledFrom([]int64{0, 300, 999, 1000, 1001, 5000}).Draw(t, "bigLimit")
	}
	var want []string
	for _, id := range c.ids {
		if m := c.live(id); m != nil && match(m) {
			want = append(want, id)
		}
		if m := c.logs[id]; m != nil && m.marked {
			c.markedSeen = true
		}
	}
	effLimit := 50 // the default
	if req.Limit > 0 {
		effLimit = int(min(req.Limit, 1000))
	}
	total := len(want)
	if rapid.IntRange(0, 4).Draw(t, "fromPage") == 0 && len(c.ids) > 0 {
		req.Page = c.anyID() // it is the first ID of the page
		for len(want) > 0 && want[0] < req.Page {
			want = want[1:]
		}
	}
	c.logf("query %+v, expected %v", req, want)
	orig := slices.Clone(req.IDs)
	for n := 0; ; n++ {
		faulty := c.faulty()
		r, err := c.db.QueryLogs(c.ctx, req)
		if c.faultOver(faulty, "query", err) {
			continue // the page is read again
		}
		if err != nil {
			c.fatalf("the query %+v failed: %v", req, err)
		}
		if !slices.Equal(orig, req.IDs) {
			c.fatalf("the request is changed: %q -> %q", orig, req.IDs)
		}
		if r.Total != int64(total) {
			c.fatalf("the total of %+v is %d, expected %d", req, r.Total, total)
		}
		exp := want[:min(len(want), effLimit)]
		want = want[len(exp):]
		if len(r.Logs) != len(exp) {
			c.fatalf("the page %d of %+v: %d logs, expected %d", n, req, len(r.Logs), len(exp))
		}
		for i, l := range r.Logs {
			if l.ID != exp[i] {
				c.fatalf("the page %d of %+v: the log %s instead of %s", n, req, l.ID, exp[i])
			}
			c.checkLog("query", l, c.logs[l.ID])
		}
		if len(want) == 0 {
			if r.NextPageID != "" {
				c.fatalf("the next page %q of %+v, but everything is returned", r.NextPageID, req)
			}
			return
		}
		if r.NextPageID == "" {
			c.fatalf("no next page of %+v, but not everything is returned", req)
		}
		c.multiPage = true
		req.Page = r.NextPageID
	}
}

func (c *catalogue) delete() {
	t := c.t
	var req storage.DeleteLogsRequest
	req.MarkOnly = rapid.IntRange(0, 2).Draw(t, "mark") > 0
	match := func(*mlog) bool { return false }
	if rapid.IntRange(0, 2).Draw(t, "delByIDs") > 0 {
		for i := rapid.IntRange(1, 3).Draw(t, "nDelIDs"); i > 0; i-- {
			req.IDs = append(req.IDs, c.anyID())
		}
		match = func(m *mlog) bool { return slices.Contains(req.IDs, m.id) }
	} else if rapid.IntRange(0, 9).Draw(t, "delHasCond") > 0 {
		e, text := c.cond()
		req.Condition = text
		match = func(m *mlog) bool { return c.eval(e, m) }
	}
	var want []string
	for _, id := range c.ids {
		m := c.logs[id]
		if m == nil || !match(m) || req.MarkOnly && m.marked {
			continue
		}
		want = append(want, id)
	}
	start := time.Now()
	faulty := c.faulty()
	r, err := c.db.DeleteLogs(c.ctx, req)
	if c.faultOver(faulty, "delete", err) {
		return
	}
	if err != nil {
		c.fatalf("delete %+v: %v", req, err)
	}
	got := slices.Clone(r.DeletedIDs)
	sort.Strings(got)
	c.logf("delete %+v -> %v", req, got)
	if !slices.Equal(got, want) {
		c.fatalf("delete %+v: reported %v, expected %v", req, got, want)
	}
	_ = start
	for _, id := range want {
		if req.MarkOnly {
			c.logs[id].marked = true
		} else {
			delete(c.logs, id)
			c.physical = true
		}
	}
}

func (c *catalogue) maxRecs() int {
	if c.pg != nil {
		return 1<<31 - 1
	}
	return 1 << 40
}

func (c *catalogue) upsert() {
	t := c.t
	id := c.anyID()
	var cis []logfs.ChunkInfo
	for i := rapid.IntRange(0, 3).Draw(t, "nChunks"); i > 0; i-- {
		ci := logfs.ChunkInfo{ID: fmt.Sprintf("%02d", rapid.IntRange(0, 12).Draw(t, "chunk")), RecordsCount: rapid.IntRange(0, c.maxRecs()).Draw(t, "recs")}
		if rapid.Bool().Draw(t, "ulidID") {
			ci.ID = ulid.ULID{0, 1, 2, byte(rapid.IntRange(0, 3).Draw(t, "ulidByte"))}.String()
		}
		if rapid.IntRange(0, 5).Draw(t, "likeLog") == 0 {
			ci.ID = c.anyID() // the ID of a log
			if c.chunkIDs == nil {
				c.chunkIDs = map[string]bool{}
			}
			c.chunkIDs[ci.ID] = true
			if ci.ID == "/" {
				ci.ID = "0"
			}
		}
		copy(ci.Min[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "minID"))
		copy(ci.Max[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "maxID"))
		cis = append(cis, ci)
	}
	if rapid.IntRange(0, 39).Draw(t, "burst") == 39 {
		for i, n := 0, rapid.IntRange(20, 400).Draw(t, "burstLen"); i < n; i++ {
			ci := logfs.ChunkInfo{ID: fmt.Sprintf("%03d", i*7%n), RecordsCount: i}
			binary.BigEndian.PutUint32(ci.Min[:], uint32(2*i))
			binary.BigEndian.PutUint32(ci.Max[:], uint32(2*i+1))
			cis = append(cis, ci)
		}
	}
	blank := -1
	if rapid.IntRange(0, 15).Draw(t, "blankChunk") == 0 && len(cis) > 0 {
		blank = rapid.IntRange(0, len(cis)-1).Draw(t, "blankIdx")
		cis[blank].ID = rapid.SampledFrom([]string{"", " "}).Draw(t, "blankID")
	}
	faulty := c.faulty()
	err := c.db.UpsertChunkInfos(c.ctx, id, cis)
	if c.faultOver(faulty, "upsert", err) {
		return
	}
	c.logf("upsert %s %v -> %v", id, cis, err)
	m := c.live(id)
	switch {
	case m == nil:
		if !errors.Is(err, errors.ErrNotExist) {
			c.fatalf("upsert to %q: expected ErrNotExist, got %v", id, err)
		}
	case blank >= 0:
		if !errors.Is(err, errors.ErrInvalid) {
			c.fatalf("upsert of a blank chunk ID: expected ErrInvalid, got %v", err)
		}
	case err != nil:
		c.fatalf("upsert to %q: %v", id, err)
	default:
		for _, ci := range cis {
			m.chunks[ci.ID] = ci
		}
	}
	for i := range cis {
		cis[i] = logfs.ChunkInfo{ID: "spoiled"}
	}
}

func (c *catalogue) chunks(id string) {
	m := c.live(id)
	faulty := c.faulty()
	cis, err := c.db.GetChunks(c.ctx, id)
	if c.faultOver(faulty, "chunks", err) {
		return
	}
	faulty = c.faulty()
	last, err1 := c.db.GetLastChunk(c.ctx, id)
	if c.faultOver(faulty, "last chunk", err1) {
		return
	}
	if m == nil {
		if !errors.Is(err, errors.ErrNotExist) || !errors.Is(err1, errors.ErrNotExist) {
			c.fatalf("chunks of %q: expected ErrNotExist, got %v %v, last %v %v", id, cis, err, last, err1)
		}
		return
	}
	if err != nil {
		c.fatalf("chunks of %q: %v", id, err)
	}
	var want []logfs.ChunkInfo
	for _, ci := range m.chunks {
		want = append(want, ci)
	}
	sort.Slice(want, func(i, j int) bool { return want[i].ID < want[j].ID })
	if len(want) != len(cis) || len(want) > 0 && !reflect.DeepEqual(want, cis) {
		c.fatalf("chunks of %q: got %v, expected %v", id, cis, want)
	}
	if len(want) == 0 {
		if !errors.Is(err1, errors.ErrNotExist) {
			c.fatalf("last chunk of %q: expected ErrNotExist, got %v %v", id, last, err1)
		}
		return
	}
	c.chunked = c.chunked || len(want) > 1
	if err1 != nil || last != want[len(want)-1] {
		c.fatalf("last chunk of %q: got %v %v, expected %v", id, last, err1, want[len(want)-1])
	}
}

func (c *catalogue) all() {
	for _, id := range c.ids {
		c.get(id)
		if c.withChunks {
			c.chunks(id)
		}
	}
}

// pgHistory is the history of a storage over a stand-in for PostgreSQL
func pgHistory(t *rapid.T, ops []string) *catalogue {
	c := newCatalogue(t, ops)
	c.pg = pgfake.New()
	defer c.pg.Drop()
	c.open()
	c.steps(ops, true)
	c.all()
	return c
}

func newCatalogue(t *rapid.T, ops []string) *catalogue {
	return &catalogue{t: t, logs: map[string]*mlog{}, ctx: ev.Ctx(), withChunks: slices.Contains(ops, "chunks")}
}

func history(t *rapid.T, ops []string) *catalogue {
	dir, clean := ev.Dir(t)
	defer clean()
	c := newCatalogue(t, ops)
	c.file = filepath.Join(dir, "meta.db")
	inmem := rapid.Bool().Draw(t, "inmem")
	if inmem {
		c.file = rapid.SampledFrom([]string{"", ":memory:"}).Draw(t, "memName")
	}
	c.open()
	defer c.close()
	c.steps(ops, !inmem)
	c.all()
	if !inmem && c.withChunks {
		c.leftovers()
	}
	return c
}

func (c *catalogue) steps(ops []string, restarts bool) {
	t := c.t
	for i := rapid.IntRange(0, 4).Draw(t, "initial"); i > 0; i-- {
		c.create()
	}
	for i := rapid.IntRange(1, 30).Draw(t, "nops"); i > 0; i-- {
		switch op := rapid.SampledFrom(ops).Draw(t, "op"); op {
		case "create":
			c.create()
		case "get":
			c.get(c.anyID())
		case "update":
			c.update()
		case "query":
			c.query()
		case "delete":
			c.delete()
		case "upsert":
			c.upsert()
		case "chunks":
			c.chunks(c.anyID())
		case "restart":
			if restarts {
				c.close()
				c.logf("restart")
				c.open()
				c.restarted = true
				c.all()
			}
		case "check":
			c.all()
		}
	}
}

// leftovers checks that nothing is kept for the logs which were deleted physically
func (c *catalogue) leftovers() {
	c.close()
	defer c.open()
	raw, err := rawdb.Open(c.file)
	if err != nil {
		c.fatalf("could not open the file: %v", err)
	}
	defer raw.Close()
	_ = raw.View(func(tx *rawdb.Tx) error {
		return tx.Ascend("", func(k, v string) bool {
			for _, id := range c.ids {
				ofChunk := false // an ID of a chunk of another log has it
				for cid := range c.chunkIDs {
					ofChunk = ofChunk || strings.Contains(cid, id)
				}
				if c.logs[id] == nil && !ofChunk && strings.Contains(k, id) {
					c.fatalf("the log %s is deleted, but the key %q is kept", id, k)
				}
			}
			return true
		})
	})
}

// TestCatalogue: P13
func TestCatalogue(t *testing.T) {
	ev.Check(t, "a query had several pages and skipped logs marked as deleted", func(t *rapid.T) {
		c := history(t, []string{"create", "create", "create", "get", "update", "query", "query", "query", "delete", "upsert", "restart", "check"})
		if c.restarted {
			ev.Label(t, "restarted")
		}
		if c.physical {
			ev.Label(t, "physical deletes")
		}
		ev.Case(t, c.multiPage && c.markedSeen, "%s", strings.Join(c.trace, "; "))
	})
}

// TestManyLogs: P13 - more logs than fit into one page of the maximum size
func TestManyLogs(t *testing.T)   { manyLogs(t, false) }
func TestManyLogsPG(t *testing.T) { manyLogs(t, true) }

func manyLogs(t *testing.T, pg bool) {
	ev.Check(t, "more than 1000 logs, several pages of the maximum size", func(t *rapid.T) {
		c := &catalogue{t: t, logs: map[string]*mlog{}, ctx: ev.Ctx(), file: ":memory:"}
		if pg {
			c.pg = pgfake.New()
			defer c.pg.Drop()
		}
		c.open()
		defer c.close()
		n := rapid.IntRange(990, 2050).Draw(t, "logs")
		parity := rapid.IntRange(1, 3).Draw(t, "parity")
		for i := 0; i < n; i++ {
			m := &mlog{tags: map[string]string{"a": fmt.Sprint(i % parity)}, chunks: map[string]logfs.ChunkInfo{}}
			l, err := c.db.CreateLog(c.ctx, &solaris.Log{Tags: m.tags})
			if err != nil {
				t.Fatal(err)
			}
			m.id, m.created, m.updated = l.ID, l.CreatedAt.AsTime(), l.UpdatedAt.AsTime()
			c.logs[m.id] = m
			c.ids = append(c.ids, m.id)
		}
		for i := rapid.IntRange(1, 4).Draw(t, "nops"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(t, "big") > 0 {
				c.query()
				continue
			}
			// everything with the same tag is deleted
			v := fmt.Sprint(rapid.IntRange(0, 2).Draw(t, "delTag"))
			req := storage.DeleteLogsRequest{Condition: "tag('a') = '" + v + "'", MarkOnly: rapid.Bool().Draw(t, "delMark")}
			var want []string
			for _, id := range c.ids {
				if m := c.logs[id]; m != nil && m.tags["a"] == v && !(m.marked && req.MarkOnly) {
					want = append(want, id)
				}
			}
			r, err := c.db.DeleteLogs(c.ctx, req)
			if err != nil {
				t.Fatalf("delete %+v: %v", req, err)
			}
			sort.Strings(r.DeletedIDs)
			if !slices.Equal(r.DeletedIDs, want) {
				t.Fatalf("delete %+v of %d logs reports %d logs", req, len(want), len(r.DeletedIDs))
			}
			for _, id := range want {
				if req.MarkOnly {
					c.logs[id].marked = true
				} else {
					delete(c.logs, id)
				}
			}
			c.logf("delete %+v -> %d", req, len(want))
		}
		ev.Case(t, n > 1000, "%d logs, parity %d, %d steps", n, parity, len(c.trace))
	})
}

// TestChunkCatalogue: P14
func TestChunkCatalogue(t *testing.T) {
	ev.Check(t, "a log had several chunks, logs were deleted physically or the storage was restarted", func(t *rapid.T) {
		c := history(t, []string{"create", "upsert", "upsert", "upsert", "upsert", "chunks", "chunks", "delete", "restart", "check"})
		if c.restarted {
			ev.Label(t, "restarted")
		}
		if c.physical {
			ev.Label(t, "physical deletes")
		}
		ev.Case(t, c.chunked && (c.restarted || c.physical), "%s", strings.Join(c.trace, "; "))
	})
}

// TestCataloguePG: P13
func TestCataloguePG(t *testing.T) {
	ev.Check(t, "a query had several pages and skipped logs marked as deleted", func(t *rapid.T) {
		c := pgHistory(t, []string{"create", "create", "create", "get", "update", "query", "query", "query", "delete", "upsert", "check"})
		if c.faults > 0 {
			ev.Label(t, "failures of the database")
		}
		if c.physical {
			ev.Label(t, "physical deletes")
		}
		ev.Case(t, c.multiPage && c.markedSeen, "%s", strings.Join(c.trace, "; "))
	})
}

// TestChunkCataloguePG: P14
func TestChunkCataloguePG(t *testing.T) {
	ev.Check(t, "a log had several chunks, logs were deleted physically", func(t *rapid.T) {
		c := pgHistory(t, []string{"create", "upsert", "upsert", "upsert", "upsert", "chunks", "chunks", "delete", "check"})
		if c.faults > 0 {
			ev.Label(t, "failures of the database")
		}
		ev.Case(t, c.chunked && c.physical, "%s", strings.Join(c.trace, "; "))
	})
}
