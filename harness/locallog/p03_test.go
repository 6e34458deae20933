package locallog

import (
	"fmt"
	"os"
	"strconv"
	"testing"
	"time"

	"solverif/ev"
	"solverif/qlgen"
	"solverif/stack"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"pgregory.net/rapid"
)

type tleaf struct {
	op string
	tm time.Time
	s  string
}

func (l *tleaf) eval(tm time.Time) bool {
	switch l.op {
	case "<":
		return tm.Before(l.tm)
	case ">":
		return tm.After(l.tm)
	case "<=":
		return !tm.After(l.tm)
	case ">=":
		return !tm.Before(l.tm)
	case "=":
		return tm.Equal(l.tm)
	}
	return !tm.Equal(l.tm)
}

// genCond generates a condition around the times of the records
func (w *world) genCond(l *mlog) (string, func(m *mrec) bool) {
	t := w.t
	if rapid.IntRange(0, 12).Draw(t, "blank") == 0 {
		return rapid.SampledFrom([]string{"", " ", "\t", "\n  "}).Draw(t, "blankText"), nil
	}
	e := qlgen.Gen(t, 3, func(t *rapid.T) tleaf {
		lf := tleaf{op: rapid.SampledFrom([]string{"<", ">", "<=", ">=", "=", "!="}).Draw(t, "op")}
		k := rapid.IntRange(0, 19).Draw(t, "timeKind")
		if len(l.recs) == 0 && k > 0 {
			lf.tm = time.UnixMilli(time.Now().UnixMilli()).UTC()
		} else if k == 0 {
			lf.tm = rapid.SampledFrom([]time.Time{time.Unix(0, 0).UTC(), time.Date(1800, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2069, 12, 31, 23, 59, 59, 0, time.UTC),
				time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2500, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2900, 1, 1, 0, 0, 0, 0, time.UTC)}).Draw(t, "far")
		} else {
			lf.tm = inTime(rapid.SampledFrom(l.recs).Draw(t, "rec").id)
			switch {
			case k <= 9:
			case k <= 13:
				lf.tm = lf.tm.Add(time.Duration(rapid.SampledFrom([]int{-2, -1, 1, 2}).Draw(t, "ms")) * time.Millisecond)
			default:
				lf.tm = lf.tm.Add(time.Duration(rapid.SampledFrom([]int{-999999, -500000, -1, 1, 300000, 500000, 700000, 999999, 1000001}).Draw(t, "ns")))
			}
		}
		texts := []string{}
		if y := lf.tm.Year(); y > 1700 && y < 2200 {
			texts = append(texts, strconv.FormatInt(lf.tm.UnixNano(), 10))
		}
		if lf.tm.Nanosecond()%1000000 == 0 {
			texts = append(texts, lf.tm.Format("2006-01-02T15:04:05.000Z"), lf.tm.In(time.FixedZone("", -5*3600)).Format("2006-01-02T15:04:05.000-07:00"))
		}
		lf.s = rapid.SampledFrom(texts).Draw(t, "text")
		return lf
	})
	text := qlgen.Styled(t, e.Tokens(func(l *tleaf) []string { return []string{"ctime", l.op, qlgen.Quote(t, l.s)} }))
	return text, func(m *mrec) bool {
		tm := inTime(m.id)
		return e.Eval(func(l *tleaf) bool { return l.eval(tm) })
	}
}

func genBudgets(t *rapid.T, c *stack.Cfg) {
	if rapid.IntRange(0, 2).Draw(t, "bigPages") > 0 {
		c.MaxBunch = 1 << 20
		c.MaxRecs = 10000
	}
}

// TestConditions: P03
func TestConditions(t *testing.T) {
	ev.Check(t, "the log has records of several milliseconds, and some of them, but not all, satisfy the condition", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		genBudgets(t, &cfg)
		w := newWorld(t, cfg, rapid.IntRange(1, 2).Draw(t, "logs"), stack.Opts{})
		defer w.close()
		w.fill(10, 8, true, rapid.Bool().Draw(t, "small"))
		w.learn()
		for n := rapid.IntRange(1, 15).Draw(t, "queries"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			q := storage.QueryRecordsRequest{Descending: rapid.Bool().Draw(t, "desc"), Limit: genLimit(t)}
			if rapid.IntRange(0, 2).Draw(t, "withStart") == 0 {
				q.StartID = w.genID(l).String()
			}
			var f func(m *mrec) bool
			q.Condition, f = w.genCond(l)
			exp := l.expected(q.StartID, q.Descending, f)
			w.readAll(l, q, exp)
			if f == nil {
				ev.Label(t, "blank")
			}
			if len(exp) == 0 {
				ev.Label(t, "nothing")
			}
			if w.chunks(l) > 1 {
				ev.Label(t, "chunks")
			}
			ev.Case(t, f != nil && len(exp) > 0 && len(exp) < len(l.expected(q.StartID, q.Descending, nil)) && inTime(l.recs[0].id) != inTime(l.recs[len(l.recs)-1].id),
				"%d chunks, %+v -> %d of %d", w.chunks(l), q, len(exp), len(l.recs))
		}
	})
}

// TestCounts: P04
func TestCounts(t *testing.T) {
	ev.Check(t, "the count is positive, but it is not the total", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg, rapid.IntRange(1, 3).Draw(t, "logs"), stack.Opts{})
		defer w.close()
		w.fill(10, 8, true, rapid.Bool().Draw(t, "small"))
		w.learn()
		broken := map[string]bool{}
		if rapid.IntRange(0, 3).Draw(t, "break") == 0 {
			w.st.Close()
			for fn := range w.st.ChunkFiles() {
				if rapid.Bool().Draw(t, "remove") {
					_ = os.Remove(fn)
					broken[fn] = true
				}
			}
			w.open()
		}
		for n := rapid.IntRange(1, 15).Draw(t, "counts"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			q := storage.QueryRecordsRequest{LogID: l.id, Descending: rapid.Bool().Draw(t, "desc"), Limit: rapid.SampledFrom([]int64{0, 1, 100}).Draw(t, "limit")}
			if rapid.Bool().Draw(t, "withStart") {
				q.StartID = w.genID(l).String()
			}
			var f func(m *mrec) bool
			if rapid.IntRange(0, 2).Draw(t, "withCond") > 0 {
				q.Condition, f = w.genCond(l)
			}
			exp := l.expected(q.StartID, q.Descending, f)
			total, count, err := w.st.Log.CountRecords(ev.Ctx(), q)
			if err != nil && len(broken) == 0 {
				t.Fatalf("count %+v failed: %v", q, err)
			}
			if err == nil && (total != uint64(len(l.recs)) || count != uint64(len(exp))) {
				t.Fatalf("count %+v: got total=%d, count=%d, expected %d, %d (broken: %d files)\n%s", q, total, count, len(l.recs), len(exp), len(broken), w.history())
			}
			if len(broken) > 0 {
				ev.Label(t, fmt.Sprintf("broken, err=%t", err != nil))
			} else if rapid.IntRange(0, 3).Draw(t, "read") == 0 {
				q.Limit = 10000
				w.readAll(l, q, exp)
			}
			ev.Case(t, len(exp) > 0 && len(exp) < len(l.recs), "%d chunks, %+v -> %d of %d, err=%v", w.chunks(l), q, count, total, err != nil)
		}
		for _, s := range []string{"x", "0123456789012345678901234567"} {
			l := w.logs[0]
			if len(l.recs) > 0 {
				if _, _, err := w.st.Log.CountRecords(ev.Ctx(), storage.QueryRecordsRequest{LogID: l.id, StartID: s}); !errors.Is(err, errors.ErrInvalid) {
					t.Fatalf("the start ID %q must be reported as invalid: %v", s, err)
				}
			}
		}
	})
}

// TestFill: P05 on the level of the log
func TestFill(t *testing.T) {
	ev.Check(t, "the log has more than one chunk", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg, rapid.IntRange(1, 2).Draw(t, "logs"), stack.Opts{})
		defer w.close()
		for n := rapid.IntRange(1, 15).Draw(t, "ops"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			w.append(l, w.genSizes(l, 30, false))
			w.checkFiles()
			if rapid.IntRange(0, 9).Draw(t, "reopen") == 0 {
				w.reopen()
				w.checkFiles()
			}
		}
		for _, l := range w.logs {
			w.verify(l, rapid.Bool().Draw(t, "desc"), 10000)
			ev.Case(t, w.chunks(l) > 1, "%s", w.history())
		}
	})
}
