package locallog

import (
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"pgregory.net/rapid"
)

// TestAppendRead: P01 - random histories of appends, reads and restarts against the model
func TestAppendRead(t *testing.T) {
	ev.Check(t, "at least two logs have records, and the records are in more than one chunk, or the storage was reopened", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg, rapid.IntRange(1, 4).Draw(t, "logs"), stack.Opts{})
		defer w.close()
		for n := rapid.IntRange(1, 25).Draw(t, "ops"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
			case k <= 5:
				w.append(l, w.genSizes(l, 12, false))
			case k <= 7:
				w.verify(l, rapid.Bool().Draw(t, "desc"), genLimit(t))
			case k == 8:
				w.reopen()
			default:
				time.Sleep(time.Millisecond)
			}
		}
		if rapid.Bool().Draw(t, "finalReopen") {
			w.reopen()
		}
		withRecs := 0
		for _, l := range w.logs {
			w.verify(l, false, genLimit(t))
			w.verify(l, true, genLimit(t))
			if len(l.recs) > 0 {
				withRecs++
			}
		}
		w.checkUnique()
		ev.Case(t, withRecs > 1 && (w.splits > 0 || w.reopens > 0), "%s", w.history())
	})
}

// TestPages: P02
func TestPages(t *testing.T) {
	ev.Check(t, "the log has more than one chunk, the start ID is inside of the log and the page does not have all the records", func(t *rapid.T) {
		cfg := stack.GenCfg(t)
		w := newWorld(t, cfg, rapid.IntRange(1, 2).Draw(t, "logs"), stack.Opts{})
		defer w.close()
		w.fill(10, 15, false, false)
		w.learn()
		for n := rapid.IntRange(1, 10).Draw(t, "queries"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			q := storage.QueryRecordsRequest{Descending: rapid.Bool().Draw(t, "desc"), Limit: genLimit(t)}
			if rapid.IntRange(0, 9).Draw(t, "withStart") > 0 {
				q.StartID = w.genID(l).String()
			}
			if rapid.IntRange(0, 19).Draw(t, "noLimit") == 0 {
				q.Limit = rapid.SampledFrom([]int64{0, -1, -100}).Draw(t, "nonPositive")
			}
			exp := l.expected(q.StartID, q.Descending, nil)
			pages := 0
			if q.Limit > 0 && rapid.Bool().Draw(t, "all") {
				pages = w.readAll(l, q, exp)
			} else {
				w.page(l, q, exp)
			}
			ev.Case(t, w.chunks(l) > 1 && len(exp) > 0 && len(exp) < len(l.recs) && (pages > 1 || int(q.Limit) < len(exp)),
				"%d chunks, %d records, %+v -> %d, pages=%d, cfg=%s", w.chunks(l), len(l.recs), q, len(exp), pages, cfg)
		}
		// wrong IDs
		bad := rapid.SampledFrom([]string{" ", "abc", "01HQ", "0123456789012345678901234567", "zzz"}).Draw(t, "badID")
		l := w.logs[0]
		if len(l.recs) > 0 {
			if _, _, err := w.st.Log.QueryRecords(ev.Ctx(), storage.QueryRecordsRequest{LogID: l.id, Limit: 1, StartID: bad}); !errors.Is(err, errors.ErrInvalid) {
				t.Fatalf("the start ID %q must be reported as invalid: %v", bad, err)
			}
		}
	})
}

func inTime(id ulid.ULID) time.Time { return ulid.Time(id.Time()).UTC() }
