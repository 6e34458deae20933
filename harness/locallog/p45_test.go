package locallog

import (
	"os"
	"strings"
	"testing"

	"solverif/ev"
	"solverif/stack"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"pgregory.net/rapid"
)

// TestFiles: P45 - the files which are opened and mapped in the histories of appends, reads, removals of local chunks and restarts
func TestFiles(t *testing.T) {
	ev.Check(t, "there are more chunks than may be opened, a chunk was removed locally and read again", func(t *rapid.T) {
		defer ev.NoGC()()
		cfg := stack.GenCfg(t)
		cfg.MaxOpened = rapid.IntRange(1, 4).Draw(t, "maxOpened")
		w := newWorld(t, cfg, rapid.IntRange(1, 3).Draw(t, "logs"), stack.Opts{Remote: inmem.NewStorage()})
		defer w.close()
		held := func() {
			t.Helper()
			if bad := ev.HeldOnly(w.dir, func(p string) bool {
				if strings.HasPrefix(p, "meta.db") {
					return true
				}
				fi, err := os.Stat(w.dir + "/" + p)
				return err == nil && !fi.IsDir() && strings.HasPrefix(p, "chunks/") && !strings.Contains(p, ".")
			}); bad != "" {
				t.Fatalf("what is held: %s\n%s", bad, w.history())
			}
			files := map[string]bool{}
			for k := range ev.Held(w.dir) {
				if _, p, _ := strings.Cut(k, ":"); strings.HasPrefix(p, "chunks/") {
					files[p] = true
				}
			}
			if len(files) > cfg.MaxOpened {
				t.Fatalf("%d chunks are opened, the limit is %d: %v\n%s", len(files), cfg.MaxOpened, files, w.history())
			}
		}
		restart := func() {
			w.st.Close()
			if bad := ev.HeldOnly(w.dir, ev.NoFiles); bad != "" {
				t.Fatalf("the storage is closed, but what is held: %s\n%s", bad, w.history())
			}
			w.st = nil
			w.open()
			w.trace = append(w.trace, "restart")
		}
		evicted, many := false, false
		for n := rapid.IntRange(1, 25).Draw(t, "ops"); n > 0; n-- {
			l := w.logs[rapid.IntRange(0, len(w.logs)-1).Draw(t, "log")]
			switch k := rapid.IntRange(0, 11).Draw(t, "op"); {
			case k <= 4:
				w.append(l, w.genSizes(l, 12, false))
			case k <= 6:
				w.verify(l, rapid.Bool().Draw(t, "desc"), genLimit(t))
			case k == 7:
				_, _, err := w.st.Log.CountRecords(ev.Ctx(), storage.QueryRecordsRequest{LogID: l.id, Descending: rapid.Bool().Draw(t, "desc")})
				if err != nil && !errors.Is(err, errors.ErrNotExist) {
					t.Fatalf("count: %v\n%s", err, w.history())
				}
			case k <= 9:
				cis, err := w.st.Meta.GetChunks(ev.Ctx(), l.id)
				if err != nil || len(cis) == 0 {
					continue
				}
				id := cis[rapid.IntRange(0, len(cis)-1).Draw(t, "chunk")].ID
				err = w.st.Repl.DeleteChunk(ev.Ctx(), id, chunkfs.RFRemoteSync)
				w.trace = append(w.trace, "remove locally "+id)
				evicted = evicted || err == nil // it may be removed already, or opened
			case k == 10:
				restart()
			default:
				// the log doesn't exist
				_, _, err := w.st.Log.QueryRecords(ev.Ctx(), storage.QueryRecordsRequest{LogID: "unknown", Limit: 10})
				w.trace = append(w.trace, "query of an unknown log")
				if err == nil {
					continue
				}
			}
			held()
			total := 0
			for _, l := range w.logs {
				total += w.chunks(l)
			}
			many = many || total > cfg.MaxOpened
		}
		for _, l := range w.logs {
			w.verify(l, rapid.Bool().Draw(t, "desc"), genLimit(t))
		}
		held()
		w.st.Close()
		bad := ev.HeldOnly(w.dir, ev.NoFiles)
		w.st = nil
		if bad != "" {
			t.Fatalf("the storage is closed, but what is held: %s\n%s", bad, w.history())
		}
		ev.Case(t, many && evicted, "%s cfg=%s", w.history(), cfg)
	})
}
