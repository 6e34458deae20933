// Package crash checks what is left after the process is killed (P07): the process is this test binary, started as a child
package crash

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"pgregory.net/rapid"
)

// plan is what the child does
type plan struct {
	Dir   string
	Cfg   stack.Cfg
	Round int
	Logs  []logPlan
	// KillAt is the number of the update of the catalogue the child kills itself at: before (KillAfter=false) or after it. 0 - it doesn't
	KillAt    int
	KillAfter bool
}

type logPlan struct {
	ID      string // empty: a new one
	Pause   int    // us
	Batches [][]int
}

func TestMain(m *testing.M) {
	if f := os.Getenv("VERIF_CRASH_PLAN"); f != "" {
		child(f)
		os.Exit(0)
	}
	ev.Main(m)
}

func payload(log, round, batch, idx, size int) []byte {
	h := fmt.Sprintf("%d.%d.%d.%d|", log, round, batch, idx)
	b := make([]byte, len(h)+size)
	copy(b, h)
	x := uint32(log*7919+round*104729+batch*1299709+idx) | 1
	for i := len(h); i < len(b); i++ {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 0x80
	}
	return b
}

func records(log, round, batch int, sizes []int) (res []*solaris.Record) {
	for i, s := range sizes {
		res = append(res, &solaris.Record{Payload: payload(log, round, batch, i, s)})
	}
	return
}

func die() {
	_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// lms kills the process before or after the update of the catalogue
type lms struct {
	logfs.LogsMetaStorage
	n     atomic.Int32
	at    int
	after bool
}

func (l *lms) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
	me := int(l.n.Add(1)) == l.at
	if me && !l.after {
		die()
	}
	err := l.LogsMetaStorage.UpsertChunkInfos(ctx, logID, cis)
	if me {
		die()
	}
	return err
}

func child(f string) {
	ev.Silent()
	buf, err := os.ReadFile(f)
	var p plan
	if err == nil {
		err = json.Unmarshal(buf, &p)
	}
	if err != nil {
		_, _ = fmt.Fprintln(os.Stderr, "bad plan", err)
		return
	}
	pipe := os.NewFile(3, "pipe")
	var omu sync.Mutex
	say := func(format string, args ...any) {
		omu.Lock()
		defer omu.Unlock()
		_, _ = pipe.WriteString(fmt.Sprintf(format, args...) + "\n")
	}
	st, err := stack.Open(p.Dir, p.Cfg, stack.Opts{LM: func(ms logfs.LogsMetaStorage) logfs.LogsMetaStorage {
		return &lms{LogsMetaStorage: ms, at: p.KillAt, after: p.KillAfter}
	}})
	if err != nil {
		say("E could not open: %v", err)
		return
	}
	ctx := context.Background()
	say("R")
	var wg sync.WaitGroup
	for i := range p.Logs {
		wg.Add(1)
		go func(i int, lp logPlan) {
			defer wg.Done()
			id := lp.ID
			if id == "" {
				l, err := st.Meta.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"n": fmt.Sprint(i)}})
				if err != nil {
					say("E could not create the log: %v", err)
					return
				}
				id = l.ID
				say("L %d %s", i, id)
			}
			for b, sizes := range lp.Batches {
				say("S %d %d", i, b)
				r, err := st.Log.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: id, Records: records(i, p.Round, b, sizes), ExpandIDs: true})
				if err != nil {
					say("E append failed: %v", err)
					return
				}
				say("A %d %d %d %s", i, b, r.Added, strings.Join(r.RecordIDs, ","))
				time.Sleep(time.Duration(lp.Pause) * time.Microsecond)
			}
		}(i, p.Logs[i])
	}
	wg.Wait()
	say("F")
	if p.KillAt < 0 {
		st.Close() // a graceful end
	}
	die()
}

type mrec struct {
	id      string // empty if it is not known yet
	payload []byte
	acked   bool
}

type mlog struct {
	id   string
	recs []mrec
	// what was in progress at the moment of the kill
	pending [][]byte
}

// TestKill: P07
func TestKill(t *testing.T) {
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	ev.Check(t, "the process was killed with an append in progress after some records had been acknowledged", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		cfg := stack.GenCfg(t)
		logs := make([]*mlog, rapid.IntRange(1, 3).Draw(t, "logs"))
		// a growth of a chunk is not safe, it is the known finding. So the chunks grow only if the moment of the kill is out of it
		grows := len(logs) == 1 && rapid.Bool().Draw(t, "grows")
		if !grows {
			cfg.New = min(cfg.Max, stack.Block*3)
			cfg.Max = cfg.New
		}
		sizes, maxBatches := []int{0, 1, 30, 30, 300, 1000, 3000}, 30
		big := !grows && rapid.IntRange(0, 4).Draw(t, "big") == 0
		if big {
			// writing takes time, so it is interrupted in the middle
			cfg.New, cfg.Max = 1<<22, 1<<22
			sizes, maxBatches = []int{0, 1000, 200000, 700000}, 5
		}
		cfg.MaxRecs, cfg.MaxBunch = 100000, 1<<30
		cfg.MaxLocks, cfg.MaxOpened = 4, max(cfg.MaxOpened, 2)
		for i := range logs {
			logs[i] = &mlog{}
		}
		var trace []string
		fatalf := func(format string, args ...any) {
			t.Fatalf("%s\ncfg=%s\n%s", fmt.Sprintf(format, args...), cfg, strings.Join(trace, "\n"))
		}
		interrupted, acked := 0, 0
		for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
			p := plan{Dir: filepath.Join(dir, "db"), Cfg: cfg, Round: round}
			total := 0
			for i := range logs {
				lp := logPlan{ID: logs[i].id, Pause: rapid.SampledFrom([]int{0, 0, 100, 1000}).Draw(t, "pause")}
				for n := rapid.IntRange(1, maxBatches).Draw(t, "batches"); n > 0; n-- {
					lp.Batches = append(lp.Batches, rapid.SliceOfN(rapid.SampledFrom(sizes), 1, 6).Draw(t, "sizes"))
				}
				total += len(lp.Batches)
				p.Logs = append(p.Logs, lp)
			}
			how := rapid.SampledFrom([]string{"time", "lines", "lines", "update", "update", "close"}).Draw(t, "how")
			if big {
				how = "lines"
			}
			if grows {
				how = rapid.SampledFrom([]string{"update", "update", "close"}).Draw(t, "how")
			}
			var delay time.Duration
			lines := 1 << 30
			switch how {
			case "time": // at some moment after it is ready
				delay = time.Duration(rapid.IntRange(0, 6000).Draw(t, "delay")) * time.Microsecond
				lines = 1
			case "lines": // a moment after the line is got from it
				lines = rapid.IntRange(1, total*2).Draw(t, "lines")
				delay = time.Duration(rapid.IntRange(0, rapid.SampledFrom([]int{300, 1500}).Draw(t, "maxDelay")).Draw(t, "delay")) * time.Microsecond
			case "update":
				p.KillAt, p.KillAfter = rapid.IntRange(1, total).Draw(t, "killAt"), rapid.Bool().Draw(t, "killAfter")
			case "close":
				p.KillAt = -1
			}
			if round > 1 && rapid.IntRange(0, 5).Draw(t, "noLogs") == 0 {
				p.Logs = p.Logs[:1]
			}
			trace = append(trace, fmt.Sprintf("round: %s lines=%d delay=%s at=%d after=%t plan=%v", how, lines, delay, p.KillAt, p.KillAfter, p.Logs))
			pf := filepath.Join(dir, "plan")
			buf, _ := json.Marshal(p)
			if err := os.WriteFile(pf, buf, 0644); err != nil {
				t.Fatal(err)
			}
			cmd := exec.Command(exe)
			cmd.Env = append(os.Environ(), "VERIF_CRASH_PLAN="+pf, "GOMAXPROCS=2")
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			out, in, err := os.Pipe()
			if err == nil {
				cmd.ExtraFiles = []*os.File{in}
				err = cmd.Start()
				_ = in.Close()
			}
			if err != nil {
				fmt.Printf("EV-ENV: could not start a child: %v\n", err)
				os.Exit(3)
			}
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 1<<24)
			got, finished := 0, false
			started := map[int]int{} // log -> the batch in progress
			var all []string
			watchdog := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
			for sc.Scan() {
				ln := sc.Text()
				all = append(all, ln)
				got++
				if got == lines {
					go func() {
						if delay > 0 {
							for e := time.Now().Add(delay); time.Now().Before(e); {
							}
						}
						_ = cmd.Process.Kill()
					}()
				}
				if ln == "F" {
					finished = true
				}
			}
			_ = cmd.Wait()
			_ = out.Close()
			if !watchdog.Stop() {
				fatalf("EV-HANG: the child did not end in 60 seconds, %d lines: %v", got, all)
			}
			if s := stderr.String(); s != "" {
				fatalf("the child crashed: %s", s)
			}
			for _, ln := range all {
				f := strings.SplitN(ln, " ", 5)
				num := func(i int) (n int) {
					_, _ = fmt.Sscan(f[i], &n)
					return
				}
				switch f[0] {
				case "E":
					fatalf("the child reported: %s", ln)
				case "L":
					logs[num(1)].id = f[2]
				case "S":
					started[num(1)] = num(2)
				case "A":
					l, b := num(1), num(2)
					sizes := p.Logs[l].Batches[b]
					ids := strings.Split(f[4], ",")
					if num(3) != len(sizes) || len(ids) != len(sizes) {
						fatalf("%d records were appended of %d, ids %v", num(3), len(sizes), ids)
					}
					for i, s := range sizes {
						logs[l].recs = append(logs[l].recs, mrec{ids[i], payload(l, round, b, i, s), true})
						acked++
					}
					delete(started, l)
				}
			}
			for l, b := range started {
				for i, s := range p.Logs[l].Batches[b] {
					logs[l].pending = append(logs[l].pending, payload(l, round, b, i, s))
				}
				if acked > 0 {
					interrupted++
				}
			}
			trace = append(trace, fmt.Sprintf("killed after %d lines, finished=%t, in progress %v", got, finished, started))
			if os.Getenv("VERIF_LOG") != "" {
				trace = append(trace, all...)
			}

			// the restart. The IDs of different processes are ordered by the milliseconds
			time.Sleep(2 * time.Millisecond)
			st, err := stack.Open(p.Dir, cfg, stack.Opts{})
			if err != nil {
				fatalf("could not open the storage after the kill: %v", err)
			}
			for i, l := range logs {
				if l.id == "" {
					continue
				}
				check(fatalf, st, i, l)
				if rapid.IntRange(0, 3).Draw(t, "appendAfter") == 0 {
					b := payload(i, round, 1000, 0, rapid.IntRange(0, 2000).Draw(t, "afterSize"))
					r, err := st.Log.AppendRecords(context.Background(), &solaris.AppendRecordsRequest{LogID: l.id, Records: []*solaris.Record{{Payload: b}}, ExpandIDs: true})
					if err != nil || r.Added != 1 {
						fatalf("log #%d: the append after the restart failed: %v", i, err)
					}
					l.recs = append(l.recs, mrec{r.RecordIDs[0], b, true})
					trace = append(trace, fmt.Sprintf("append to the log #%d, %d records", i, len(l.recs)))
					check(fatalf, st, i, l)
				}
			}
			st.Close()
		}
		ev.Case(t, interrupted > 0 && acked > 0, "cfg=%s %s", cfg, strings.Join(trace, "; "))
	})
}

// TestGrowth shows the known finding of P07: the process is killed when a chunk file is extended, but the table of records is not moved yet
func TestGrowth(t *testing.T) {
	dir, clean := ev.Dir(t)
	defer clean()
	cfg := stack.Cfg{New: stack.Block, Max: 2 * stack.Block, Grow: stack.Block, MaxOpened: 1, MaxLocks: 1, MaxRecs: 10, MaxBunch: 1000}
	st, err := stack.Open(dir, cfg, stack.Opts{})
	if err != nil {
		t.Fatal(err)
	}
	l, err := st.Meta.CreateLog(context.Background(), &solaris.Log{})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := st.Log.AppendRecords(context.Background(), &solaris.AppendRecordsRequest{LogID: l.ID, Records: []*solaris.Record{{Payload: []byte("test")}}}); err != nil {
		t.Fatal(err)
	}
	st.Close()
	for n := range st.ChunkFiles() {
		_ = os.Truncate(n, 2*stack.Block)
	}
	st, err = stack.Open(dir, cfg, stack.Opts{})
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	res, _, err := st.Log.QueryRecords(context.Background(), storage.QueryRecordsRequest{LogID: l.ID, Limit: 10})
	t.Logf("records: %v, err=%v", res, err)
}

// check reads the log and learns what of the interrupted append is there
func check(fatalf func(string, ...any), st *stack.Stack, i int, l *mlog) {
	res, _, err := st.Log.QueryRecords(context.Background(), storage.QueryRecordsRequest{LogID: l.id, Limit: 100000})
	if err != nil {
		fatalf("log #%d: could not read: %v", i, err)
	}
	if len(res) < len(l.recs) {
		fatalf("log #%d: %d records are read, %d were acknowledged", i, len(res), len(l.recs))
	}
	if len(res) > len(l.recs)+len(l.pending) {
		fatalf("log #%d: %d records are read, %d were acknowledged and %d were in progress", i, len(res), len(l.recs), len(l.pending))
	}
	var last ulid.ULID
	for n, r := range res {
		if n >= len(l.recs) {
			l.recs = append(l.recs, mrec{r.ID, l.pending[0], false})
			l.pending = l.pending[1:]
		}
		m := l.recs[n]
		if r.ID != m.id || !bytes.Equal(r.Payload, m.payload) {
			fatalf("log #%d: record #%d: ID=%s, expected %s; %d bytes, expected %d; acknowledged=%t", i, n, r.ID, m.id, len(r.Payload), len(m.payload), m.acked)
		}
		id, err := ulid.Parse(r.ID)
		if err != nil || id.Compare(last) <= 0 {
			fatalf("log #%d: record #%d: ID=%s is not greater than the previous one %s", i, n, r.ID, last)
		}
		last = id
	}
	l.pending = nil
	desc, _, err := st.Log.QueryRecords(context.Background(), storage.QueryRecordsRequest{LogID: l.id, Limit: 100000, Descending: true})
	if err != nil || len(desc) != len(res) {
		fatalf("log #%d: %d records are read in the descending order, expected %d: %v", i, len(desc), len(res), err)
	}
	for n, r := range desc {
		if r.ID != res[len(res)-1-n].ID {
			fatalf("log #%d: wrong order in the descending order", i)
		}
	}
}
