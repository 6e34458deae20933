package repl

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"path/filepath"

	"pgregory.net/rapid"
)

func loadPayload(log, n, size int) []byte {
	h := fmt.Sprintf("%d-%d-", log, n)
	b := make([]byte, len(h)+size)
	copy(b, h)
	r := rand.New(rand.NewSource(int64(log*100000 + n)))
	for i := len(h); i < len(b); i++ {
		b[i] = byte(r.Intn(3))
	}
	return b
}

// TestLoad: P10 and P11, the scanner sweeps and uploads the chunks all the time, while the logs are written and read through the local log.
// A chunk which is being swept is not available, so the read or the append may fail with ErrNotExist, and it is repeated
func TestLoad(t *testing.T) {
	ev.Check(t, "chunks were swept and downloaded again, logs have several chunks", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		cfg := stack.GenCfg(t)
		cfg.MaxRecs, cfg.MaxBunch = 10000, 1<<20
		cfg.Max = min(cfg.Max, stack.Block*2)
		cfg.New = min(cfg.New, cfg.Max)
		st := newStore()
		var puts atomic.Int32
		st.onPut = func(string) error {
			puts.Add(1)
			return nil
		}
		s, err := stack.Open(dir, cfg, stack.Opts{Remote: st})
		if err != nil {
			t.Fatal(err)
		}
		defer s.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var ids []string
		for i := rapid.IntRange(1, 3).Draw(t, "logs"); i > 0; i-- {
			l, err := s.Meta.CreateLog(ctx, &solaris.Log{})
			if err != nil {
				t.Fatal(err)
			}
			ids = append(ids, l.ID)
		}
		th := rapid.SampledFrom([]int64{1, 1, 5000, 10000}).Draw(t, "threshold")
		sc := chunkfs.NewScanner(s.Repl, chunkfs.ScannerConfig{DataPath: filepath.Join(dir, "chunks"), SyncWorkers: rapid.IntRange(1, 4).Draw(t, "workers"),
			GlobalSyncTimeout: 100 * time.Microsecond, SweepMaxThresholdSize: th, SweepMinThresholdSize: th})
		plans := make([][]int, len(ids))
		for i := range plans {
			plans[i] = rapid.SliceOfN(rapid.SampledFrom([]int{0, 10, 300, 1500, 3500}), 1, 20).Draw(t, "sizes")
		}
		pauses := rapid.SliceOfN(rapid.IntRange(0, 300), 8, 8).Draw(t, "pauses")
		_ = sc.Init(ctx)
		var wg sync.WaitGroup
		var written = make([]atomic.Int32, len(ids))
		var broken atomic.Value
		var retries atomic.Int32
		report := func(format string, args ...any) { broken.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
		again := func(fn func() error) error {
			deadline := time.Now().Add(patience)
			for {
				err := fn()
				if !errors.Is(err, errors.ErrNotExist) || time.Now().After(deadline) {
					return err
				}
				retries.Add(1)
				time.Sleep(50 * time.Microsecond)
			}
		}
		read := func(i int, desc bool) error {
			from := int(written[i].Load())
			res, _, err := s.Log.QueryRecords(ctx, storage.QueryRecordsRequest{LogID: ids[i], Limit: 10000, Descending: desc})
			if err != nil {
				return err
			}
			if len(res) < from {
				report("log %d: %d records are written, only %d are read", i, from, len(res))
			}
			for n, r := range res {
				if desc {
					n = len(res) - 1 - n
				}
				if n >= len(plans[i]) || !bytes.Equal(r.Payload, loadPayload(i, n, plans[i][n])) {
					report("log %d: wrong record #%d, desc=%t", i, n, desc)
				}
			}
			return nil
		}
		for i := range ids {
			wg.Add(2)
			stop := make(chan struct{})
			go func(i int) {
				defer wg.Done()
				defer close(stop)
				for n, size := range plans[i] {
					err := again(func() error {
						_, err := s.Log.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: ids[i], Records: []*solaris.Record{{Payload: loadPayload(i, n, size)}}})
						return err
					})
					if err != nil {
						report("append failed: %v", err)
						return
					}
					written[i].Add(1)
					time.Sleep(time.Duration(pauses[n%len(pauses)]) * time.Microsecond)
				}
			}(i)
			go func(i int) {
				defer wg.Done()
				for k := 0; ; k++ {
					if err := again(func() error { return read(i, k%2 == 1) }); err != nil {
						report("read failed: %v", err)
						return
					}
					time.Sleep(time.Duration(pauses[k%len(pauses)]) * time.Microsecond)
					select {
					case <-stop:
						return
					default:
					}
				}
			}(i)
		}
		ev.Within(t, 4*patience, "writing and reading of the logs", wg.Wait)
		if b := broken.Load(); b != nil {
			t.Fatalf("%s; cfg=%s threshold=%d sizes=%v", b, cfg, th, plans)
		}
		for i := range ids {
			if err := again(func() error { return read(i, false) }); err != nil {
				t.Fatalf("read failed: %v", err)
			}
		}
		if b := broken.Load(); b != nil {
			t.Fatalf("%s; cfg=%s threshold=%d sizes=%v", b, cfg, th, plans)
		}
		cancel()
		// all the logs are read from the remote storage and the local files after the restart
		chunks := 0
		for _, id := range ids {
			cis, _ := s.Meta.GetChunks(context.Background(), id)
			chunks += len(cis)
		}
		ev.Label(t, fmt.Sprintf("repeated: %t", retries.Load() > 0))
		ev.Case(t, puts.Load() > 2 && chunks > len(ids), "cfg=%s threshold=%d sizes=%v", cfg, th, plans)
	})
}
