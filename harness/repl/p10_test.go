package repl

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"pgregory.net/rapid"
)

// sfile is a chunk file in the model
type sfile struct {
	id      string
	data    []byte
	mtime   time.Time
	old     bool // the last change is older than the configured time
	synced  bool // the last content was uploaded or downloaded by the node
	ever    bool // it was synced at some moment
	unsure  bool // the node may have forgotten that it is synced
	fails   bool // uploading of it fails
	local   bool
	remote  []byte
	inUse   bool
	prov    *chunkfs.Provider
	rc      lru.Releasable[*chunkfs.Chunk]
	putsWas int
}

type scanWorld struct {
	t       *rapid.T
	dir     string // chunks
	st      *store
	ca      *chunkfs.ChunkAccessor
	repl    *chunkfs.Replicator
	prov    *chunkfs.Provider
	scfg    chunkfs.ScannerConfig
	files   []*sfile
	foreign map[string][]byte
	fdirs   []string
	trace   []string
	probes  int
	known   map[string][2][]byte
	anyTime bool // the threshold of the modification time is zero

	mu       sync.Mutex
	failing  map[string]bool
	during   func() // it is called while the chunk duringID is being uploaded, once
	duringID string
	canary   string
	arrived  chan struct{}
	release  chan struct{}
	stopped  bool
	after    int  // the number of the canary's uploads after the stop
	held     bool // the files the process has opened are checked
	cancel   context.CancelFunc
}

const folders = "0123"

func (w *scanWorld) logf(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
}

func (w *scanWorld) fatalf(format string, args ...any) {
	w.t.Helper()
	w.t.Fatalf("%s\n\t%s", fmt.Sprintf(format, args...), strings.Join(w.trace, "\n\t"))
}

func (w *scanWorld) name(f *sfile) string {
	return w.prov.GetFileNameByID(f.id)
}

func keyID(key string) string { return key[len(key)-26:] }

func (w *scanWorld) onPut(key string) error {
	id := keyID(key)
	w.mu.Lock()
	fails, stopped := w.failing[id], w.stopped
	if id == w.duringID && w.during != nil {
		w.during()
		w.during = nil
	}
	if id == w.canary && stopped {
		w.after++
	}
	w.mu.Unlock()
	if id == w.canary {
		if !stopped {
			select {
			case w.arrived <- struct{}{}:
			case <-time.After(30 * time.Second):
				return errFault
			}
			<-w.release
		}
		return errFault
	}
	if fails {
		return errFault
	}
	return nil
}

func (w *scanWorld) puts(id string) int {
	w.st.mu.Lock()
	defer w.st.mu.Unlock()
	n := 0
	for k, c := range w.st.puts {
		if keyID(k) == id {
			n += c
		}
	}
	return n
}

func (w *scanWorld) start() {
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	w.mu.Lock()
	w.stopped = false
	w.mu.Unlock()
	if err := chunkfs.NewScanner(w.repl, w.scfg).Init(ctx); err != nil {
		w.fatalf("Init() failed: %v", err)
	}
	w.awaitCanary()
}

func (w *scanWorld) awaitCanary() {
	select {
	case <-w.arrived:
	case <-time.After(20 * time.Second):
		w.fatalf("the scanner doesn't scan the folders: no upload of a modified chunk for 20 seconds")
	}
}

// round lets the scanner to scan all the folders at least once
func (w *scanWorld) round() {
	for i := 0; i < 2; i++ {
		w.release <- struct{}{}
		w.awaitCanary()
	}
}

// stop stops the scanner, which is waiting in the canary's upload
func (w *scanWorld) stop(check bool) {
	w.mu.Lock()
	w.stopped = true
	w.after = 0
	w.mu.Unlock()
	w.cancel()
	w.release <- struct{}{}
	time.Sleep(2 * time.Millisecond)
	if check {
		time.Sleep(30 * time.Millisecond)
		w.mu.Lock()
		n := w.after
		w.mu.Unlock()
		if n > 3 {
			w.fatalf("the scanner is stopped, but it made %d scans after that", n)
		}
	}
}

// remoteContent reads the remote copy
func (w *scanWorld) remoteContent(id string) (res []byte) {
	var obj []byte
	w.st.mu.Lock()
	for k, o := range w.st.data {
		if keyID(k) == id {
			obj = o
		}
	}
	w.st.mu.Unlock()
	if obj == nil {
		return nil
	}
	if c, ok := w.known[id]; ok && bytes.Equal(c[0], obj) {
		return c[1]
	}
	defer func() { w.known[id] = [2][]byte{obj, res} }()
	w.probes++
	_, r, p := newReplica(filepath.Join(filepath.Dir(w.dir), fmt.Sprintf("probe%d", w.probes)), stack.Cfg{New: stack.Block, Max: stack.Block, Grow: stack.Block, MaxOpened: 1}, w.st)
	defer p.Close()
	if err := r.DownloadChunk(context.Background(), id, 0); err != nil {
		return nil
	}
	b, err := os.ReadFile(p.GetFileNameByID(id))
	if err != nil {
		return nil
	}
	return b
}

func (w *scanWorld) write(f *sfile, old bool) {
	fn := w.name(f)
	_ = os.MkdirAll(filepath.Dir(fn), 0755)
	if err := os.WriteFile(fn, f.data, 0644); err != nil {
		w.t.Fatal(err)
	}
	w.touch(f, old)
	f.local = true
}

// touch sets the time of the last modification
func (w *scanWorld) touch(f *sfile, old bool) {
	if old {
		f.mtime = time.Now().Add(-time.Duration(rapid.Int64Range(int64(2*time.Hour), int64(100*time.Hour)).Draw(w.t, "age")))
	} else {
		f.mtime = time.Now()
		if !f.ever && !w.anyTime && !f.inUse {
			f.mtime = f.mtime.Add(-time.Duration(rapid.Int64Range(0, int64(50*time.Minute)).Draw(w.t, "freshAge")))
		}
	}
	f.old = old || w.anyTime
	if err := os.Chtimes(w.name(f), f.mtime, f.mtime); err != nil {
		w.t.Fatal(err)
	}
	if !old {
		time.Sleep(10 * time.Microsecond) // all the times differ
	}
}

// expect applies the expected effect of the scans to the model, returns the number of removed, uploaded, kept
func (w *scanWorld) scanned() (swept, uploaded int) {
	for _, fld := range folders {
		var fs []*sfile
		size := int64(0)
		for _, f := range w.files {
			f.putsWas = -1
			if f.local && f.id[25] == byte(fld) {
				f.putsWas = 0
				fs = append(fs, f)
				size += int64(len(f.data))
			}
		}
		if size >= w.scfg.SweepMaxThresholdSize {
			sort.Slice(fs, func(i, j int) bool { return fs[i].mtime.Before(fs[j].mtime) })
			for _, f := range fs {
				if f.inUse || f.fails {
					continue
				}
				f.local = false
				f.remote = f.data
				f.synced, f.unsure = false, false
				swept++
				size -= int64(len(f.data))
				if size < w.scfg.SweepMinThresholdSize {
					break
				}
			}
		}
		for _, f := range fs {
			if !f.local || !f.old || f.fails || f.synced {
				continue
			}
			f.remote = f.data
			f.synced, f.ever, f.unsure = true, true, false
			uploaded++
		}
	}
	return
}

func (w *scanWorld) check(before map[string]int) {
	for _, f := range w.files {
		b, err := os.ReadFile(w.name(f))
		if (err == nil) != f.local {
			w.fatalf("chunk %s: local=%t, expected %t", f.id, err == nil, f.local)
		}
		if f.local && !bytes.Equal(b, f.data) {
			w.fatalf("chunk %s: the content is changed", f.id)
		}
		r := w.remoteContent(f.id)
		if (r == nil) != (f.remote == nil) || !bytes.Equal(r, f.remote) {
			w.fatalf("chunk %s: remote copy exists=%t, has %d bytes, expected %t, %d bytes; the same as the local one: %t", f.id, r != nil, len(r), f.remote != nil, len(f.remote), bytes.Equal(r, f.data))
		}
	}
	// foreign files
	for n, c := range w.foreign {
		b, err := os.ReadFile(n)
		if err != nil || !bytes.Equal(b, c) {
			w.fatalf("the foreign file %s is changed: %v", n, err)
		}
	}
	for _, d := range w.fdirs {
		if _, err := os.Stat(filepath.Join(d, "file")); err != nil {
			w.fatalf("the foreign folder %s is changed: %v", d, err)
		}
	}
	if w.held {
		allowed := map[string]bool{}
		for _, f := range w.files {
			if f.inUse {
				p, _ := filepath.Rel(w.dir, w.name(f))
				allowed[p] = true
			}
		}
		// the canary is being uploaded
		if bad := ev.HeldOnly(w.dir, func(p string) bool { return allowed[p] || strings.Contains(p, w.canary) }); bad != "" {
			w.fatalf("the files are held: %s, though the opened chunks are %v", bad, allowed)
		}
	}
	w.st.mu.Lock()
	defer w.st.mu.Unlock()
	known := map[string]bool{w.canary: true}
	for _, f := range w.files {
		known[f.id] = true
	}
	for k := range w.st.data {
		if !known[keyID(k)] {
			w.fatalf("%s is uploaded, it is not a chunk", k)
		}
	}
}

// TestScanner: P10, the scanner with one worker is stopped at the upload of one chunk, so the time when the folders are changed is controlled
func TestScanner(t *testing.T) {
	ev.Check(t, "a chunk was removed by the sweep, another one was uploaded, some were kept", scanning(false))
}

// TestScannerFiles: P45, the same histories
func TestScannerFiles(t *testing.T) {
	ev.Check(t, "a chunk was removed by the sweep, another one was uploaded, some were kept", scanning(true))
}

func scanning(held bool) func(t *rapid.T) {
	return func(t *rapid.T) {
		if held {
			defer ev.NoGC()()
		}
		root, clean := ev.Dir(t)
		defer clean()
		w := &scanWorld{t: t, dir: filepath.Join(root, "chunks"), st: newStore(), foreign: map[string][]byte{}, failing: map[string]bool{}, known: map[string][2][]byte{}, held: held,
			arrived: make(chan struct{}), release: make(chan struct{})}
		w.st.onPut = w.onPut
		ccfg := stack.Cfg{New: stack.Block, Max: stack.Block * 2, Grow: stack.Block, MaxOpened: 1}
		w.ca, w.repl, w.prov = newReplica(w.dir, ccfg, w.st)
		defer w.ca.Shutdown()
		defer w.prov.Close()
		w.anyTime = rapid.Bool().Draw(t, "anyTime")
		w.scfg = chunkfs.ScannerConfig{DataPath: w.dir, SyncWorkers: 1, GlobalSyncTimeout: time.Microsecond, RemoteSyncThreshold: time.Hour,
			SweepMaxThresholdSize: math.MaxInt64 / 2, SweepMinThresholdSize: math.MaxInt64 / 2}
		if w.anyTime {
			w.scfg.RemoteSyncThreshold = 0
		}
		if rapid.IntRange(0, 5).Draw(t, "limited") > 0 {
			w.scfg.SweepMaxThresholdSize = rapid.Int64Range(2, 20000).Draw(t, "max")
			w.scfg.SweepMinThresholdSize = rapid.OneOf(rapid.Int64Range(0, w.scfg.SweepMaxThresholdSize), rapid.Just(w.scfg.SweepMaxThresholdSize)).Draw(t, "min")
		}
		w.logf("max=%d min=%d threshold=%s", w.scfg.SweepMaxThresholdSize, w.scfg.SweepMinThresholdSize, w.scfg.RemoteSyncThreshold)
		cf := ulidutils.NewID()
		w.canary = cf[:24] + rapid.SampledFrom([]string{"ZZ", "ZZ", "00"}).Draw(t, "canary")
		fn := w.prov.GetFileNameByID(w.canary)
		_ = os.MkdirAll(filepath.Dir(fn), 0755)
		if err := os.WriteFile(fn, []byte{1}, 0644); err != nil {
			t.Fatal(err)
		}
		ct := time.Now().Add(-5 * time.Hour)
		_ = os.Chtimes(fn, ct, ct)
		newID := func(fld byte) string {
			id := ulidutils.NewID()
			return id[:24] + "A" + string(fld)
		}
		running := false
		swept, uploaded := 0, 0
		defer func() {
			for _, f := range w.files {
				if f.inUse {
					f.prov.ReleaseChunk(&f.rc)
					_ = f.prov.Close()
				}
			}
			if running {
				w.stop(false)
			}
		}()
		download := func(f *sfile, step int) {
			if err := w.repl.DownloadChunk(context.Background(), f.id, 0); err != nil {
				w.fatalf("could not download %s: %v", f.id, err)
			}
			f.data, f.local = f.remote, true
			f.synced, f.ever, f.unsure = true, true, false
			f.old = w.anyTime
			fi, err := os.Stat(w.name(f))
			if err != nil {
				w.fatalf("no file after the download: %v", err)
			}
			f.mtime = fi.ModTime()
			time.Sleep(5 * time.Millisecond) // the file times are not precise
			w.logf("download %s", f.id)
			if rapid.Bool().Draw(t, "modifyDownloaded") {
				f.data = append(bytes.Clone(f.data), byte(step), 77)
				w.write(f, false)
				f.synced, f.unsure = false, false
				w.logf("modify %s, %d bytes", f.id, len(f.data))
			}
		}
		steps := rapid.IntRange(1, 5).Draw(t, "steps")
		for step := 0; step < steps; step++ {
			for _, f := range w.files {
				if !f.local && f.remote != nil && rapid.IntRange(0, 3).Draw(t, "downloadSwept") == 0 {
					download(f, step)
				}
			}
			for m := rapid.IntRange(1, 10).Draw(t, "mutations"); m > 0; m-- {
				var f *sfile
				if len(w.files) > 0 {
					f = w.files[rapid.IntRange(0, len(w.files)-1).Draw(t, "file")]
				}
				op := rapid.SampledFrom([]string{"add", "add", "add", "add", "modify", "modify", "remove", "use", "use", "unuse", "fail", "heal", "heal", "foreign", "info", "badScanInfo", "download", "download", "again", "again"}).Draw(t, "op")
				fld := folders[rapid.IntRange(0, rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "folders")).Draw(t, "folder")]
				old := rapid.IntRange(0, 2).Draw(t, "old") > 0
				switch op {
				case "add":
					f = &sfile{id: newID(fld), data: bytes.Repeat([]byte{byte(len(w.files) + 1)}, rapid.IntRange(1, 6000).Draw(t, "size"))}
					w.files = append(w.files, f)
					w.write(f, old)
					w.logf("add %s old=%t %d bytes", f.id, old, len(f.data))
				case "modify":
					if f == nil || !f.local || f.inUse {
						continue
					}
					f.data = append(bytes.Clone(f.data), byte(step), byte(m))
					// if it is synced already, the change comes now
					if f.ever {
						old = false
					}
					w.write(f, old)
					f.synced, f.unsure = false, false
					w.logf("modify %s old=%t, %d bytes", f.id, old, len(f.data))
				case "remove":
					if f == nil || !f.local || f.inUse || rapid.Bool().Draw(t, "not") {
						continue
					}
					_ = os.Remove(w.name(f))
					f.local, f.synced, f.unsure = false, false, false
					w.logf("remove %s", f.id)
				case "use":
					// a new chunk, which is opened
					f = &sfile{id: newID(fld), inUse: true}
					f.prov = chunkfs.NewProvider(w.dir, 1, ccfg.Chunk())
					f.prov.CA, f.prov.Replicator = w.ca, w.repl
					rc, err := f.prov.GetOpenedChunk(context.Background(), f.id, true)
					if err != nil {
						w.fatalf("could not create a chunk: %v", err)
					}
					f.rc = rc
					if _, err := rc.Value().AppendRecords([]*solaris.Record{{Payload: make([]byte, rapid.IntRange(0, 6000).Draw(t, "payload"))}}); err != nil {
						w.fatalf("could not append to a chunk: %v", err)
					}
					f.data, _ = os.ReadFile(w.name(f))
					f.local = true
					w.files = append(w.files, f)
					w.touch(f, old)
					w.logf("use %s old=%t %d bytes", f.id, old, len(f.data))
				case "unuse":
					if f == nil || !f.inUse {
						continue
					}
					f.prov.ReleaseChunk(&f.rc)
					_ = f.prov.Close()
					f.inUse = false
					// the file could be modified by closing
					b, _ := os.ReadFile(w.name(f))
					if !bytes.Equal(b, f.data) {
						w.fatalf("closing the chunk has changed it")
					}
					_ = os.Chtimes(w.name(f), f.mtime, f.mtime)
					w.logf("unuse %s", f.id)
				case "again":
					// lost locally and downloaded between the scans
					if f == nil || !f.local || f.inUse || f.remote == nil {
						continue
					}
					_ = os.Remove(w.name(f))
					w.logf("remove %s", f.id)
					download(f, step)
				case "fail", "heal":
					if f == nil {
						continue
					}
					f.fails = op == "fail"
					w.mu.Lock()
					w.failing[f.id] = f.fails
					w.mu.Unlock()
					w.logf("%s %s", op, f.id)
				case "foreign":
					d := filepath.Join(w.dir, "A"+string(fld))
					name := rapid.SampledFrom([]string{"readme", "lost+found", "x.info", newID(fld)[:25], newID(fld) + "0", newID(fld) + ".zip", newID(fld) + ".tmp", newID(fld) + ".info.bak", "." + newID(fld)}).Draw(t, "foreignName")
					kind := rapid.IntRange(0, 3).Draw(t, "foreignKind")
					switch kind {
					case 0: // on the top
						d = w.dir
						name = rapid.SampledFrom([]string{name, newID(fld)}).Draw(t, "topName")
						fallthrough
					case 1, 2:
						_ = os.MkdirAll(d, 0755)
						n := filepath.Join(d, name)
						w.foreign[n] = make([]byte, rapid.IntRange(0, 30000).Draw(t, "foreignSize"))
						if err := os.WriteFile(n, w.foreign[n], 0644); err != nil {
							t.Fatal(err)
						}
						_ = os.Chtimes(n, ct, ct)
						w.logf("foreign %s", n)
					default: // a folder
						n := filepath.Join(d, rapid.SampledFrom([]string{"folder", newID(fld)}).Draw(t, "folderName"))
						_ = os.MkdirAll(n, 0755)
						_ = os.WriteFile(filepath.Join(n, "file"), nil, 0644)
						w.fdirs = append(w.fdirs, n)
						w.logf("foreign folder %s", n)
					}
				case "info":
					if f == nil || !f.local {
						continue
					}
					// unreadable
					_ = os.WriteFile(w.name(f)+".info", []byte(rapid.SampledFrom([]string{"", "{", "[]", "\"\""}).Draw(t, "badInfo")), 0644)
					f.unsure = f.unsure || f.synced // the info of a download may be there
					w.logf("bad info of %s", f.id)
				case "badScanInfo":
					if f == nil {
						continue
					}
					_ = os.MkdirAll(filepath.Dir(w.name(f)), 0755)
					_ = os.WriteFile(filepath.Join(filepath.Dir(w.name(f)), "scan_info.json"), []byte(rapid.SampledFrom([]string{"", "{", "[{}", "{}", "[1]"}).Draw(t, "badScanInfo")), 0644)
					for _, f1 := range w.files {
						if f1.id[24:] == f.id[24:] && f1.synced {
							f1.unsure = true
						}
					}
					w.logf("bad scan info of the folder %s", f.id[24:])
				case "download":
					var cands []*sfile
					for _, f1 := range w.files {
						if !f1.local && f1.remote != nil {
							cands = append(cands, f1)
						}
					}
					if len(cands) == 0 {
						continue
					}
					f = cands[rapid.IntRange(0, len(cands)-1).Draw(t, "toDownload")]
					download(f, step)
				}
			}
			// if the canary is not in the last folder, the stopped scanner completes its scan when the next one is running
			if running && strings.HasSuffix(w.canary, "ZZ") && rapid.IntRange(0, 4).Draw(t, "restart") == 0 {
				w.logf("restart")
				w.stop(rapid.IntRange(0, 4).Draw(t, "checkStop") == 0)
				running = false
			}
			before := map[string]int{}
			for _, f := range w.files {
				before[f.id] = w.puts(f.id)
			}
			syncedWas := map[string]bool{}
			for _, f := range w.files {
				syncedWas[f.id] = f.synced && !f.unsure
			}
			s, u := w.scanned()
			swept += s
			uploaded += u
			// one of the chunks is changed while it is being uploaded
			var changed *sfile
			if w.anyTime && rapid.Bool().Draw(t, "during") {
				for _, f := range w.files {
					if f.local && f.synced && !syncedWas[f.id] && !f.unsure && !f.inUse && !f.fails && (changed == nil || rapid.Bool().Draw(t, "change")) {
						changed = f
					}
				}
			}
			if changed != nil {
				f := changed
				data := bytes.Clone(f.data)
				data[len(data)-1] ^= 0xff
				fn := w.name(f)
				w.mu.Lock()
				w.duringID = f.id
				w.during = func() {
					_ = os.WriteFile(fn, data, 0644)
					f.mtime = time.Now()
					_ = os.Chtimes(fn, f.mtime, f.mtime)
					time.Sleep(10 * time.Microsecond)
				}
				w.mu.Unlock()
				f.data, f.remote = data, data
				w.logf("%s will be changed while it is being uploaded", f.id)
			}
			if running {
				w.round()
			} else {
				w.start()
				running = true
				w.round()
			}
			w.logf("scanned: %d swept, %d uploaded", s, u)
			if changed != nil {
				w.round() // at least two scans of the folder

				w.mu.Lock()
				missed := w.during != nil
				w.during = nil
				w.mu.Unlock()
				if missed {
					w.fatalf("%s is not uploaded", changed.id)
				}
			}
			w.check(before)
			for _, f := range w.files {
				if f.putsWas < 0 {
					continue
				}
				n := w.puts(f.id) - before[f.id]
				switch {
				case !f.local: // swept, it is uploaded at least once
				case f == changed && n == 2: // before and after the change
				case syncedWas[f.id] && n > 0:
					w.fatalf("chunk %s is uploaded again %d times, but it was not changed", f.id, n)
				case n > 1 || n == 1 && !f.synced:
					w.fatalf("chunk %s is uploaded %d times; synced=%t", f.id, n, f.synced)
				}
				f.unsure = false
			}
		}
		kept := 0
		for _, f := range w.files {
			if f.local {
				kept++
			}
		}
		ev.Case(t, swept > 0 && uploaded > 0 && kept > 0, "%s", strings.Join(w.trace, "; "))
	}
}
