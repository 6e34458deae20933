package repl

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"solverif/ev"
	"solverif/stack"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"pgregory.net/rapid"
)

var osErrNotExist = os.ErrNotExist

type rec struct {
	id      string
	payload []byte
}

// mchunk is a chunk of the model
type mchunk struct {
	id     string
	recs   []rec
	latest []byte // the last content of the file
	// local is the content of the local file, nil if there is no one
	local []byte
	// good is true if the local file has the last content
	good   bool
	opened bool // the chunk is in the pool of the opened ones
	// remote is the content stored remotely, nil if there is no one
	remote     []byte
	remoteRecs int
	lastObj    []byte
	// gone is true if the content is deleted everywhere
	gone bool
}

type world struct {
	t      *rapid.T
	dir    string
	ctx    context.Context
	cfg    stack.Cfg
	st     *store
	ca     *chunkfs.ChunkAccessor
	repl   *chunkfs.Replicator
	prov   *chunkfs.Provider
	chunks []*mchunk
	trace  []string
	probes int
	// held is true if the files the process has opened are checked
	held bool
}

// checkHeld checks that only the opened chunks hold their files
func (w *world) checkHeld() {
	if !w.held {
		return
	}
	if n := w.st.unread.Load(); n != 0 {
		w.fatalf("%d objects of the remote storage are not closed", n)
	}
	allowed := map[string]bool{}
	for _, c := range w.chunks {
		if c.opened {
			p, _ := filepath.Rel(w.dir, w.prov.GetFileNameByID(c.id))
			allowed[p] = true
		}
	}
	if bad := ev.HeldOnly(w.dir, func(p string) bool { return allowed[p] }); bad != "" {
		w.fatalf("the files are held: %s, though the opened chunks are %v", bad, allowed)
	}
}

func (w *world) fatalf(format string, args ...any) {
	w.t.Helper()
	w.t.Fatalf("%s\n\t%s", fmt.Sprintf(format, args...), strings.Join(w.trace, "\n\t"))
}

func (w *world) logf(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
}

func newReplica(dir string, cfg stack.Cfg, st *store) (*chunkfs.ChunkAccessor, *chunkfs.Replicator, *chunkfs.Provider) {
	ca := chunkfs.NewChunkAccessor()
	prov := chunkfs.NewProvider(dir, cfg.MaxOpened, cfg.Chunk())
	r := chunkfs.NewReplicator(prov.GetFileNameByID)
	r.CA, r.Storage = ca, st
	prov.CA, prov.Replicator = ca, r
	return ca, r, prov
}

func (w *world) open() {
	w.ca, w.repl, w.prov = newReplica(filepath.Join(w.dir, "chunks"), w.cfg, w.st)
}

// closeAll closes all the chunks
func (w *world) closeAll() {
	_ = w.prov.Close()
	w.ca.Shutdown()
	for _, c := range w.chunks {
		c.opened = false
	}
	w.checkHeld()
	w.open()
}

func (w *world) file(c *mchunk) []byte {
	b, err := os.ReadFile(w.prov.GetFileNameByID(c.id))
	if err != nil {
		if !os.IsNotExist(err) {
			w.fatalf("could not read the file: %v", err)
		}
		return nil
	}
	return b
}

// remoteContent returns what a new node would get from the remote storage
func (w *world) remoteContent(c *mchunk) []byte {
	key := ""
	w.st.mu.Lock()
	for k := range w.st.data {
		if strings.HasSuffix(k, c.id) {
			key = k
		}
	}
	w.st.mu.Unlock()
	if key == "" {
		return nil
	}
	obj := w.st.object(key)
	if c.lastObj != nil && bytes.Equal(obj, c.lastObj) {
		return c.remote
	}
	w.probes++
	_, r, p := newReplica(filepath.Join(w.dir, fmt.Sprintf("probe%d", w.probes)), w.cfg, w.st)
	defer p.Close()
	if err := r.DownloadChunk(w.ctx, c.id, 0); err != nil {
		w.fatalf("the chunk %s is stored remotely, but it could not be downloaded to a new node: %v", c.id, err)
	}
	b, err := os.ReadFile(p.GetFileNameByID(c.id))
	if err != nil {
		w.fatalf("the chunk %s is downloaded, but it could not be read: %v", c.id, err)
	}
	c.lastObj = obj
	return b
}

// sync gets the state after an operation and compares it with the expectations: what is expected for the chunk is in the model
func (w *world) check() {
	if w.st.tooBig {
		w.fatalf("a broken archive is uploaded")
	}
	for _, c := range w.chunks {
		if c.gone {
			continue
		}
		f := w.file(c)
		if (f == nil) != (c.local == nil) || !bytes.Equal(f, c.local) {
			w.fatalf("chunk %s: the local file has %d bytes (exists=%t), expected %d (%t), the last content: %t", c.id, len(f), f != nil, len(c.local), c.local != nil, bytes.Equal(f, c.latest))
		}
		r := w.remoteContent(c)
		if (r == nil) != (c.remote == nil) || !bytes.Equal(r, c.remote) {
			w.fatalf("chunk %s: the remote copy has %d bytes (exists=%t), expected %d (%t)", c.id, len(r), r != nil, len(c.remote), c.remote != nil)
		}
		if len(c.recs) > 0 && !(c.local != nil && c.good) && !bytes.Equal(c.remote, c.latest) {
			w.fatalf("chunk %s: the last content is lost", c.id)
		}
	}
}

// use opens the chunk, calls fn and releases it
func (w *world) use(c *mchunk, newFile bool, fn func(*chunkfs.Chunk)) error {
	rc, err := w.prov.GetOpenedChunk(w.ctx, c.id, newFile)
	if err != nil {
		return err
	}
	fn(rc.Value())
	w.prov.ReleaseChunk(&rc)
	return nil
}

func (w *world) readAll(c *mchunk, ch *chunkfs.Chunk) {
	cr, err := ch.OpenChunkReader(false)
	if err != nil {
		w.fatalf("could not read the chunk %s: %v", c.id, err)
	}
	defer cr.Close()
	n := 0
	for cr.HasNext() {
		r, _ := cr.Next()
		if n >= len(c.recs) || c.recs[n].id != r.ID.String() || !bytes.Equal(c.recs[n].payload, r.UnsafePayload) {
			w.fatalf("chunk %s: wrong record #%d of %d", c.id, n, len(c.recs))
		}
		n++
	}
	if n != len(c.recs) {
		w.fatalf("chunk %s: %d records are read, expected %d", c.id, n, len(c.recs))
	}
}

// fault arms a fault for the next operation
func (w *world) fault(kinds ...string) string {
	if rapid.IntRange(0, 2).Draw(w.t, "hasFault") > 0 {
		return ""
	}
	f := rapid.SampledFrom(kinds).Draw(w.t, "fault")
	w.st.at = rapid.IntRange(0, 99).Draw(w.t, "faultAt")
	switch f[:3] {
	case "put":
		w.st.put = f[4:]
	case "get":
		w.st.get = f[4:]
	case "del":
		w.st.del = f[4:]
	}
	return f
}

// opened is called when the chunk was opened ok, or was tried to
func (w *world) afterOpen(c *mchunk, err error, fired, what string) bool {
	if fired != "" && err == nil && fired != "get flip" {
		w.fatalf("%s: the transfer failed, but there is no error", what)
	}
	if fired == "" && err != nil {
		w.fatalf("%s failed: %v", what, err)
	}
	if err != nil {
		return false
	}
	if !c.good {
		// it was lost, now it is here again
		c.local, c.good = c.latest, true
	}
	c.opened = true
	return true
}

func (w *world) keepOpened() {
	// the pool is limited: what stays opened is not known if the pool is full
	n := 0
	for _, c := range w.chunks {
		if c.opened {
			n++
		}
	}
	if n >= w.cfg.MaxOpened || rapid.IntRange(0, 2).Draw(w.t, "keepOpened") > 0 {
		w.closeAll()
	}
}

// TestReplication: P09
func TestReplication(t *testing.T) {
	ev.Check(t, "a transfer failed, and a chunk was read from the remote copy", replication(false))
}

// TestReplicationFiles: P45, the same histories
func TestReplicationFiles(t *testing.T) {
	ev.Check(t, "a transfer failed, and a chunk was read from the remote copy", replication(true))
}

func replication(held bool) func(t *rapid.T) {
	return func(t *rapid.T) {
		if held {
			defer ev.NoGC()()
		}
		dir, clean := ev.Dir(t)
		defer clean()
		w := &world{t: t, dir: dir, ctx: ev.Ctx(), cfg: stack.GenCfg(t), st: newStore(), held: held}
		w.cfg.MaxOpened = 4
		sizes := []int{0, 1, 50, 1000, 3000}
		if rapid.IntRange(0, 14).Draw(t, "big") == 0 {
			// up to some megabytes
			w.cfg.New = stack.Block * rapid.Int64Range(100, 800).Draw(t, "bigNew")
			w.cfg.Max = w.cfg.New + stack.Block*rapid.Int64Range(0, 300).Draw(t, "bigMax")
			sizes = append(sizes, 70000, 500000)
		}
		w.open()
		defer func() { _ = w.prov.Close() }()
		suffix := ""
		for i := rapid.IntRange(1, 3).Draw(t, "chunks"); i > 0; i-- {
			id := ulidutils.NewID()
			if suffix != "" && rapid.Bool().Draw(t, "sameFolder") {
				id = id[:len(id)-2] + suffix
			}
			suffix = id[len(id)-2:]
			w.chunks = append(w.chunks, &mchunk{id: id})
		}
		faults, restored := 0, 0
		for i := rapid.IntRange(1, 30).Draw(t, "ops"); i > 0; i-- {
			c := w.chunks[rapid.IntRange(0, len(w.chunks)-1).Draw(t, "chunk")]
			if c.gone {
				continue
			}
			op := rapid.SampledFrom([]string{"append", "append", "read", "read", "upload", "upload", "delete", "delete", "drop", "lose", "lose", "damage", "download", "download", "close", "purge", "both", "full"}).Draw(t, "op")
			hasRemote := c.remote != nil && bytes.Equal(c.remote, c.latest)
			if damaged := c.local != nil && !c.good && len(c.recs) > 0; damaged && (op == "upload" || op == "delete" || op == "full") {
				// the content is not checked when it is uploaded
				continue
			}
			switch op {
			case "append":
				f := w.fault("get error", "get midway", "get short", "get flip")
				missing := !c.good
				var err error
				isNew := len(c.recs) == 0 && c.local == nil && c.remote == nil
				var aerr error
				err = w.use(c, isNew, func(ch *chunkfs.Chunk) {
					var recs []*solaris.Record
					for j := rapid.IntRange(1, 4).Draw(t, "recs"); j > 0; j-- {
						n := rapid.SampledFrom(sizes).Draw(t, "size")
						recs = append(recs, &solaris.Record{Payload: bytes.Repeat([]byte{byte(len(c.recs) + j)}, n)})
					}
					if aerr = w.ca.SetWriting(w.ctx, c.id); aerr != nil {
						return
					}
					defer w.ca.SetIdle(c.id)
					var ar chunkfs.AppendRecordsResult
					ar, aerr = ch.AppendRecords(recs)
					for _, r := range recs[:ar.Written] {
						c.recs = append(c.recs, rec{r.ID, r.Payload})
					}
				})
				fired := w.st.disarm()
				w.logf("append %s %s -> %v %v, %d records", c.id, f, err, aerr, len(c.recs))
				if aerr != nil && !errors.Is(aerr, errors.ErrExhausted) {
					w.fatalf("append failed: %v", aerr)
				}
				if isNew && err == nil {
					c.good = true
				}
				if fired != "" {
					faults++
				}
				if w.afterOpen(c, err, fired, op) {
					c.local = w.file(c)
					c.latest = c.local
					if missing && c.remote != nil {
						restored++
					}
				}
				w.keepOpened()
			case "read":
				if len(c.recs) == 0 {
					continue
				}
				f := w.fault("get error", "get midway", "get short", "get flip")
				missing := !c.good
				err := w.use(c, false, func(ch *chunkfs.Chunk) { w.readAll(c, ch) })
				fired := w.st.disarm()
				w.logf("read %s %s -> %v", c.id, f, err)
				if fired != "" {
					faults++
				}
				if w.afterOpen(c, err, fired, op) && missing {
					restored++
				}
				w.keepOpened()
			case "upload":
				f := w.fault("put before", "put half", "put after")
				err := w.repl.UploadChunk(w.ctx, c.id)
				fired := w.st.disarm()
				w.logf("upload %s %s -> %v", c.id, f, err)
				if fired != "" {
					faults++
				}
				if (err == nil) != (fired == "" && c.local != nil) {
					w.fatalf("upload of %s (local=%t): %v, fault %q", c.id, c.local != nil, err, fired)
				}
				if c.local != nil && (fired == "" || fired == "put after") {
					c.remote, c.remoteRecs = c.local, len(c.recs)
				}
			case "delete":
				f := w.fault("put before", "put half", "put after")
				err := w.repl.DeleteChunk(w.ctx, c.id, chunkfs.RFRemoteSync)
				fired := w.st.disarm()
				w.logf("delete with sync %s %s -> %v", c.id, f, err)
				if fired != "" {
					faults++
				}
				switch {
				case c.opened:
					if !errors.Is(err, errors.ErrConflict) {
						w.fatalf("delete of the opened chunk %s: expected ErrConflict, got %v", c.id, err)
					}
				case c.local == nil:
				case (err == nil) != (fired == ""):
					w.fatalf("delete of %s: %v, fault %q", c.id, err, fired)
				default:
					if fired == "" || fired == "put after" {
						c.remote, c.remoteRecs = c.local, len(c.recs)
					}
					if fired == "" {
						c.local, c.good = nil, false
					}
				}
			case "drop":
				// remove locally without uploading, if it can be done safely
				if !hasRemote {
					continue
				}
				err := w.repl.DeleteChunk(w.ctx, c.id, 0)
				w.logf("delete %s -> %v", c.id, err)
				if c.opened {
					if !errors.Is(err, errors.ErrConflict) {
						w.fatalf("delete of the opened chunk %s: expected ErrConflict, got %v", c.id, err)
					}
					continue
				}
				if err != nil {
					w.fatalf("delete of %s: %v", c.id, err)
				}
				c.local, c.good = nil, false
			case "lose":
				if !hasRemote || c.opened {
					continue
				}
				fn := w.prov.GetFileNameByID(c.id)
				_ = os.Remove(fn)
				_ = os.Remove(filepath.Dir(fn)) // with the folder, if it is empty
				w.logf("lose %s", c.id)
				c.local, c.good = nil, false
			case "damage":
				if !hasRemote || c.opened || c.local == nil {
					continue
				}
				if len(c.recs) == 0 {
					continue
				}
				// the last record ends behind the file
				b := bytes.Clone(c.local)
				binary.BigEndian.PutUint32(b[len(b)-stack.RecMeta*len(c.recs)+16:], 0x70000000)
				if err := os.WriteFile(w.prov.GetFileNameByID(c.id), b, 0644); err != nil {
					t.Fatal(err)
				}
				w.logf("damage %s", c.id)
				c.local, c.good = b, false
			case "download":
				flags := rapid.SampledFrom([]int{0, chunkfs.RFRemoteSync}).Draw(t, "flags")
				if c.opened || flags != 0 && !hasRemote && c.remote != nil && c.local != nil {
					continue
				}
				f := w.fault("get error", "get midway", "get short", "get flip")
				err := w.repl.DownloadChunk(w.ctx, c.id, flags)
				fired := w.st.disarm()
				w.logf("download %s flags=%d %s -> %v", c.id, flags, f, err)
				if fired != "" {
					faults++
				}
				switch {
				case flags == 0 && c.local != nil:
					if err != nil || fired != "" {
						w.fatalf("the chunk %s is here, but it is downloaded: %v, fault %q", c.id, err, fired)
					}
				case err == nil && (fired != "" && fired != "get flip" || c.remote == nil):
					w.fatalf("download of %s without an error, fault %q, remote=%t", c.id, fired, c.remote != nil)
				case err != nil && fired == "" && c.remote != nil:
					w.fatalf("download of %s: %v", c.id, err)
				case err == nil:
					c.local, c.good = c.remote, bytes.Equal(c.remote, c.latest)
				}
			case "close":
				w.closeAll()
				w.logf("close")
			case "purge":
				if rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					continue
				}
				f := w.fault("del before", "del after")
				err := w.repl.DeleteChunk(w.ctx, c.id, chunkfs.RFRemoteDelete)
				fired := w.st.disarm()
				w.logf("purge %s %s -> %v", c.id, f, err)
				if c.opened {
					if !errors.Is(err, errors.ErrConflict) || fired != "" {
						w.fatalf("delete of the opened chunk %s: expected ErrConflict, got %v", c.id, err)
					}
					continue
				}
				if (err == nil) != (fired == "") {
					w.fatalf("delete of %s: %v, fault %q", c.id, err, fired)
				}
				c.gone = true
				if err == nil && (w.file(c) != nil || w.remoteContent(c) != nil) {
					w.fatalf("the chunk %s is deleted, but it is still here", c.id)
				}
			case "both":
				if err := w.repl.DeleteChunk(w.ctx, c.id, chunkfs.RFRemoteDelete|chunkfs.RFRemoteSync); !errors.Is(err, errors.ErrInvalid) {
					w.fatalf("delete with both the flags: expected ErrInvalid, got %v", err)
				}
			case "full":
				// no space for the archive: everything is as it was, or the operation is completed
				if c.local == nil || c.opened {
					continue
				}
				fn := w.prov.GetFileNameByID(c.id)
				if err := os.Symlink("/dev/full", fn+".zip"); err != nil {
					t.Fatal(err)
				}
				del := rapid.Bool().Draw(t, "fullDelete")
				var err error
				if del {
					err = w.repl.DeleteChunk(w.ctx, c.id, chunkfs.RFRemoteSync)
				} else {
					err = w.repl.UploadChunk(w.ctx, c.id)
				}
				_ = os.Remove(fn + ".zip")
				w.logf("no space: delete=%t %s -> %v", del, c.id, err)
				if err == nil {
					c.remote, c.remoteRecs = c.local, len(c.recs)
					if del {
						c.local, c.good = nil, false
					}
				} else {
					faults++
				}
			}
			w.check()
			w.checkHeld()
		}
		// everything is read at the end, on a new node if possible
		w.closeAll()
		for _, c := range w.chunks {
			if c.gone || len(c.recs) == 0 {
				continue
			}
			missing := !c.good
			if err := w.use(c, false, func(ch *chunkfs.Chunk) { w.readAll(c, ch) }); err != nil {
				w.fatalf("the chunk %s cannot be opened: %v", c.id, err)
			}
			if missing {
				restored++
			}
		}
		w.closeAll()
		ev.Case(t, faults > 0 && restored > 0, "%s", strings.Join(w.trace, "; "))
	}
}
