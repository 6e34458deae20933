package chunk

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"solverif/ev"
	"solverif/stack"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

type (
	mrec struct {
		id      ulid.ULID
		payload []byte
	}

	world struct {
		t     *rapid.T
		cfg   stack.Cfg
		fn    string
		c     *chunkfs.Chunk
		recs  []mrec
		used  int
		grown bool
		trace []string
		seq   int
	}
)

func (w *world) fatalf(format string, args ...any) {
	w.t.Fatalf("%s\ncfg=%s history: %s", fmt.Sprintf(format, args...), w.cfg, strings.Join(w.trace, "; "))
}

func (w *world) left() int { return int(w.cfg.Max) - stack.HdrSize - w.used }

func (w *world) open(full bool) {
	w.trace = append(w.trace, fmt.Sprintf("open(%t)", full))
	w.c = chunkfs.NewChunk(w.fn, "c1", w.cfg.Chunk())
	if err := w.c.Open(full); err != nil {
		w.fatalf("could not open the chunk (full check=%t): %v", full, err)
	}
}

func (w *world) reopen(full bool) {
	if err := w.c.Close(); err != nil {
		w.fatalf("close: %v", err)
	}
	w.open(full)
}

func payload(seq, size int) []byte {
	b := make([]byte, size)
	x := uint32(seq)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func (w *world) append() {
	t := w.t
	n := rapid.IntRange(0, 20).Draw(t, "batch")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n *= 20
	}
	var recs []*solaris.Record
	var sizes []int
	left := w.left()
	fit, used := 0, 0
	small := n > 20 || rapid.Bool().Draw(t, "small")
	for i := 0; i < n; i++ {
		var s int
		k := 0
		if !small {
			k = rapid.IntRange(0, 9).Draw(t, "kind")
		}
		switch {
		case k <= 5:
			s = rapid.IntRange(0, 60).Draw(t, "size")
		case k <= 6:
			s = rapid.IntRange(0, 3000).Draw(t, "size")
		case k <= 8:
			s = left - used - stack.RecMeta + rapid.IntRange(-30, 3).Draw(t, "size")
		default:
			s = rapid.IntRange(0, int(w.cfg.Max)).Draw(t, "size")
		}
		s = max(0, s)
		sizes = append(sizes, s)
		w.seq++
		recs = append(recs, &solaris.Record{Payload: payload(w.seq, s)})
		if fit == i && used+s+stack.RecMeta <= left {
			fit++
			used += s + stack.RecMeta
		}
	}
	if n > 20 {
		w.trace = append(w.trace, fmt.Sprintf("append(%d of %v...)", n, sizes[:3]))
	} else {
		w.trace = append(w.trace, fmt.Sprintf("append(%v)", sizes))
	}
	before := w.size()
	res, err := w.c.AppendRecords(recs)
	if sz := w.size(); sz > w.cfg.Max || sz < before {
		w.fatalf("the file has %d bytes, the maximum is %d, it was %d before", sz, w.cfg.Max, before)
	} else if sz > before {
		w.grown = true
	}
	if err != nil {
		if !errors.Is(err, errors.ErrExhausted) || fit == len(recs) || res.Written != 0 {
			w.fatalf("append failed (written=%d): %v", res.Written, err)
		}
		ev.Label(t, "exhausted")
		return
	}
	if res.Written != fit {
		w.fatalf("written %d, but exactly %d of %d records fit", res.Written, fit, n)
	}
	if fit < n {
		ev.Label(t, "partially")
	}
	for i := 0; i < fit; i++ {
		id, err := ulid.ParseStrict(recs[i].ID)
		if err != nil {
			w.fatalf("wrong ID %q is assigned: %v", recs[i].ID, err)
		}
		w.recs = append(w.recs, mrec{id: id, payload: payload(w.seq-n+1+i, sizes[i])})
		if i == 0 && id != res.StartID || i == fit-1 && id != res.LastID {
			w.fatalf("wrong IDs of the result: %+v", res)
		}
	}
	w.used += used
}

func (w *world) size() int64 {
	fi, err := os.Stat(w.fn)
	if err != nil {
		w.fatalf("no chunk file: %v", err)
	}
	return fi.Size()
}

func (w *world) read(desc bool, exp []mrec, setup func(cr *chunkfs.ChunkReader)) {
	cr, err := w.c.OpenChunkReader(desc)
	if err != nil {
		w.fatalf("could not open the reader: %v", err)
	}
	defer cr.Close()
	if setup != nil {
		setup(cr)
	}
	for i := range exp {
		e := exp[i]
		if desc {
			e = exp[len(exp)-1-i]
		}
		if !cr.HasNext() {
			w.fatalf("desc=%t: the reader has %d records, expected %d", desc, i, len(exp))
		}
		r, ok := cr.Next()
		if !ok || r.ID != e.id || !bytes.Equal(r.UnsafePayload, e.payload) {
			w.fatalf("desc=%t: the record %d is %s with %d bytes %.30q (%t), expected %s, %d bytes %.30q", desc, i, r.ID, len(r.UnsafePayload), r.UnsafePayload, ok, e.id, len(e.payload), e.payload)
		}
	}
	if cr.HasNext() {
		w.fatalf("desc=%t: the reader has more than %d records", desc, len(exp))
	}
	if _, ok := cr.Next(); ok {
		w.fatalf("desc=%t: the reader returns more than %d records", desc, len(exp))
	}
}

func newWorld(t *rapid.T) (*world, func()) {
	dir, clean := ev.Dir(t)
	w := &world{t: t, cfg: stack.GenCfg(t), fn: filepath.Join(dir, "c1")}
	f, err := os.Create(w.fn)
	if err != nil {
		t.Fatalf("%v", err)
	}
	_ = f.Close()
	w.open(rapid.Bool().Draw(t, "full"))
	return w, func() {
		_ = w.c.Close()
		clean()
	}
}

// TestCapacity: P05 on the level of a chunk
func TestCapacity(t *testing.T) {
	ev.Check(t, "the chunk file has grown, or an append is cut by the maximum size", func(t *rapid.T) {
		w, clean := newWorld(t)
		defer clean()
		for n := rapid.IntRange(1, 12).Draw(t, "ops"); n > 0; n-- {
			w.append()
			if rapid.IntRange(0, 3).Draw(t, "check") == 0 {
				w.read(rapid.Bool().Draw(t, "desc"), w.recs, nil)
			}
		}
		w.read(false, w.recs, nil)
		ev.Case(t, w.grown || w.left() < 200, "cfg=%s %s", w.cfg, strings.Join(w.trace, "; "))
	})
}

func step(id ulid.ULID, d int) ulid.ULID {
	for i := len(id) - 1; i >= 0; i-- {
		id[i] += byte(d)
		if d > 0 && id[i] != 0 || d < 0 && id[i] != 0xff {
			break
		}
	}
	return id
}

// TestReopen: P06
func TestReopen(t *testing.T) {
	ev.Check(t, "the chunk has more than one record and was reopened after an append", func(t *rapid.T) {
		w, clean := newWorld(t)
		defer clean()
		reopens := 0
		for n := rapid.IntRange(1, 15).Draw(t, "ops"); n > 0; n-- {
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0, 1, 2:
				w.append()
			case 3:
				w.read(rapid.Bool().Draw(t, "desc"), w.recs, nil)
			case 4:
				if len(w.recs) > 0 {
					reopens++
				}
				w.reopen(rapid.Bool().Draw(t, "full"))
			case 5:
				w.seek()
			}
		}
		w.reopen(rapid.Bool().Draw(t, "full"))
		w.read(true, w.recs, nil)
		w.read(false, w.recs, nil)
		w.seek()
		ev.Case(t, len(w.recs) > 1 && reopens > 0, "cfg=%s %d records %s", w.cfg, len(w.recs), strings.Join(w.trace, "; "))
	})
}

func (w *world) seek() {
	t := w.t
	for n := rapid.IntRange(1, 4).Draw(t, "seeks"); n > 0; n-- {
		var id ulid.ULID
		if len(w.recs) > 0 && rapid.IntRange(0, 5).Draw(t, "known") > 0 {
			id = rapid.SampledFrom(w.recs).Draw(t, "rec").id
			switch rapid.IntRange(0, 3).Draw(t, "step") {
			case 0:
				id = step(id, -1)
			case 1:
				id = step(id, 1)
			}
		} else {
			copy(id[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "anyID"))
		}
		desc := rapid.Bool().Draw(t, "desc")
		var exp []mrec
		for _, r := range w.recs {
			if c := r.id.Compare(id); !desc && c >= 0 || desc && c <= 0 {
				exp = append(exp, r)
			}
		}
		w.trace = append(w.trace, fmt.Sprintf("seek(%s,%t)", id, desc))
		w.read(desc, exp, func(cr *chunkfs.ChunkReader) {
			if rapid.Bool().Draw(t, "readBefore") {
				cr.Next()
			}
			if got := cr.SetStartID(id); got != len(exp) {
				w.fatalf("SetStartID(%s) desc=%t reports %d records, expected %d", id, desc, got, len(exp))
			}
		})
	}
}

// valid is the reference of the full check
func valid(b []byte) bool {
	total := int64(binary.BigEndian.Uint32(b[8:12]))
	if total*stack.RecMeta+stack.HdrSize > int64(len(b)) {
		return false
	}
	offs := int64(stack.HdrSize)
	var prev ulid.ULID
	for i := int64(0); i < total; i++ {
		m := b[int64(len(b))-(i+1)*stack.RecMeta:][:stack.RecMeta]
		var id ulid.ULID
		copy(id[:], m)
		o, s := int64(int32(binary.BigEndian.Uint32(m[16:]))), int64(int32(binary.BigEndian.Uint32(m[20:])))
		if id.Compare(prev) < 0 || o != offs || s < 0 || o+s > int64(len(b))-total*stack.RecMeta {
			return false
		}
		prev = id
		offs = o + s
	}
	return true
}

// TestDamaged: P06 - the full check
func TestDamaged(t *testing.T) {
	ev.Check(t, "the record table has at least two records and the damage is one to be found", func(t *rapid.T) {
		w, clean := newWorld(t)
		defer clean()
		for n := rapid.IntRange(1, 4).Draw(t, "appends"); n > 0; n-- {
			w.append()
		}
		_ = w.c.Close()
		orig, err := os.ReadFile(w.fn)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if !valid(orig) {
			w.fatalf("the record table of the file is not as expected")
		}
		w.open(true)
		_ = w.c.Close()
		for k := rapid.IntRange(1, 6).Draw(t, "damages"); k > 0 && len(w.recs) > 0; k-- {
			b := bytes.Clone(orig)
			i := rapid.IntRange(0, len(w.recs)-1).Draw(t, "entry")
			m := b[len(b)-(i+1)*stack.RecMeta:][:stack.RecMeta]
			what := ""
			switch rapid.IntRange(0, 6).Draw(t, "what") {
			case 0:
				j := rapid.IntRange(0, 23).Draw(t, "byte")
				v := byte(rapid.IntRange(1, 255).Draw(t, "xor"))
				m[j] ^= v
				what = fmt.Sprintf("entry %d, byte %d ^ %x", i, j, v)
			case 1:
				d := rapid.SampledFrom([]int{-1, 1, 24, -24, 4096}).Draw(t, "delta")
				binary.BigEndian.PutUint32(m[16:], binary.BigEndian.Uint32(m[16:])+uint32(d))
				what = fmt.Sprintf("entry %d, offset %+d", i, d)
			case 2:
				d := rapid.SampledFrom([]int{-1, 1, 24, -24, 4096}).Draw(t, "delta")
				binary.BigEndian.PutUint32(m[20:], binary.BigEndian.Uint32(m[20:])+uint32(d))
				what = fmt.Sprintf("entry %d, size %+d", i, d)
			case 3:
				j := rapid.IntRange(0, len(w.recs)-1).Draw(t, "entry2")
				m2 := b[len(b)-(j+1)*stack.RecMeta:][:stack.RecMeta]
				tmp := bytes.Clone(m)
				copy(m, m2)
				copy(m2, tmp)
				what = fmt.Sprintf("entries %d and %d are swapped", i, j)
			case 4:
				for j := range m {
					m[j] = 0
				}
				what = fmt.Sprintf("entry %d is zeroed", i)
			case 5:
				v := rapid.SampledFrom([]uint32{0, 1, uint32(len(w.recs) - 1), uint32(len(w.recs) + 1), 0xffffffff, 0x80000000, 1000000, 0x7fffffff, uint32(len(b) / 24)}).Draw(t, "total")
				binary.BigEndian.PutUint32(b[8:], v)
				what = fmt.Sprintf("total=%d", v)
			case 6:
				v := rapid.Uint32().Draw(t, "anySize")
				binary.BigEndian.PutUint32(m[20:], v)
				what = fmt.Sprintf("entry %d, size=%d", i, int32(v))
			}
			if err := os.WriteFile(w.fn, b, 0644); err != nil {
				t.Fatalf("%v", err)
			}
			c := chunkfs.NewChunk(w.fn, "c1", w.cfg.Chunk())
			err := c.Open(true)
			_ = c.Close()
			ok := valid(b)
			if (err == nil) != ok {
				w.fatalf("%d records, %s: valid=%t, but the full check returns %v", len(w.recs), what, ok, err)
			}
			ev.Case(t, len(w.recs) > 1 && !ok, "%d records, %s, valid=%t %s", len(w.recs), what, ok, strings.Join(w.trace, "; "))
		}
	})
}
