package coll

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"solverif/ev"

	gb "github.com/solarisdb/solaris/golibs/container/bytes"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"pgregory.net/rapid"
)

// keepOpen doesn't close the storage
type storage = gb.Buffer

type keepOpen struct{ st storage }

func (k keepOpen) Size() int64              { return k.st.Size() }
func (k keepOpen) Grow(newSize int64) error { return k.st.Grow(newSize) }
func (k keepOpen) Buffer(offs int64, size int) ([]byte, error) {
	return k.st.Buffer(offs, size)
}

func (keepOpen) Close() error { return nil }

// TestBlocks: P32
func TestBlocks(t *testing.T) {
	ev.Check(t, "the storage was full or reopened with some blocks allocated and some freed ones", func(t *rapid.T) {
		bs := rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(t, "blockSize")
		segs := rapid.IntRange(1, 3).Draw(t, "segments")
		fit := rapid.Bool().Draw(t, "fit")
		segSize := (bs*8 + 1) * bs
		size := segs * segSize
		if !fit {
			size += rapid.IntRange(0, segSize-1).Draw(t, "extra")
		}
		var under gb.Buffer
		mapped := !fit && rapid.IntRange(0, 7).Draw(t, "mapped") == 0
		var reopenFile func()
		if mapped {
			// over a memory mapped file
			dir, clean := ev.Dir(t)
			defer clean()
			fn := filepath.Join(dir, "f")
			if err := os.WriteFile(fn, nil, 0644); err != nil {
				t.Fatal(err)
			}
			size = (size + files.BlockSize - 1) / files.BlockSize * files.BlockSize
			segs = size / segSize
			open := func() {
				mmf, err := files.NewMMFile(fn, int64(size))
				if err != nil {
					t.Fatal(err)
				}
				under = mmf
			}
			open()
			reopenFile = func() {
				if err := under.Close(); err != nil {
					t.Fatal(err)
				}
				open()
			}
			defer func() { under.Close() }()
		} else {
			under = gb.NewInMemBytes(size)
		}
		count := segs * bs * 8
		bks, err := gb.NewBlocks(bs, keepOpen{under}, fit)
		if err != nil {
			t.Fatalf("block size %d, storage %d: %v", bs, size, err)
		}
		content := map[int]byte{}
		var trace []string
		wasFull, freed, reopened := false, 0, false
		ops := rapid.IntRange(1, 60).Draw(t, "ops")
		check := func() {
			t.Helper()
			if bks.Count() != count || bks.Segments() != segs || bks.Available() != count-len(content) {
				t.Fatalf("bs=%d segs=%d: count=%d segments=%d available=%d, allocated %d of %d\n%v", bs, segs, bks.Count(), bks.Segments(), bks.Available(), len(content), count, trace)
			}
			if c := bks.Completion(); c < 0 || c > 1 || int(c*float32(count)+0.5) != len(content) {
				t.Fatalf("completion=%f, allocated %d of %d\n%v", c, len(content), count, trace)
			}
			for idx, x := range content {
				b, err := bks.Block(idx)
				if err != nil || len(b) != bs {
					t.Fatalf("block %d: %d bytes, %v\n%v", idx, len(b), err, trace)
				}
				for i := range b {
					if b[i] != x^byte(i) {
						t.Fatalf("block %d is %x, expected %x^i\n%v", idx, b, x, trace)
					}
				}
			}
		}
		arrange := func() {
			idx, err := bks.ArrangeBlock()
			if len(content) == count {
				wasFull = true
				if !errors.Is(err, errors.ErrExhausted) {
					t.Fatalf("allocated %d in the full storage: %v\n%v", idx, err, trace)
				}
				return
			}
			if err != nil || idx < 0 || idx >= count {
				t.Fatalf("allocated %d with %d of %d allocated: %v\n%v", idx, len(content), count, err, trace)
			}
			if _, ok := content[idx]; ok {
				t.Fatalf("block %d is allocated again\n%v", idx, trace)
			}
			x := byte(len(trace)*37 + idx)
			b, err := bks.Block(idx)
			if err != nil || len(b) != bs {
				t.Fatalf("block %d: %d bytes, %v\n%v", idx, len(b), err, trace)
			}
			for i := range b {
				b[i] = x ^ byte(i)
			}
			content[idx] = x
		}
		free := func(idx int) {
			_, ok := content[idx]
			err := bks.FreeBlock(idx)
			switch {
			case ok && err != nil:
				t.Fatalf("freeing %d: %v\n%v", idx, err, trace)
			case !ok && idx >= 0 && idx < count && !errors.Is(err, errors.ErrNotExist):
				t.Fatalf("freeing the free block %d: %v\n%v", idx, err, trace)
			case (idx < 0 || idx >= count) && !errors.Is(err, errors.ErrInvalid):
				t.Fatalf("freeing the block %d of %d: %v\n%v", idx, count, err, trace)
			}
			if ok {
				freed++
				delete(content, idx)
			}
		}
		for ; ops > 0; ops-- {
			switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
			case k < 3:
				trace = append(trace, "a")
				arrange()
			case k < 5:
				n := rapid.SampledFrom([]int{7, 8, 9, bs * 8, count / 2, count, count + 1}).Draw(t, "many")
				trace = append(trace, fmt.Sprintf("a*%d", n))
				for ; n > 0; n-- {
					arrange()
				}
			case k < 8:
				n := 1
				if k == 7 {
					n = rapid.IntRange(1, 20).Draw(t, "frees")
				}
				for ; n > 0; n-- {
					idx := rapid.IntRange(0, count-1).Draw(t, "idx")
					trace = append(trace, fmt.Sprintf("f%d", idx))
					free(idx)
				}
			case k == 8:
				idx := rapid.SampledFrom([]int{-1, -8, -bs * 8, count, count + 1, count + bs*8, 1 << 40}).Draw(t, "bad")
				trace = append(trace, fmt.Sprintf("f%d", idx))
				free(idx)
				if b, err := bks.Block(idx); err == nil {
					t.Fatalf("block %d of %d: %d bytes\n%v", idx, count, len(b), trace)
				}
			default:
				trace = append(trace, "reopen")
				if err := bks.Close(); err != nil {
					t.Fatal(err)
				}
				if mapped {
					reopenFile()
				}
				if bks, err = gb.NewBlocks(bs, keepOpen{under}, fit); err != nil {
					t.Fatal(err)
				}
				reopened = reopened || len(content) > 0 && freed > 0
			}
			check()
		}
		ev.Case(t, wasFull || reopened, "bs=%d segs=%d fit=%t mapped=%t %.150s", bs, segs, fit, mapped, strings.Join(trace, " "))
	})
}

// TestBlocksGeometry: P32 - wrong and correct geometries
func TestBlocksGeometry(t *testing.T) {
	page := os.Getpagesize()
	ev.Check(t, "the block size is wrong or the storage size is not a whole number of segments", func(t *rapid.T) {
		bs := rapid.SampledFrom([]int{-4096, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 24, 32}).Draw(t, "bs")
		if rapid.Bool().Draw(t, "bigBS") {
			bs = rapid.SampledFrom([]int{33, 48, 64, 100, 1000, 1024, 3000, page / 2, page - 1, page + 1, page + page/2, page * 2, page * 3, page*3 + 8}).Draw(t, "bs2")
		}
		valid := bs > 0 && (bs < page && bs&(bs-1) == 0 || bs >= page && bs%page == 0)
		n := gb.GetBlocksInSegment(bs)
		if !valid && n != -1 || valid && n != bs*8+1 {
			t.Fatalf("GetBlocksInSegment(%d)=%d", bs, n)
		}
		seg := 64
		if bs > 0 {
			seg = (bs*8 + 1) * bs
		}
		if seg > 1<<21 {
			seg = 1 << 21 // don't allocate too much, it is too small for a segment
		}
		size := max(0, seg*rapid.IntRange(0, 2).Draw(t, "segs")+rapid.SampledFrom([]int{0, 0, 1, -1, 7}).Draw(t, "delta"))
		fit := rapid.Bool().Draw(t, "fit")
		buf := gb.NewInMemBytes(size)
		bks, err := gb.NewBlocks(bs, buf, fit)
		real := (bs*8 + 1) * bs
		ok := valid && size >= real && (!fit || size%real == 0)
		if ok && err != nil {
			t.Fatalf("bs=%d size=%d fit=%t: %v", bs, size, fit, err)
		}
		if !ok && !errors.Is(err, errors.ErrInvalid) {
			t.Fatalf("the wrong geometry bs=%d size=%d fit=%t is accepted, %v", bs, size, fit, err)
		}
		if b, _ := buf.Buffer(0, size); !ok && len(bytes.Trim(b, "\x00")) > 0 {
			t.Fatalf("bs=%d size=%d: the storage is changed", bs, size)
		}
		if ok && bks.Count() != size/real*bs*8 {
			t.Fatalf("bs=%d size=%d: %d blocks", bs, size, bks.Count())
		}
		ev.Case(t, !ok, "bs=%d size=%d fit=%t", bs, size, fit)
	})
}
