package coll

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"pgregory.net/rapid"
)

// TestMMFile: P35
func TestMMFile(t *testing.T) {
	const B = files.BlockSize
	ev.Check(t, "something was written, then the file was grown and reopened", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		fn := filepath.Join(dir, "f")
		if _, err := files.NewMMFile(fn, B); err == nil {
			t.Fatal("the file does not exist, but it is mapped")
		}
		model := make([]byte, rapid.IntRange(0, 3).Draw(t, "initial")*B+rapid.SampledFrom([]int{0, 0, 1, 900, B - 1}).Draw(t, "tail"))
		for i := range model {
			model[i] = byte(i * 3)
		}
		if err := os.WriteFile(fn, model, 0644); err != nil {
			t.Fatal(err)
		}
		var trace []string
		var mmf *files.MMFile
		open := func() {
			for {
				min := rapid.SampledFrom([]int64{B, 2 * B, 3 * B, 5 * B, -1, 0, 1, B - 1, B + 1, 5*B + 7}).Draw(t, "minSize")
				trace = append(trace, fmt.Sprintf("open%d", min))
				f, err := files.NewMMFile(fn, min)
				want := min
				if want < 0 {
					want = int64(len(model))
				}
				if want <= 0 || want%B != 0 {
					if err == nil {
						t.Fatalf("the size is accepted\n%v", trace)
					}
					continue
				}
				if err != nil {
					t.Fatalf("%v\n%v", err, trace)
				}
				mmf = f
				if int64(len(model)) < want {
					model = append(model, make([]byte, want-int64(len(model)))...)
				}
				return
			}
		}
		open()
		defer func() { mmf.Close() }()
		check := func() {
			t.Helper()
			if mmf.Size() != int64(len(model)) {
				t.Fatalf("size %d, expected %d\n%v", mmf.Size(), len(model), trace)
			}
			b, err := mmf.Buffer(0, len(model))
			if err != nil || !bytes.Equal(b, model) {
				t.Fatalf("the mapped content is wrong: %v\n%v", err, trace)
			}
			b, err = os.ReadFile(fn)
			if err != nil || !bytes.Equal(b, model) {
				t.Fatalf("the file content is wrong: %d bytes, expected %d, %v\n%v", len(b), len(model), err, trace)
			}
		}
		check()
		wrote, grown, reopened := false, false, false
		for n := rapid.IntRange(1, 30).Draw(t, "ops"); n > 0; n-- {
			switch rapid.IntRange(0, 6).Draw(t, "op") {
			case 0, 1, 2:
				offs := rapid.IntRange(0, len(model)-1).Draw(t, "offs")
				if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
					offs = len(model) - 1
				}
				sz := rapid.SampledFrom([]int{0, 1, 2, 100, B, B + 1, len(model), len(model) + 1, math.MaxInt64, math.MaxInt64 - 100}).Draw(t, "size")
				trace = append(trace, fmt.Sprintf("w%d+%d", offs, sz))
				b, err := mmf.Buffer(int64(offs), sz)
				if want := min(sz, len(model)-offs); err != nil || len(b) != want {
					t.Fatalf("%d bytes of %d, %v\n%v", len(b), want, err, trace)
				}
				x := byte(len(trace) * 31)
				for i := range b {
					b[i] = x + byte(i)
					model[offs+i] = x + byte(i)
				}
				wrote = wrote || len(b) > 0
			case 3:
				cur := int64(len(model))
				sz := cur - cur%B + rapid.SampledFrom([]int64{B, 2 * B, 3 * B, -B, -1, 0, 1, B - 1, 7*B + 1}).Draw(t, "grow")
				if rapid.IntRange(0, 9).Draw(t, "same") == 0 {
					sz = cur
				}
				trace = append(trace, fmt.Sprintf("grow%d", sz))
				err := mmf.Grow(sz)
				if sz == cur || sz > cur && sz%B == 0 {
					if err != nil {
						t.Fatalf("%v\n%v", err, trace)
					}
					model = append(model, make([]byte, sz-cur)...)
					grown = grown || sz > cur && wrote
				} else if !errors.Is(err, errors.ErrInvalid) {
					t.Fatalf("the wrong new size is accepted, %v\n%v", err, trace)
				}
			case 4:
				trace = append(trace, "reopen")
				if err := mmf.Close(); err != nil {
					t.Fatalf("%v\n%v", err, trace)
				}
				if b, err := mmf.Buffer(0, 1); err == nil {
					t.Fatalf("%d bytes of the closed file\n%v", len(b), trace)
				}
				if mmf.Grow(int64(len(model)+B)) == nil || mmf.Flush() == nil {
					t.Fatalf("operations on the closed file\n%v", trace)
				}
				if err := mmf.Close(); err != nil {
					t.Fatalf("the second close: %v\n%v", err, trace)
				}
				if b, _ := os.ReadFile(fn); !bytes.Equal(b, model) {
					t.Fatalf("the closed file is wrong\n%v", trace)
				}
				open()
				reopened = reopened || grown
			case 5:
				offs := rapid.SampledFrom([]int64{-1, -B, int64(len(model)), int64(len(model)) + 1, 1 << 40}).Draw(t, "bad")
				trace = append(trace, fmt.Sprintf("buf%d", offs))
				if b, err := mmf.Buffer(offs, rapid.IntRange(0, 10).Draw(t, "sz")); err == nil {
					t.Fatalf("%d bytes\n%v", len(b), trace)
				}
			default:
				trace = append(trace, "flush")
				if err := mmf.Flush(); err != nil {
					t.Fatalf("%v\n%v", err, trace)
				}
			}
			check()
		}
		ev.Case(t, wrote && grown && reopened, "%s", strings.Join(trace, " "))
	})
}
