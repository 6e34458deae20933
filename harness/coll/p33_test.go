package coll

import (
	"fmt"
	"io"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container"
	"github.com/solarisdb/solaris/golibs/errors"
	"pgregory.net/rapid"
)

// TestRing: P33 - random operations against a slice
func TestRing(t *testing.T) {
	ev.Check(t, "the buffer wraps around at least once and was full at least once", func(t *rapid.T) {
		size := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 7, 8, 49, 50, 51, 70, 130}).Draw(t, "capacity")
		var r container.RingBuffer[*int] = container.NewRingBuffer[*int](uint(size))
		var model []*int
		var trace []string
		written, wasFull := 0, false
		write := func() {
			v := new(int)
			*v = written
			err := r.Write(v)
			if len(model) == size {
				wasFull = true
				if !errors.Is(err, errors.ErrExhausted) {
					t.Fatalf("a write into the full buffer: %v\n%v", err, trace)
				}
				return
			}
			if err != nil {
				t.Fatalf("the write failed: %v\n%v", err, trace)
			}
			written++
			model = append(model, v)
		}
		for n := rapid.IntRange(1, 60).Draw(t, "ops"); n > 0; n-- {
			switch op := rapid.SampledFrom([]string{"write", "write", "writes", "read", "readN", "skip", "clear", "at"}).Draw(t, "op"); op {
			case "write":
				trace = append(trace, "w")
				write()
			case "writes":
				k := rapid.IntRange(0, size+2).Draw(t, "k")
				trace = append(trace, fmt.Sprintf("w*%d", k))
				for ; k > 0; k-- {
					write()
				}
			case "read":
				trace = append(trace, "r")
				v, err := r.Read()
				if len(model) == 0 {
					if !errors.Is(err, io.EOF) || v != nil {
						t.Fatalf("a read of the empty buffer: %v %v\n%v", v, err, trace)
					}
				} else if err != nil || v != model[0] {
					t.Fatalf("read %v %v, expected #%d\n%v", v, err, *model[0], trace)
				} else {
					model = model[1:]
				}
			case "readN":
				k := rapid.IntRange(0, size+3).Draw(t, "k")
				trace = append(trace, fmt.Sprintf("r%d", k))
				mark := new(int)
				dst := make([]*int, k+2)
				for i := range dst {
					dst[i] = mark
				}
				got := r.ReadN(dst[:k])
				exp := min(k, len(model))
				if got != exp {
					t.Fatalf("ReadN(%d) returns %d, expected %d\n%v", k, got, exp, trace)
				}
				for i, v := range dst {
					if i < exp && v != model[i] || i >= exp && v != mark {
						t.Fatalf("ReadN(%d): wrong element %d\n%v", k, i, trace)
					}
				}
				model = model[exp:]
			case "skip":
				k := rapid.IntRange(-1, size+3).Draw(t, "k")
				trace = append(trace, fmt.Sprintf("s%d", k))
				got := r.Skip(k)
				exp := max(0, min(k, len(model)))
				if got != exp {
					t.Fatalf("Skip(%d) returns %d, expected %d\n%v", k, got, exp, trace)
				}
				model = model[exp:]
			case "clear":
				if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
					trace = append(trace, "clear")
					r.Clear()
					model = nil
				}
			case "at":
				i := rapid.SampledFrom([]int{-1, len(model), len(model) + 1, size, 1 << 40}).Draw(t, "idx")
				if i >= 0 && i < len(model) {
					continue
				}
				if panics(func() { r.At(i) }) == nil {
					t.Fatalf("At(%d) is accepted with %d elements\n%v", i, len(model), trace)
				}
			}
			if r.Len() != len(model) || r.Cap() != size {
				t.Fatalf("len=%d cap=%d, expected %d %d\n%v", r.Len(), r.Cap(), len(model), size, trace)
			}
			for i, v := range model {
				if r.At(i) != v {
					t.Fatalf("At(%d) is wrong\n%v", i, trace)
				}
			}
		}
		ev.Case(t, wasFull && written > size, "cap=%d %s", size, strings.Join(trace, " "))
	})
}
