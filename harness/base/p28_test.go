package base

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container/iterable"
	"github.com/solarisdb/solaris/golibs/errors"
	"pgregory.net/rapid"
)

type elem struct{ v, src, idx int }

// srcIt is a source of elements, which counts the calls. Its HasNext may be changed by Next only
type srcIt struct {
	id, i  int
	elems  []elem
	closed int
	err    error
	resets int
}

func (s *srcIt) HasNext() bool { return s.i < len(s.elems) }
func (s *srcIt) Next() (elem, bool) {
	if s.i >= len(s.elems) {
		return elem{v: -1 << 30}, false
	}
	s.i++
	return s.elems[s.i-1], true
}
func (s *srcIt) Close() error { s.closed++; return s.err }

// resIt can be reset
type resIt struct{ *srcIt }

func (s resIt) Reset() error { s.i = 0; s.resets++; return nil }

// TestMixer: P28
func TestMixer(t *testing.T) {
	ev.Check(t, "at least three sources and at least two of them have elements, some of the values are equal", func(t *rapid.T) {
		desc := rapid.Bool().Draw(t, "desc")
		strict := rapid.Bool().Draw(t, "strict")
		before := func(a, b elem) bool {
			if desc {
				a, b = b, a
			}
			if strict {
				return a.v < b.v
			}
			return a.v <= b.v
		}
		big := ev.Big(t)
		n := rapid.IntRange(1, 6*min(big, 5)).Draw(t, "sources")
		var srcs []*srcIt
		var its []iterable.Iterator[elem]
		total, withElems := 0, 0
		allReset := true
		equal := map[int]int{}
		for i := 0; i < n; i++ {
			s := &srcIt{id: i}
			vals := rapid.SliceOfN(rapid.IntRange(0, 6*big), 0, 6*min(big, 10)).Draw(t, "vals")
			sort.Ints(vals)
			for j, v := range vals {
				if desc {
					v = -v
				}
				s.elems = append(s.elems, elem{v, i, j})
				equal[v]++
			}
			if desc {
				// the values go down
				for j := range s.elems {
					s.elems[j].v = -vals[j]
				}
			}
			total += len(vals)
			if len(vals) > 0 {
				withElems++
			}
			if rapid.IntRange(0, 9).Draw(t, "closeErr") == 0 {
				s.err = fmt.Errorf("close error of %d", i)
			}
			srcs = append(srcs, s)
			if rapid.IntRange(0, 9).Draw(t, "noReset") == 0 {
				its = append(its, s)
				allReset = false
			} else {
				its = append(its, resIt{s})
			}
		}
		// a random tree of mixers
		for len(its) > 1 {
			i := rapid.IntRange(0, len(its)-2).Draw(t, "pair")
			m := &iterable.Mixer[elem]{}
			m.Init(before, its[i], its[i+1])
			its = append(append(its[:i:i], m), its[i+2:]...)
		}
		root := its[0]
		if n == 1 {
			m := &iterable.Mixer[elem]{}
			var empty iterable.Iterator[elem] = &iterable.EmptyIterator[elem]{}
			if rapid.Bool().Draw(t, "emptyFirst") {
				m.Init(before, empty, root)
			} else {
				m.Init(before, root, empty)
			}
			root = m
			allReset = false
		}
		var trace []string
		var got []elem
		next := func() bool {
			e, ok := root.Next()
			trace = append(trace, fmt.Sprintf("n:%v", e))
			if ok != (len(got) < total) {
				t.Fatalf("Next=%v %t after %d of %d\n%v", e, ok, len(got), total, trace)
			}
			if ok {
				got = append(got, e)
			}
			return ok
		}
		hasNext := func() {
			trace = append(trace, "h")
			if h := root.HasNext(); h != (len(got) < total) {
				t.Fatalf("HasNext=%t after %d of %d\n%v", h, len(got), total, trace)
			}
		}
		for k := rapid.IntRange(0, 30*big).Draw(t, "ops"); k > 0; k-- {
			switch rapid.SampledFrom([]string{"next", "next", "hasNext", "hasNext", "reset"}).Draw(t, "op") {
			case "next":
				next()
			case "hasNext":
				hasNext()
			case "reset":
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				trace = append(trace, "reset")
				if allReset {
					if err := root.(*iterable.Mixer[elem]).Reset(); err != nil {
						t.Fatalf("Reset: %v\n%v", err, trace)
					}
					got = nil
				}
			}
		}
		for {
			if rapid.Bool().Draw(t, "peek") {
				hasNext()
			}
			if !next() {
				break
			}
		}
		hasNext()
		next()
		seen := map[elem]bool{}
		lastOf := map[int]int{}
		for i, e := range got {
			if seen[e] {
				t.Fatalf("%v is returned twice\n%v", e, trace)
			}
			seen[e] = true
			if i > 0 && (!desc && e.v < got[i-1].v || desc && e.v > got[i-1].v) {
				t.Fatalf("wrong order: %v\n%v", got, trace)
			}
			if e.idx != lastOf[e.src] {
				t.Fatalf("wrong order of the source %d: %v\n%v", e.src, got, trace)
			}
			lastOf[e.src]++
		}
		var cerr error
		for _, s := range srcs {
			if s.closed != 0 {
				t.Fatalf("the source %d is closed before Close()\n%v", s.id, trace)
			}
			if s.err != nil && cerr == nil {
				cerr = s.err
			}
		}
		err := root.Close()
		if (err != nil) != (cerr != nil) {
			t.Fatalf("Close()=%v, expected %v", err, cerr)
		}
		for _, s := range srcs {
			if s.closed != 1 {
				t.Fatalf("the source %d is closed %d times", s.id, s.closed)
			}
		}
		ties := false
		for _, c := range equal {
			ties = ties || c > 1
		}
		ev.Case(t, n > 2 && withElems > 1 && ties, "%d sources desc=%t: %.200s", n, desc, strings.Join(trace, " "))
	})
}

// TestMixerNoReset: P28 - a source which cannot be reset
func TestMixerNoReset(t *testing.T) {
	ev.Check(t, "the refused reset was after the mixer had read something", func(t *rapid.T) {
		vals := func(name string) []int {
			v := rapid.SliceOfN(rapid.IntRange(1, 6), 0, 6).Draw(t, name)
			sort.Ints(v)
			return v
		}
		a, b := vals("a"), vals("b")
		s1 := &srcIt{}
		for i, v := range a {
			s1.elems = append(s1.elems, elem{v, 1, i})
		}
		s2 := &srcIt{}
		for i, v := range b {
			s2.elems = append(s2.elems, elem{v, 2, i})
		}
		m := &iterable.Mixer[elem]{}
		m.Init(func(x, y elem) bool { return x.v <= y.v }, s1, resIt{s2})
		at := rapid.IntRange(0, len(a)+len(b)).Draw(t, "at")
		peek := rapid.Bool().Draw(t, "peek")
		var got []int
		for i := 0; ; i++ {
			if i == at {
				if peek {
					m.HasNext()
				}
				if err := m.Reset(); !errors.Is(err, errors.ErrUnimplemented) {
					t.Fatalf("Reset: %v", err)
				}
			}
			if !m.HasNext() {
				break
			}
			e, _ := m.Next()
			got = append(got, e.v)
		}
		exp := append(append([]int{}, a...), b...)
		sort.Ints(exp)
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			t.Fatalf("%v and %v are merged to %v, the refused Reset() after %d (peek=%t)", a, b, got, at, peek)
		}
		// the slices iterator
		it := iterable.WrapIntSlice(a)
		for round := 0; round < 2; round++ {
			for _, v := range a {
				if !it.HasNext() {
					t.Fatal("no next")
				}
				if x, ok := it.Next(); !ok || x != v {
					t.Fatalf("%d %t, expected %d", x, ok, v)
				}
			}
			if _, ok := it.Next(); ok || it.HasNext() {
				t.Fatal("has next after the end")
			}
			if err := it.(interface{ Reset() error }).Reset(); err != nil {
				t.Fatal(err)
			}
		}
		ev.Case(t, at > 0 || peek && len(exp) > 0, "%v %v at=%d peek=%t", a, b, at, peek)
	})
}
