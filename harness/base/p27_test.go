package base

import (
	"fmt"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/container/iterable"
	"pgregory.net/rapid"
)

// TestMap: P27
func TestMap(t *testing.T) {
	type mentry struct {
		key, val, seq int
	}
	type miter struct {
		it   iterable.Iterator[iterable.MapEntry[int, int]]
		last int // seq of the last returned one
		step int
	}
	ev.Check(t, "an iterator was on an entry which was removed, and another iterator was opened later", func(t *rapid.T) {
		m := iterable.NewMap[int, int]()
		var model []mentry // live entries in the order
		var its []*miter
		var trace []string
		seq := 0
		find := func(k int) int {
			for i, e := range model {
				if e.key == k {
					return i
				}
			}
			return -1
		}
		next := func(last int) int {
			for i, e := range model {
				if e.seq > last {
					return i
				}
			}
			return -1
		}
		removedUnder, openedAfter := false, false
		big := ev.Big(t)
		maxKey := rapid.IntRange(1, 8*big).Draw(t, "maxKey")
		hasNext := func(i int) {
			t.Helper()
			if got, want := its[i].it.HasNext(), next(its[i].last) >= 0; got != want {
				t.Fatalf("HasNext(#%d)=%t, expected %t\n%v", i, got, want, trace)
			}
		}
		doNext := func(i int) {
			t.Helper()
			e, ok := its[i].it.Next()
			w := next(its[i].last)
			if ok != (w >= 0) || ok && (e.Key != model[w].key || e.Value != model[w].val) {
				t.Fatalf("Next(#%d)=%v %t, expected #%d of %v\n%v", i, e, ok, w, model, trace)
			}
			if ok {
				its[i].last = model[w].seq
			}
		}
		for n := rapid.IntRange(1, 60*big).Draw(t, "ops"); n > 0; n-- {
			op := rapid.SampledFrom([]string{"add", "add", "remove", "remove", "removeFirst", "removeNext", "iter", "next", "next", "hasNext", "close", "first"}).Draw(t, "op")
			i := -1
			if len(its) > 0 {
				i = rapid.IntRange(0, len(its)-1).Draw(t, "it")
			}
			switch op {
			case "add":
				k := rapid.IntRange(0, maxKey).Draw(t, "k")
				seq++
				trace = append(trace, fmt.Sprintf("add%d", k))
				err := m.Add(k, seq)
				if (err != nil) != (find(k) >= 0) {
					t.Fatalf("Add(%d): %v\n%v", k, err, trace)
				}
				if err == nil {
					model = append(model, mentry{k, seq, seq})
				}
			case "remove", "removeFirst", "removeNext":
				k := rapid.IntRange(0, maxKey).Draw(t, "k")
				if op == "removeFirst" && len(model) > 0 {
					k = model[0].key
				}
				if op == "removeNext" && i >= 0 {
					if w := next(its[i].last); w >= 0 {
						k = model[w].key
					}
				}
				trace = append(trace, fmt.Sprintf("rm%d", k))
				m.Remove(k)
				if w := find(k); w >= 0 {
					for _, it := range its {
						removedUnder = removedUnder || next(it.last) == w
					}
					model = append(model[:w:w], model[w+1:]...)
				}
			case "iter":
				if len(its) < 5 {
					trace = append(trace, "open")
					its = append(its, &miter{it: m.Iterator()})
					openedAfter = openedAfter || removedUnder
				}
			case "next":
				if i >= 0 {
					trace = append(trace, fmt.Sprintf("next#%d", i))
					doNext(i)
				}
			case "hasNext":
				if i >= 0 {
					trace = append(trace, fmt.Sprintf("hasNext#%d", i))
					hasNext(i)
				}
			case "close":
				if i >= 0 {
					trace = append(trace, fmt.Sprintf("close#%d", i))
					if err := its[i].it.Close(); err != nil {
						t.Fatal(err)
					}
					its = append(its[:i:i], its[i+1:]...)
				}
			case "first":
				trace = append(trace, "first")
				k, ok := m.First()
				if ok != (len(model) > 0) || ok && k != model[0].key {
					t.Fatalf("First()=%d %t, expected %v\n%v", k, ok, model, trace)
				}
			}
			if m.Len() != len(model) {
				t.Fatalf("len=%d, expected %v\n%v", m.Len(), model, trace)
			}
			for k := 0; k <= maxKey; k++ {
				v, ok := m.Get(k)
				if w := find(k); ok != (w >= 0) || ok && v != model[w].val {
					t.Fatalf("Get(%d)=%d %t, expected %v\n%v", k, v, ok, model, trace)
				}
			}
		}
		// all the iterators to the end, a new one over everything
		its = append(its, &miter{it: m.Iterator()})
		for i := range its {
			for {
				hasNext(i)
				if next(its[i].last) < 0 {
					break
				}
				doNext(i)
			}
			doNext(i)
			if err := its[i].it.Close(); err != nil {
				t.Fatal(err)
			}
		}
		ev.Case(t, removedUnder && openedAfter, "%s", strings.Join(trace, " "))
	})
}
