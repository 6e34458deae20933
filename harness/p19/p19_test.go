package p19

import (
	"cmp"
	"fmt"
	"strings"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/pkg/intervals"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

// The endpoints of the intervals are the even positions 0..2N, all positions (including the odd ones, which are strictly between
// neighbour endpoints) are the probes, so the order is dense with regards to the endpoints.
const maxPos = 16

type iv struct {
	l, r     int
	lin, rin bool
}

func (i iv) String() string {
	a, b := "(", ")"
	if i.lin {
		a = "["
	}
	if i.rin {
		b = "]"
	}
	return fmt.Sprintf("%s%d,%d%s", a, i.l, i.r, b)
}

func (i iv) has(p int) bool {
	return (p > i.l || (p == i.l && i.lin)) && (p < i.r || (p == i.r && i.rin))
}

func (i iv) empty() bool {
	for p := 0; p <= maxPos; p++ {
		if i.has(p) {
			return false
		}
	}
	return true
}

func genIv(t *rapid.T, name string) iv {
	a := rapid.IntRange(0, maxPos/2).Draw(t, name+"L") * 2
	b := rapid.IntRange(0, maxPos/2).Draw(t, name+"R") * 2
	if a > b {
		a, b = b, a
	}
	k := rapid.IntRange(0, 3).Draw(t, name+"K")
	if a == b && (k == 1 || k == 2) {
		k = 3 // half open intervals cannot be empty
	}
	return iv{a, b, k&1 != 0, k&2 != 0}
}

// world maps positions to the points of the basis
type world[T any] struct {
	name string
	b    intervals.Basis[T]
	at   func(p int) T
}

func (w world[T]) mk(i iv) intervals.Interval[T] {
	switch {
	case i.lin && i.rin:
		return w.b.Closed(w.at(i.l), w.at(i.r))
	case i.lin:
		return w.b.OpenR(w.at(i.l), w.at(i.r))
	case i.rin:
		return w.b.OpenL(w.at(i.l), w.at(i.r))
	}
	return w.b.Open(w.at(i.l), w.at(i.r))
}

func (w world[T]) has(i intervals.Interval[T], p int) bool {
	x := w.at(p)
	l, r := w.b.CmpF(x, i.L), w.b.CmpF(x, i.R)
	return (l > 0 || (l == 0 && i.LIn)) && (r < 0 || (r == 0 && i.RIn))
}

func (w world[T]) hasAny(is []intervals.Interval[T], p int) bool {
	for _, i := range is {
		if w.has(i, p) {
			return true
		}
	}
	return false
}

func check[T any](t *rapid.T, w world[T], a, b iv) {
	ia, ib := w.mk(a), w.mk(b)
	desc := fmt.Sprintf("%s: %s and %s", w.name, a, b)
	if ia.IsOpen() != (!a.lin && !a.rin) || ia.IsClosed() != (a.lin && a.rin) || ia.IsOpenL() != (!a.lin && a.rin) || ia.IsOpenR() != (a.lin && !a.rin) {
		t.Fatalf("%s: wrong kind of %s is reported", w.name, a)
	}
	for p := 0; p <= maxPos; p++ {
		if w.has(ia, p) != a.has(p) {
			t.Fatalf("%s: the constructed interval %v differs from %s at %d", w.name, ia, a, p)
		}
	}
	// intersection and union
	common := false
	for p := 0; p <= maxPos; p++ {
		common = common || (a.has(p) && b.has(p))
	}
	x, xok := w.b.Intersect(ia, ib)
	u, uok := w.b.Union(ia, ib)
	if common && (!xok || !uok) {
		t.Fatalf("%s have common points, but Intersect ok=%t, Union ok=%t", desc, xok, uok)
	}
	for p := 0; p <= maxPos; p++ {
		if xok && w.has(x, p) != (a.has(p) && b.has(p)) {
			t.Fatalf("%s: the intersection %v is wrong at the point %d", desc, x, p)
		}
		if uok && w.has(u, p) != (a.has(p) || b.has(p)) {
			t.Fatalf("%s: the union %v is wrong at the point %d", desc, u, p)
		}
	}
	if !common && xok && !a.empty() && !b.empty() {
		t.Fatalf("%s have no common points, but Intersect returns %v", desc, x)
	}
	// complement
	n := w.b.Negate(ia)
	for p := 0; p <= maxPos; p++ {
		if w.hasAny(n, p) == a.has(p) {
			t.Fatalf("%s: complement of %s is %v, which is wrong at the point %d", w.name, a, n, p)
		}
	}
	for _, i := range n {
		if w.b.CmpF(i.L, w.b.Min) < 0 || w.b.CmpF(i.R, w.b.Max) > 0 {
			t.Fatalf("%s: complement of %s is %v, which is out of the basis", w.name, a, n)
		}
	}
	// relations
	if !a.empty() && !b.empty() {
		before, after := true, true
		for p := 0; p <= maxPos; p++ {
			for q := 0; q <= maxPos; q++ {
				if a.has(p) && b.has(q) {
					before = before && p < q
					after = after && p > q
				}
			}
		}
		if got := w.b.Before(ia, ib); got != before {
			t.Fatalf("%s: Before()=%t, want %t", desc, got, before)
		}
		if got := w.b.After(ia, ib); got != after {
			t.Fatalf("%s: After()=%t, want %t", desc, got, after)
		}
	}
	lrank := func(i iv) int { return i.l*2 + map[bool]int{true: 0, false: 1}[i.lin] }
	rrank := func(i iv) int { return i.r*2 + map[bool]int{true: 1, false: 0}[i.rin] }
	if got := w.b.StartsBefore(ia, ib); got != (lrank(a) < lrank(b)) {
		t.Fatalf("%s: StartsBefore()=%t", desc, got)
	}
	if got := w.b.EndsAfter(ia, ib); got != (rrank(a) > rrank(b)) {
		t.Fatalf("%s: EndsAfter()=%t", desc, got)
	}
}

func TestAlgebra(t *testing.T) {
	t0 := intervals.BasisTime.Min
	wInt := world[int]{"int", intervals.NewBasis(0, maxPos, cmp.Compare[int]), func(p int) int { return p }}
	wStr := world[string]{"string", intervals.NewBasis("", strings.Repeat("k", maxPos), strings.Compare), func(p int) string { return strings.Repeat("k", p) }}
	wTime := world[time.Time]{"time", intervals.BasisTime, func(p int) time.Time {
		if p == maxPos {
			return intervals.BasisTime.Max
		}
		return t0.Add(time.Duration(p) * 7777777 * time.Microsecond)
	}}
	ev.Check(t, "two intervals of every kind (open/half-open/closed, degenerate, touching the limits of the basis) over int, string and time bases, membership of every point is compared with sets; "+
		"non-trivial: at least one endpoint is shared or the intervals overlap", func(t *rapid.T) {
		a, b := genIv(t, "a"), genIv(t, "b")
		k := rapid.IntRange(0, 2).Draw(t, "world")
		nt := a.l == b.l || a.l == b.r || a.r == b.l || a.r == b.r || (a.l < b.r && b.l < a.r)
		ev.Case(t, nt, "world=%d %s %s", k, a, b)
		switch k {
		case 0:
			check(t, wInt, a, b)
		case 1:
			check(t, wStr, a, b)
		case 2:
			check(t, wTime, a, b)
		}
	})
}
