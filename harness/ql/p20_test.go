package ql

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"solverif/ev"
	"solverif/qlgen"

	"github.com/solarisdb/solaris/pkg/intervals"
	sut "github.com/solarisdb/solaris/pkg/ql"
	"pgregory.net/rapid"
)

// has is the membership in the interval by the definition
func has[T any](c func(a, b T) int, i intervals.Interval[T], p T) bool {
	l, r := c(p, i.L), c(p, i.R)
	return (l > 0 || l == 0 && i.LIn) && (r < 0 || r == 0 && i.RIn)
}

// verify checks the intervals by the probes. want returns whether the probe must be covered, and whether it must not be
func verify[T any](t *rapid.T, text string, b intervals.Basis[T], got []intervals.Interval[T], probes []T, want func(p T) (in, out bool)) (ins, outs int) {
	sort.Slice(probes, func(i, j int) bool { return b.CmpF(probes[i], probes[j]) < 0 })
	last := 0
	for _, p := range probes {
		if b.CmpF(p, b.Min) < 0 || b.CmpF(p, b.Max) > 0 {
			continue
		}
		n := 0
		for k, i := range got {
			if has(b.CmpF, i, p) {
				n++
				if k < last {
					t.Fatalf("condition %q: the intervals %v are not sorted", text, got)
				}
				last = k
			}
		}
		in, out := want(p)
		if n > 1 {
			t.Fatalf("condition %q: the intervals %v overlap at %v", text, got, p)
		}
		if in && n == 0 {
			t.Fatalf("condition %q: the point %v is not in the intervals %v", text, p, got)
		}
		if out && n > 0 {
			t.Fatalf("condition %q: the point %v must not be in the intervals %v", text, p, got)
		}
		if in {
			ins++
		}
		if out {
			outs++
		}
	}
	for k, i := range got {
		c := b.CmpF(i.L, i.R)
		if c > 0 || c == 0 && !(i.LIn && i.RIn) {
			t.Fatalf("condition %q: the interval %v of %v is empty", text, i, got)
		}
		if b.CmpF(i.L, b.Min) < 0 || b.CmpF(i.R, b.Max) > 0 {
			t.Fatalf("condition %q: the interval %v is out of the basis", text, i)
		}
		if k > 0 {
			if c := b.CmpF(got[k-1].R, i.L); c > 0 || c == 0 && got[k-1].RIn && i.LIn {
				t.Fatalf("condition %q: the intervals %v are not sorted or overlap", text, got)
			}
		}
	}
	return
}

func TestTimeIntervals(t *testing.T) {
	b := intervals.BasisTime
	ib := sut.NewParamIntervalBuilder(b, sut.RecordsCondValueDialect, "ctime", sut.OpsAll)
	ev.Check(t, "the condition is at least two comparisons, some points of the basis satisfy it, and some don't", func(t *rapid.T) {
		e := qlgen.Gen(t, 3, genTLeaf)
		text := qlgen.Plain(e.Tokens(func(l *tleaf) []string { return l.tokens(t) }))
		pe, err := sut.Parse(text)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		got, err := ib.Build(pe)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		probes := []time.Time{b.Min, b.Min.Add(1), b.Max, b.Max.Add(-1), baseTime.Add(-time.Hour), baseTime.Add(time.Hour)}
		for _, l := range e.Leaves() {
			probes = append(probes, l.tm, l.tm.Add(1), l.tm.Add(-1))
		}
		ins, outs := verify(t, text, b, got, probes, func(p time.Time) (bool, bool) {
			v := e.Eval(func(l *tleaf) bool { return l.eval(p) })
			return v, !v
		})
		n, not, _, _, _ := e.Stats()
		if not {
			ev.Label(t, "not")
		}
		if ins == 0 {
			ev.Label(t, "contradiction")
		}
		if outs == 0 {
			ev.Label(t, "tautology")
		}
		ev.Case(t, n >= 2 && ins > 0 && outs > 0, "%q -> %v", text, got)
	})
}

// strings: t is the parameter, u0, u1... are other parameters, w is a parameter which may be on the right
type rec struct{}

func strDialect() sut.Dialect[rec] {
	val := func(p *sut.Param, r rec) (any, error) { return "", nil }
	d := sut.Dialect[rec]{
		sut.StringParamID: {Flags: sut.PfRValue | sut.PfComparable | sut.PfConstValue, Type: sut.VTString,
			ValueF: func(p *sut.Param, _ rec) (any, error) { return p.Const.Value(), nil }},
		sut.ArrayParamID: {Flags: sut.PfRValue | sut.PfConstValue, Type: sut.VTStrings, ValueF: func(p *sut.Param, _ rec) (any, error) { return []string{}, nil }},
		"t":              {Flags: sut.PfLValue | sut.PfComparable | sut.PfInLike, Type: sut.VTString, ValueF: val},
	}
	for i := 0; i < 100; i++ {
		d[fmt.Sprintf("u%d", i)] = sut.ParamDialect[rec]{Flags: sut.PfLValue | sut.PfComparable | sut.PfInLike, Type: sut.VTString, ValueF: val}
		d[fmt.Sprintf("w%d", i)] = sut.ParamDialect[rec]{Flags: sut.PfRValue | sut.PfComparable, Type: sut.VTString, ValueF: val}
	}
	return d
}

type sleaf struct {
	op, c string
	free  int // number of the free (not constraining) leaf
	text  string
}

func TestStringIntervals(t *testing.T) {
	b := intervals.BasisString
	d := strDialect()
	consts := []string{"", "a", "b", "c", "c\x01", "d", b.Max, b.Max + "z"}
	ev.Check(t, "the condition is at least two comparisons, some points of the basis satisfy it (or may do), and some don't", func(t *rapid.T) {
		ops := rapid.SampledFrom([][]string{sut.OpsAll, sut.OpsAll, sut.OpsGtLt}).Draw(t, "ops")
		ib := sut.NewParamIntervalBuilder(b, d, "t", ops)
		freeAllowed := rapid.Bool().Draw(t, "free")
		free := 0
		e := qlgen.Gen(t, 2, func(t *rapid.T) sleaf {
			l := sleaf{op: rapid.SampledFrom(ops).Draw(t, "op"), c: rapid.SampledFrom(consts).Draw(t, "const"), free: -1}
			l.text = "t " + l.op + " " + qlgen.Quote(t, l.c)
			if !freeAllowed || free >= 8 || rapid.Bool().Draw(t, "constrain") {
				return l
			}
			l.free = free
			// every free leaf has its own parameter, so it may be true or false independently on the others
			switch k := rapid.IntRange(0, 2).Draw(t, "freeKind"); k {
			case 0:
				l.text = fmt.Sprintf("u%d %s 'x'", free, l.op)
			case 1:
				l.text = fmt.Sprintf("t != w%d", free)
			case 2:
				l.text = fmt.Sprintf("u%d IN ['x']", free)
			}
			free++
			return l
		})
		text := qlgen.Plain(e.Tokens(func(l *sleaf) []string { return []string{l.text} }))
		pe, err := sut.Parse(text)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		got, err := ib.Build(pe)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		probes := []string{b.Min, "\x00", b.Max}
		for _, c := range consts {
			probes = append(probes, c, c+"\x00")
		}
		probes = append(probes, "`", "aa", "bb", "e")
		ins, outs := verify(t, text, b, got, probes, func(p string) (bool, bool) {
			may, must := false, true
			for m := 0; m < 1<<free; m++ {
				if e.Eval(func(l *sleaf) bool {
					if l.free >= 0 {
						return m>>l.free&1 != 0
					}
					return cmp(l.op, p, l.c, func(a, b string) bool { return a < b })
				}) {
					may = true
				} else {
					must = false
				}
			}
			if free == 0 {
				return must, !may
			}
			return may, false
		})
		n, _, _, _, _ := e.Stats()
		if free > 0 {
			ev.Label(t, "free")
		}
		ev.Case(t, n >= 2 && ins > 0 && (outs > 0 || free > 0), "%q -> %v", text, got)
	})
}
