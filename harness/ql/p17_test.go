package ql

import (
	"testing"
	"time"

	"solverif/ev"
	"solverif/qlgen"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	sut "github.com/solarisdb/solaris/pkg/ql"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

func TestLogConditions(t *testing.T) {
	ev.Check(t, "the condition is at least two comparisons, and it is true for some of the logs of the case and false for others", func(t *rapid.T) {
		if rapid.IntRange(0, 200).Draw(t, "blank") == 0 {
			s := rapid.SampledFrom([]string{"", " ", "\t\n "}).Draw(t, "blankText")
			e, err := sut.Parse(s)
			if err != nil {
				t.Fatalf("blank condition %q is rejected: %v", s, err)
			}
			f, err := sut.BuildExprF(e, sut.LogsCondValueDialect)
			if err != nil || !f(&solaris.Log{}) {
				t.Fatalf("blank condition %q is not true: %v", s, err)
			}
			return
		}
		e := qlgen.Gen(t, 3, genLeaf)
		text := qlgen.Styled(t, e.Tokens(func(l *leaf) []string { return l.tokens(t) }))
		pe, err := sut.Parse(text)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		f, err := sut.BuildExprF(pe, sut.LogsCondValueDialect)
		if err != nil {
			t.Fatalf("the condition %q is rejected by the evaluator: %v", text, err)
		}
		seen := [2]bool{}
		for i := 0; i < 8; i++ {
			log := genLog(t, e.Leaves(), false)
			if i == 0 {
				log.Tags = nil
			}
			want := e.Eval(func(l *leaf) bool { return l.eval(log) })
			if got := f(log); got != want {
				t.Fatalf("condition %q for log %s: got %t, want %t", text, showLog(log), got, want)
			}
			if want {
				seen[1] = true
			} else {
				seen[0] = true
			}
		}
		n, not, and, or, par := e.Stats()
		for k, v := range map[string]bool{"not": not, "and": and, "or": or, "par": par} {
			if v {
				ev.Label(t, k)
			}
		}
		ev.Case(t, n >= 2 && seen[0] && seen[1], "%q", text)
	})
}

func TestRecordConditions(t *testing.T) {
	ev.Check(t, "the condition is at least two comparisons, and it is true for some of the records of the case and false for others", func(t *rapid.T) {
		e := qlgen.Gen(t, 3, genTLeaf)
		text := qlgen.Styled(t, e.Tokens(func(l *tleaf) []string { return l.tokens(t) }))
		pe, err := sut.Parse(text)
		if err != nil {
			t.Fatalf("the condition %q is rejected: %v", text, err)
		}
		f, err := sut.BuildExprF(pe, sut.RecordsCondValueDialect)
		if err != nil {
			t.Fatalf("the condition %q is rejected by the evaluator: %v", text, err)
		}
		var tms []time.Time
		for _, l := range e.Leaves() {
			tms = append(tms, l.tm, l.tm.Add(1), l.tm.Add(-1))
		}
		tms = append(tms, genTime(t), genTime(t))
		seen := [2]bool{}
		for _, tm := range tms {
			want := e.Eval(func(l *tleaf) bool { return l.eval(tm) })
			if got := f(&solaris.Record{CreatedAt: timestamppb.New(tm)}); got != want {
				t.Fatalf("condition %q for the time %s: got %t, want %t", text, tm.Format(time.RFC3339Nano), got, want)
			}
			if want {
				seen[1] = true
			} else {
				seen[0] = true
			}
		}
		n, _, _, _, _ := e.Stats()
		ev.Case(t, n >= 2 && seen[0] && seen[1], "%q", text)
	})
}
