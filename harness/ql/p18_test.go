package ql

import (
	"fmt"
	"runtime"
	"strings"
	"testing"

	"solverif/ev"
	"solverif/qlgen"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/intervals"
	sut "github.com/solarisdb/solaris/pkg/ql"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

type verdict int

const (
	accept verdict = iota
	reject
	unknown
)

func worse(a, b verdict) verdict {
	if a == reject || b == reject {
		return reject
	}
	return max(a, b)
}

func isCmp(op string) bool {
	for _, o := range cmpOps {
		if o == op {
			return true
		}
	}
	return false
}

// tagOk returns whether the p is a correct tag() function
func tagOk(p qlgen.RParam) bool {
	return p.Kind == "fn" && p.Val == "tag" && len(p.Args) == 1 && p.Args[0].Kind == "str"
}

// logsVerdict says whether the condition is correct for logs
func logsVerdict(c *qlgen.RCond) verdict {
	res := accept
	switch {
	case c.L.Kind == "id" && c.L.Val == "logID", tagOk(c.L):
	case c.L.Kind == "fn" && c.L.Val == "logID": // not specified
		res = unknown
	default:
		return reject
	}
	if c.R == nil {
		return reject
	}
	switch {
	case c.R.Kind == "str":
		if c.Op == "IN" {
			return reject
		}
	case c.R.Kind == "arr":
		if c.Op != "IN" {
			return reject
		}
		for _, a := range c.R.Args {
			if a.Kind != "str" { // not specified
				res = unknown
			}
		}
	case tagOk(*c.R):
		if !isCmp(c.Op) {
			return reject
		}
	default:
		return reject
	}
	return res
}

var goodTimes = map[string]bool{"2024-03-10 12:00:00": true, "2024-03-10T12:00:00.123Z": true, "1710000000000000000": true, "-1.5h": true, "day": true, "HOUR": true, "2024/03/10": true,
	"10:11": true, "-5": true, " week ": true}
var badTimes = map[string]bool{"": true, "abc": true, "2024-03-1x": true, "2024-13-45 12:00:00": true, "2024-03-10 12:00:00 garbage": true, "x2024-03-10": true, "-1.5y": true, "-h": true,
	"-nanh": true, "-1e300d": true, "-infm": true, "99999999999999999999999": true, "1.5": true, "days": true, "a' OR 'b": true, "b": true, "ab": true, "2024-03-10 25:00:00": true}

// recsVerdict says whether the condition is correct for records
func recsVerdict(c *qlgen.RCond) verdict {
	res := accept
	switch {
	case c.L.Kind == "id" && c.L.Val == "ctime":
	case c.L.Kind == "fn" && c.L.Val == "ctime": // not specified
		res = unknown
	default:
		return reject
	}
	if c.R == nil || c.R.Kind != "str" || !isCmp(c.Op) {
		return reject
	}
	if badTimes[c.R.Val] {
		return reject
	}
	if !goodTimes[c.R.Val] {
		return unknown
	}
	return res
}

func exprVerdict(e *qlgen.Expr[qlgen.RCond], f func(c *qlgen.RCond) verdict) verdict {
	res := accept
	for _, and := range e.Or {
		for _, tm := range and {
			if tm.Leaf != nil {
				res = worse(res, f(tm.Leaf))
			} else {
				res = worse(res, exprVerdict(tm.Sub, f))
			}
		}
	}
	return res
}

// fromSut turns the AST to the reference one
func fromSut(e *sut.Expression) *qlgen.Expr[qlgen.RCond] {
	res := &qlgen.Expr[qlgen.RCond]{}
	for _, o := range e.Or {
		var and []*qlgen.Term[qlgen.RCond]
		for _, x := range o.And {
			tm := &qlgen.Term[qlgen.RCond]{Not: x.Not}
			if x.Expr != nil {
				tm.Sub = fromSut(x.Expr)
			} else {
				c := qlgen.RCond{L: paramFromSut(x.Cond.FirstParam), Op: strings.ToUpper(x.Cond.Op)}
				if x.Cond.SecondParam != nil {
					p := paramFromSut(*x.Cond.SecondParam)
					c.R = &p
				}
				tm.Leaf = &c
			}
			and = append(and, tm)
		}
		res.Or = append(res.Or, and)
	}
	return res
}

func constFromSut(c sut.Const) qlgen.RParam {
	if c.String != nil {
		return qlgen.RParam{Kind: "str", Val: *c.String}
	}
	return qlgen.RParam{Kind: "num", Val: fmt.Sprint(*c.Number)}
}

func paramFromSut(p sut.Param) qlgen.RParam {
	switch {
	case p.Const != nil:
		return constFromSut(*p.Const)
	case p.Function != nil:
		res := qlgen.RParam{Kind: "fn", Val: p.Function.Name}
		for _, a := range p.Function.Params {
			res.Args = append(res.Args, paramFromSut(*a))
		}
		return res
	case p.Identifier != "":
		return qlgen.RParam{Kind: "id", Val: p.Identifier}
	}
	res := qlgen.RParam{Kind: "arr"}
	for _, c := range p.Array {
		res.Args = append(res.Args, constFromSut(*c))
	}
	return res
}

var soup = []string{"AND", "OR", "NOT", "IN", "LIKE", "(", ")", "[", "]", ",", "<", ">", "<=", ">=", "=", "!=", "!", "==", "<>", "logID", "tag", "ctime", "tag('a')", "tag(a)", "tag()", "tag('a','b')", "tag(1)",
	"'a'", `"b"`, "'", `"`, "1", "-2.5", "1e3", "1e99", "['a']", "[]", "['a', 'b']", "[1]", "[a]", "foo", "foo('x')", "ctime()", "logID('z')", "'\\n'", "'\\q'", "é", ";", "--", "\\", "'2024-03-10 12:00:00'", "'abc'", "day", "'day'", "'-nanh'"}

var pieces = []string{"logID = 'a'", "tag('a') IN ['x', 'y']", "tag('a') LIKE 'x%'", "tag('a') >= tag(\"b\")", "ctime < '2024-03-10 12:00:00'", "ctime >= '1710000000000000000'", "ctime != 'day'", "NOT logID < 'q'",
	"ctime = '-1.5h'", "ctime > '10:11'", "logID IN []", "(", ")", "AND", "OR"}

func genText(t *rapid.T) (string, string) {
	switch k := rapid.IntRange(0, 9).Draw(t, "textKind"); {
	case k == 0:
		return rapid.String().Draw(t, "text"), "any text"
	case k == 1:
		return string(rapid.SliceOf(rapid.Byte()).Draw(t, "bytes")), "any bytes"
	case k <= 3:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(soup), 0, 10).Draw(t, "soup"), rapid.SampledFrom([]string{" ", ""}).Draw(t, "sep")), "token soup"
	case k <= 5:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 7).Draw(t, "pieces"), " "), "pieces"
	}
	// mutations of a correct condition
	var toks []string
	if rapid.Bool().Draw(t, "records") {
		e := qlgen.Gen(t, 2, func(t *rapid.T) tleaf {
			l := tleaf{op: rapid.SampledFrom(cmpOps).Draw(t, "op")}
			l.s = rapid.SampledFrom([]string{"2024-03-10 12:00:00", "-1.5h", "day", "1710000000000000000", "10:11", "-nanh", "-1e300d", "2024-03-10 12:00:00 garbage", "abc"}).Draw(t, "tc")
			return l
		})
		toks = e.Tokens(func(l *tleaf) []string { return l.tokens(t) })
	} else {
		e := qlgen.Gen(t, 2, genLeaf)
		toks = e.Tokens(func(l *leaf) []string { return l.tokens(t) })
	}
	n := rapid.IntRange(0, 3).Draw(t, "mutations")
	for i := 0; i < n && len(toks) > 0; i++ {
		p := rapid.IntRange(0, len(toks)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 4).Draw(t, "mut") {
		case 0:
			toks = append(toks[:p:p], toks[p+1:]...)
		case 1:
			toks = append(toks[:p+1:p+1], toks[p:]...)
		case 2:
			q := rapid.IntRange(0, len(toks)-1).Draw(t, "pos2")
			toks[p], toks[q] = toks[q], toks[p]
		case 3:
			toks = append(append(toks[:p:p], rapid.SampledFrom(soup).Draw(t, "ins")), toks[p:]...)
		case 4:
			toks[p] = rapid.SampledFrom(soup).Draw(t, "repl")
		}
	}
	s := qlgen.Plain(toks)
	if n == 0 {
		s = qlgen.Styled(t, toks)
	}
	if len(s) > 0 && rapid.IntRange(0, 4).Draw(t, "cut") == 0 {
		s = s[:rapid.IntRange(0, len(s)-1).Draw(t, "cutAt")]
	}
	return s, fmt.Sprintf("%d mutations", n)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// consume runs everything on the text and checks the verdicts of the consumers
func consume(t *rapid.T, text string, known bool, logs, recs verdict) {
	pe, err := sut.Parse(text)
	if err != nil {
		if !invalid(err) {
			t.Fatalf("the error of parsing %q is not invalid: %v", clip(text), err)
		}
		return
	}
	judge := func(who string, err error, v verdict) {
		if err != nil && !invalid(err) {
			t.Fatalf("%s: the error for %q is not invalid: %v", who, clip(text), err)
		}
		if !known {
			return
		}
		if err == nil && v == reject {
			t.Fatalf("%s accepts the wrong condition %q", who, clip(text))
		}
		if err != nil && v == accept {
			t.Fatalf("%s rejects the correct condition %q: %v", who, clip(text), err)
		}
	}
	f, err := sut.BuildExprF(pe, sut.LogsCondValueDialect)
	judge("the log evaluator", err, logs)
	if err == nil {
		f(&solaris.Log{})
		f(&solaris.Log{ID: "a", Tags: map[string]string{"a": "x", "b": "y"}})
	}
	g, err := sut.BuildExprF(pe, sut.RecordsCondValueDialect)
	judge("the record evaluator", err, recs)
	if err == nil {
		g(&solaris.Record{})
		g(&solaris.Record{CreatedAt: timestamppb.New(baseTime)})
	}
	var sb strings.Builder
	err = sut.NewTranslator(sut.LogsCondTranslateDialect).Translate(&sb, text)
	judge("the translator", err, logs)
	ib := sut.NewParamIntervalBuilder(intervals.BasisTime, sut.RecordsCondValueDialect, "ctime", sut.OpsAll)
	_, err = ib.Build(pe)
	judge("the interval builder", err, recs)
}

func TestAnyText(t *testing.T) {
	ev.Check(t, "the text is not blank, and it is valid or has at least two tokens of the language", func(t *rapid.T) {
		text, kind := genText(t)
		re, ok, known := qlgen.RefParse(text)
		pe, err := sut.Parse(text)
		if known && ok && err != nil {
			t.Fatalf("the correct expression %q is rejected: %v", text, err)
		}
		if known && !ok && err == nil {
			t.Fatalf("the wrong expression %q is accepted as %s", text, qlgen.Canon(fromSut(pe)))
		}
		logs, recs := unknown, unknown
		if known && ok {
			if a, b := qlgen.Canon(re), qlgen.Canon(fromSut(pe)); a != b {
				t.Fatalf("the expression %q is parsed as %s, expected %s", text, b, a)
			}
			logs, recs = exprVerdict(re, logsVerdict), exprVerdict(re, recsVerdict)
			ev.Label(t, fmt.Sprintf("parsed, logs %d", logs))
			ev.Label(t, fmt.Sprintf("parsed, recs %d", recs))
		} else {
			ev.Label(t, "syntax error")
		}
		consume(t, text, known && ok, logs, recs)
		ev.Label(t, kind)
		ev.Case(t, strings.TrimSpace(text) != "" && (ok || strings.ContainsAny(text, " '\"()[]<>=")), "%s: %q", kind, text)
	})
}

// TestBigText checks that big conditions are handled with moderate resources
func TestBigText(t *testing.T) {
	ev.Check(t, "the text is longer than 10000 bytes", func(t *rapid.T) {
		var text string
		n := rapid.SampledFrom([]int{1000, 10000, 100000, 300000}).Draw(t, "n")
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		switch kind {
		case 0:
			text = "logID = '" + strings.Repeat("a", 8*n) + "'"
		case 1:
			text = strings.Repeat("(", n) + "logID = 'a'" + strings.Repeat(")", n)
		case 2:
			text = strings.Repeat("tag(", n) + "'a'" + strings.Repeat(")", n) + " = 'a'"
		case 3:
			text = strings.Repeat("logID = 'a' OR ", n/10) + "logID = 'b'"
		case 4:
			text = strings.Repeat("ctime < 'day' AND ", min(n, 10000)/10) + "ctime > '-1h'"
		case 5:
			text = "logID IN [" + strings.Repeat("'a', ", n/3) + "'b']"
		case 6:
			text = strings.Repeat("NOT (", n) + "ctime > '-1h'" + strings.Repeat(")", n)
		case 7:
			text = strings.Repeat("(", n)
		case 8:
			text = "logID = \"" + strings.Repeat("'(", n)
		case 9:
			text = strings.Repeat("tag(\"(\") LIKE '((' and ", n/20) + "logID = '('"
		}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		consume(t, text, false, unknown, unknown)
		runtime.ReadMemStats(&after)
		if d := after.TotalAlloc - before.TotalAlloc; d > 6<<30 {
			t.Fatalf("a text of %d bytes (%s...) needs %d bytes of memory", len(text), clip(text), d)
		}
		ev.Case(t, len(text) > 10000, "kind=%d len=%d %s", kind, len(text), clip(text)[:20])
	})
}
