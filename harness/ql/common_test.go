package ql

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"solverif/ev"
	"solverif/qlgen"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

// opd is an operand of a condition on logs
type opd struct {
	kind string // logID, tag, str, arr
	val  string
	arr  []string
}

type leaf struct {
	l  opd
	op string
	r  opd
}

var cmpOps = []string{"<", ">", "<=", ">=", "=", "!="}

var someStrings = []string{"", "a", "b", "ab", "aab", "ba", "abc", "A", "B", "AB", "it's", `say "hi"`, `mix'ed"q`, `back\slash`, `\`, `''`, "%", "a%b", "_", "a_b", "axb",
	"é", "日本", "a b", " a", "AND", "x' OR '1'='1", "--", "/*", ";", ")", "(", "$1", "\n", "0", "10", "9"}

func genStr(t *rapid.T, name string) string {
	if rapid.IntRange(0, 9).Draw(t, name+"Any") == 0 {
		return strings.ReplaceAll(strings.ToValidUTF8(rapid.StringN(0, 6, 24).Draw(t, name), ""), "\x00", "")
	}
	if rapid.IntRange(0, 4).Draw(t, name+"AB") == 0 {
		return genAB(t, "ab", 5)
	}
	return rapid.SampledFrom(someStrings).Draw(t, name)
}

// genAB generates a short text of the few letters
func genAB(t *rapid.T, letters string, maxLen int) string {
	b := make([]byte, rapid.IntRange(0, maxLen).Draw(t, "abLen"))
	for i := range b {
		b[i] = letters[rapid.IntRange(0, len(letters)-1).Draw(t, "letter")]
	}
	return string(b)
}

// genPat generates a LIKE pattern
func genPat(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "abPat") == 0 {
		return genAB(t, "ab%", 6)
	}
	var sb strings.Builder
	for i := rapid.IntRange(0, 4).Draw(t, "parts"); i > 0; i-- {
		sb.WriteString(rapid.SampledFrom([]string{"%", "%", "%%", "a", "b", "ab", "_", `\`, `\%`, "A", "é", "'", "."}).Draw(t, "part"))
	}
	return sb.String()
}

var tagNames = []string{"t1", "t2", "t'3", `t"4`, "$.x", "", "日"}

func genLeaf(t *rapid.T) leaf {
	var l leaf
	if rapid.IntRange(0, 2).Draw(t, "lhs") == 0 {
		l.l = opd{kind: "logID"}
	} else {
		l.l = opd{kind: "tag", val: rapid.SampledFrom(tagNames).Draw(t, "tag")}
	}
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		l.op = "IN"
		l.r = opd{kind: "arr"}
		for n := rapid.IntRange(0, 4).Draw(t, "arrLen"); n > 0; n-- {
			l.r.arr = append(l.r.arr, genStr(t, "elem"))
		}
	case 1:
		l.op = "LIKE"
		l.r = opd{kind: "str", val: genPat(t)}
	case 2:
		l.op = rapid.SampledFrom(cmpOps).Draw(t, "op")
		l.r = opd{kind: "tag", val: rapid.SampledFrom(tagNames).Draw(t, "tag2")}
	default:
		l.op = rapid.SampledFrom(cmpOps).Draw(t, "op")
		l.r = opd{kind: "str", val: genStr(t, "const")}
	}
	return l
}

func (o opd) tokens(t *rapid.T) []string {
	switch o.kind {
	case "logID":
		return []string{"logID"}
	case "tag":
		return []string{"tag", "(", qlgen.Quote(t, o.val), ")"}
	case "str":
		return []string{qlgen.Quote(t, o.val)}
	}
	res := []string{"["}
	for i, a := range o.arr {
		if i > 0 {
			res = append(res, ",")
		}
		res = append(res, qlgen.Quote(t, a))
	}
	return append(res, "]")
}

func (l leaf) tokens(t *rapid.T) []string {
	return append(append(l.l.tokens(t), l.op), l.r.tokens(t)...)
}

// like is the reference of LIKE: the pattern parts between % must be met in the order
func like(s, pat string) bool {
	parts := strings.Split(pat, "%")
	if len(parts) == 1 {
		return s == pat
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

func cmp[T any](op string, a, b T, less func(a, b T) bool) bool {
	lt, gt := less(a, b), less(b, a)
	switch op {
	case "<":
		return lt
	case ">":
		return gt
	case "<=":
		return !gt
	case ">=":
		return !lt
	case "=":
		return !lt && !gt
	case "!=":
		return lt || gt
	}
	panic("wrong op " + op)
}

func (o opd) value(log *solaris.Log) string {
	switch o.kind {
	case "logID":
		return log.ID
	case "tag":
		return log.Tags[o.val]
	}
	return o.val
}

func (l leaf) eval(log *solaris.Log) bool {
	v := l.l.value(log)
	switch l.op {
	case "IN":
		for _, a := range l.r.arr {
			if a == v {
				return true
			}
		}
		return false
	case "LIKE":
		return like(v, l.r.val)
	}
	return cmp(l.op, v, l.r.value(log), func(a, b string) bool { return a < b })
}

// genLog generates a log, which values are close to the constants of the leaves
func genLog(t *rapid.T, leaves []*leaf, allTags bool) *solaris.Log {
	var consts []string
	for _, l := range leaves {
		consts = append(consts, l.r.arr...)
		if l.r.kind == "str" {
			consts = append(consts, l.r.val, strings.ReplaceAll(l.r.val, "%", "zz"), strings.ReplaceAll(l.r.val, "_", "x"))
			if p := strings.ReplaceAll(l.r.val, "%", ""); l.op == "LIKE" && p != "" {
				// the value may be a little shorter than the pattern
				i := rapid.IntRange(0, len(p)-1).Draw(t, "dropFrom")
				consts = append(consts, p, strings.ToValidUTF8(p[:i]+p[min(len(p), i+rapid.IntRange(1, 2).Draw(t, "dropped")):], ""))
			}
		}
	}
	val := func() string {
		if len(consts) > 0 && rapid.IntRange(0, 3).Draw(t, "near") > 0 {
			return rapid.SampledFrom(consts).Draw(t, "c")
		}
		return genStr(t, "v")
	}
	log := &solaris.Log{ID: val(), Tags: map[string]string{}}
	for _, tg := range tagNames {
		if allTags || rapid.IntRange(0, 3).Draw(t, "hasTag") > 0 {
			log.Tags[tg] = val()
		}
	}
	return log
}

// times

type tleaf struct {
	op string
	tm time.Time
	s  string // text of the time constant
}

var baseTime = time.Date(2024, 3, 10, 12, 0, 0, 0, time.UTC)

func genTimeConst(t *rapid.T, tm time.Time) string {
	opts := []string{strconv.FormatInt(tm.UnixNano(), 10)}
	if tm.Nanosecond()%1000000 == 0 {
		opts = append(opts, tm.UTC().Format("2006-01-02T15:04:05.000Z"), tm.In(time.FixedZone("", 3*3600)).Format("2006-01-02T15:04:05.000-07:00"))
		if tm.Nanosecond() == 0 {
			opts = append(opts, tm.UTC().Format("2006-01-02 15:04:05"), tm.UTC().Format("2006-01-02T15:04:05Z"))
		}
	}
	return rapid.SampledFrom(opts).Draw(t, "timeText")
}

func genTLeaf(t *rapid.T) tleaf {
	l := tleaf{op: rapid.SampledFrom(cmpOps).Draw(t, "op")}
	l.tm = genTime(t)
	l.s = genTimeConst(t, l.tm)
	return l
}

func genTime(t *rapid.T) time.Time {
	switch rapid.IntRange(0, 9).Draw(t, "timeKind") {
	case 0: // far ones
		return rapid.SampledFrom([]time.Time{time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(0, 0), time.Unix(0, 1), time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2069, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(-1, 0)}).Draw(t, "far")
	case 1: // sub-milliseconds
		return baseTime.Add(time.Duration(rapid.IntRange(0, 4).Draw(t, "ms"))*time.Millisecond + time.Duration(rapid.IntRange(0, 3).Draw(t, "ns"))*333333)
	default:
		return baseTime.Add(time.Duration(rapid.IntRange(0, 6).Draw(t, "ms")) * time.Millisecond)
	}
}

func (l tleaf) tokens(t *rapid.T) []string { return []string{"ctime", l.op, qlgen.Quote(t, l.s)} }

func (l tleaf) eval(tm time.Time) bool {
	return cmp(l.op, tm, l.tm, func(a, b time.Time) bool { return a.Before(b) })
}

func invalid(err error) bool { return errors.Is(err, errors.ErrInvalid) }

func showLog(l *solaris.Log) string { return fmt.Sprintf("{ID:%q tags:%q}", l.ID, l.Tags) }
