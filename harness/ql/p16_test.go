package ql

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"testing"

	"solverif/ev"
	"solverif/qlgen"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	sut "github.com/solarisdb/solaris/pkg/ql"
	"pgregory.net/rapid"
)

//go:embed sqlsrv.py
var sqlSrv string

type sqlEngine struct {
	lock sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func startSQL() *sqlEngine {
	e := &sqlEngine{cmd: exec.Command("python3", "-c", sqlSrv)}
	e.cmd.Stderr = os.Stderr
	in, err := e.cmd.StdinPipe()
	if err == nil {
		var out io.ReadCloser
		if out, err = e.cmd.StdoutPipe(); err == nil {
			e.in, e.out = in, bufio.NewReaderSize(out, 1<<20)
			err = e.cmd.Start()
		}
	}
	if err != nil {
		fmt.Printf("EV-ENV: could not start the SQL engine: %v\n", err)
		os.Exit(3)
	}
	return e
}

func (e *sqlEngine) close() {
	_ = e.in.Close()
	_ = e.cmd.Wait()
}

// selectLogs returns the indexes of the selected logs
func (e *sqlEngine) selectLogs(logs []*solaris.Log, cond string) ([]int, string) {
	e.lock.Lock()
	defer e.lock.Unlock()
	rows := [][]any{}
	for _, l := range logs {
		tags := l.Tags
		if tags == nil {
			tags = map[string]string{}
		}
		rows = append(rows, []any{l.ID, tags})
	}
	b, _ := json.Marshal(map[string]any{"rows": rows, "cond": cond})
	var rs struct {
		Rows  []int
		Error string
	}
	_, err := e.in.Write(append(b, '\n'))
	if err == nil {
		var s []byte
		if s, err = e.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(s, &rs)
		}
	}
	if err != nil {
		fmt.Printf("EV-ENV: the SQL engine failed: %v\n", err)
		os.Exit(3)
	}
	return rs.Rows, rs.Error
}

// tri is a value of SQL: false, NULL, true
type tri int

func (l leaf) sqlEval(log *solaris.Log) tri {
	for _, o := range []opd{l.l, l.r} {
		if o.kind == "tag" {
			if _, ok := log.Tags[o.val]; !ok && !(l.op == "IN" && len(l.r.arr) == 0) {
				return 1
			}
		}
	}
	if l.eval(log) {
		return 2
	}
	return 0
}

func sqlEval(e *qlgen.Expr[leaf], log *solaris.Log) tri {
	res := tri(0)
	for _, and := range e.Or {
		a := tri(2)
		for _, tm := range and {
			var v tri
			if tm.Leaf != nil {
				v = tm.Leaf.sqlEval(log)
			} else {
				v = sqlEval(tm.Sub, log)
			}
			if tm.Not {
				v = 2 - v
			}
			a = min(a, v)
		}
		res = max(res, a)
	}
	return res
}

// blankStrings replaces the string constants of the SQL by s
func blankStrings(sql string) string {
	var sb strings.Builder
	in := false
	for i := 0; i < len(sql); i++ {
		if sql[i] == '\'' {
			if in && i+1 < len(sql) && sql[i+1] == '\'' {
				i++
				continue
			}
			in = !in
			if in {
				sb.WriteString("s")
			}
			continue
		}
		if !in {
			sb.WriteByte(sql[i])
		}
	}
	return sb.String()
}

func testSQL(t *testing.T, allTags bool) {
	eng := startSQL()
	defer eng.close()
	ev.Check(t, "the condition is at least two comparisons, and it selects some of the logs of the case, but not all of them", func(t *rapid.T) {
		e := qlgen.Gen(t, 3, genLeaf)
		text := qlgen.Plain(e.Tokens(func(l *leaf) []string { return l.tokens(t) }))
		var sb strings.Builder
		if err := sut.NewTranslator(sut.LogsCondTranslateDialect).Translate(&sb, text); err != nil {
			t.Fatalf("the condition %q is not translated: %v", text, err)
		}
		sql := sb.String()
		if strings.Contains(strings.ReplaceAll(blankStrings(sql), " ", ""), "()") {
			t.Fatalf("the SQL %q of %q has an empty list", sql, text)
		}
		var logs []*solaris.Log
		var want []int
		for i := 0; i < 8; i++ {
			logs = append(logs, genLog(t, e.Leaves(), allTags))
			v := e.Eval(func(l *leaf) bool { return l.eval(logs[i]) })
			if !allTags {
				// the comparison with a missing tag is NULL, it is the known finding
				sv := sqlEval(e, logs[i]) == 2
				if sv != v {
					ev.Label(t, "KNOWN: missing tag")
				}
				v = sv
			}
			if v {
				want = append(want, i)
			}
		}
		got, serr := eng.selectLogs(logs, sql)
		if serr != "" {
			t.Fatalf("the SQL %q of %q fails: %s", sql, text, serr)
		}
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			s := ""
			for i, l := range logs {
				s += fmt.Sprintf("\n %d %s", i, showLog(l))
			}
			t.Fatalf("the SQL %q of %q selects %v, expected %v of %s", sql, text, got, want, s)
		}
		n, _, _, _, _ := e.Stats()
		ev.Case(t, n >= 2 && len(got) > 0 && len(got) < len(logs), "%q -> %q", text, sql)
	})
}

func TestSQL(t *testing.T)            { testSQL(t, true) }
func TestSQLMissingTags(t *testing.T) { testSQL(t, false) }

// TestTranslateRejects checks that what is wrong for the evaluator is wrong for the translator
func TestTranslateRejects(t *testing.T) {
	ev.Check(t, "the text is parsed, and it is rejected by the evaluator", func(t *rapid.T) {
		text, _ := genText(t)
		pe, err := sut.Parse(text)
		if err != nil {
			return
		}
		_, err = sut.BuildExprF(pe, sut.LogsCondValueDialect)
		var sb strings.Builder
		terr := sut.NewTranslator(sut.LogsCondTranslateDialect).Translate(&sb, text)
		if err != nil && terr == nil {
			t.Fatalf("the condition %q is wrong (%v), but it is translated to %q", text, err, sb.String())
		}
		ev.Case(t, err != nil, "%q", text)
	})
}
