package qlgen

import (
	"errors"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The reference parser: the grammar is
//
//	expr  = and { OR and }
//	and   = term { AND term }
//	term  = [NOT] ( cond | "(" expr ")" )
//	cond  = param [ op param ]
//	param = number | string | ident "(" [param {, param}] ")" | ident | "[" [ const {, const} ] "]"

// RParam is a parameter
type RParam struct {
	Kind string // num, str, fn, id, arr
	Val  string
	Args []RParam
}

// RCond is a condition (the leaf of the reference AST)
type RCond struct {
	L  RParam
	Op string
	R  *RParam
}

var (
	rxWS    = regexp.MustCompile(`^\s+`)
	rxIdent = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*`)
	rxNum   = regexp.MustCompile(`^[-+]?\d*\.?\d+([eE][-+]?\d+)?`)
)

type tok struct {
	kind string // kw, id, num, str, op, eof
	val  string
}

var errSyntax = errors.New("syntax error")

func lex(s string) ([]tok, error) {
	var res []tok
	for len(s) > 0 {
		if m := rxWS.FindString(s); m != "" {
			s = s[len(m):]
			continue
		}
		if m := rxIdent.FindString(s); m != "" {
			s = s[len(m):]
			switch u := strings.ToUpper(m); u {
			case "AND", "OR", "NOT", "IN", "LIKE":
				res = append(res, tok{"kw", u})
			default:
				res = append(res, tok{"id", m})
			}
			continue
		}
		if m := rxNum.FindString(s); m != "" {
			s = s[len(m):]
			if _, err := strconv.ParseFloat(m, 32); err != nil {
				return nil, errSyntax
			}
			res = append(res, tok{"num", m})
			continue
		}
		if s[0] == '\'' || s[0] == '"' {
			i := strings.IndexByte(s[1:], s[0])
			if i < 0 {
				return nil, errSyntax
			}
			in, ok := unescape(s[1:1+i], s[0])
			if !ok {
				return nil, errSyntax
			}
			res = append(res, tok{"str", in})
			s = s[i+2:]
			continue
		}
		if len(s) > 1 && (s[:2] == "!=" || s[:2] == "<=" || s[:2] == ">=") {
			res = append(res, tok{"op", s[:2]})
			s = s[2:]
			continue
		}
		if strings.IndexByte("[,()=<>]", s[0]) >= 0 {
			res = append(res, tok{"op", s[:1]})
			s = s[1:]
			continue
		}
		return nil, errSyntax
	}
	return append(res, tok{"eof", ""}), nil
}

func unescape(s string, q byte) (string, bool) {
	var sb strings.Builder
	for s != "" {
		r, _, tail, err := strconv.UnquoteChar(s, q)
		if err != nil {
			return "", false
		}
		sb.WriteRune(r)
		s = tail
	}
	return sb.String(), true
}

type rparser struct {
	t     []tok
	depth int
}

const maxRefDepth = 300

// RefParse parses the text. ok is false if it is not an expression of the language; known is false, if the reference does not
// have an opinion (too deep nesting and invalid utf-8, which may be rejected)
func RefParse(s string) (e *Expr[RCond], ok, known bool) {
	if !utf8.ValidString(s) {
		return nil, false, false
	}
	s = strings.TrimSpace(s)
	if s == "" {
		return &Expr[RCond]{}, true, true
	}
	ts, err := lex(s)
	if err != nil {
		return nil, false, true
	}
	p := &rparser{t: ts}
	e, err = p.expr()
	if p.depth > maxRefDepth {
		return nil, false, false
	}
	if err != nil || p.t[0].kind != "eof" {
		return nil, false, true
	}
	return e, true, true
}

func (p *rparser) is(kind, val string) bool {
	if p.t[0].kind == kind && p.t[0].val == val {
		p.t = p.t[1:]
		return true
	}
	return false
}

func (p *rparser) expr() (*Expr[RCond], error) {
	e := &Expr[RCond]{}
	for {
		var and []*Term[RCond]
		for {
			tm, err := p.term()
			if err != nil {
				return nil, err
			}
			and = append(and, tm)
			if !p.is("kw", "AND") {
				break
			}
		}
		e.Or = append(e.Or, and)
		if !p.is("kw", "OR") {
			return e, nil
		}
	}
}

func (p *rparser) term() (*Term[RCond], error) {
	tm := &Term[RCond]{Not: p.is("kw", "NOT")}
	if p.is("op", "(") {
		if p.depth++; p.depth > maxRefDepth {
			return nil, errSyntax
		}
		e, err := p.expr()
		if err != nil {
			return nil, err
		}
		if !p.is("op", ")") {
			return nil, errSyntax
		}
		tm.Sub = e
		return tm, nil
	}
	l, err := p.param()
	if err != nil {
		return nil, err
	}
	c := RCond{L: l}
	t := p.t[0]
	if t.kind == "kw" && (t.val == "IN" || t.val == "LIKE") || t.kind == "op" && strings.IndexByte("<>!=", t.val[0]) >= 0 {
		p.t = p.t[1:]
		r, err := p.param()
		if err != nil {
			return nil, err
		}
		c.Op, c.R = t.val, &r
	}
	tm.Leaf = &c
	return tm, nil
}

func (p *rparser) konst() (RParam, bool) {
	t := p.t[0]
	if t.kind == "num" || t.kind == "str" {
		p.t = p.t[1:]
		return RParam{Kind: t.kind, Val: t.val}, true
	}
	return RParam{}, false
}

func (p *rparser) param() (RParam, error) {
	if c, ok := p.konst(); ok {
		return c, nil
	}
	if p.is("op", "[") {
		res := RParam{Kind: "arr"}
		if p.is("op", "]") {
			return res, nil
		}
		for {
			c, ok := p.konst()
			if !ok {
				return res, errSyntax
			}
			res.Args = append(res.Args, c)
			if p.is("op", "]") {
				return res, nil
			}
			if !p.is("op", ",") {
				return res, errSyntax
			}
		}
	}
	if p.t[0].kind != "id" {
		return RParam{}, errSyntax
	}
	res := RParam{Kind: "id", Val: p.t[0].val}
	p.t = p.t[1:]
	if !p.is("op", "(") {
		return res, nil
	}
	if p.depth++; p.depth > maxRefDepth {
		return res, errSyntax
	}
	res.Kind = "fn"
	if p.is("op", ")") {
		return res, nil
	}
	for {
		a, err := p.param()
		if err != nil {
			return res, err
		}
		res.Args = append(res.Args, a)
		if p.is("op", ")") {
			return res, nil
		}
		if !p.is("op", ",") {
			return res, errSyntax
		}
	}
}

// Canon renders the AST in a canonical form
func Canon(e *Expr[RCond]) string {
	var sb strings.Builder
	for _, and := range e.Or {
		sb.WriteString("|(")
		for _, tm := range and {
			sb.WriteString("&")
			if tm.Not {
				sb.WriteString("!")
			}
			if tm.Sub != nil {
				sb.WriteString("{" + Canon(tm.Sub) + "}")
				continue
			}
			sb.WriteString(canonParam(tm.Leaf.L))
			if tm.Leaf.R != nil {
				sb.WriteString(" " + tm.Leaf.Op + " " + canonParam(*tm.Leaf.R))
			}
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func canonParam(p RParam) string {
	switch p.Kind {
	case "num":
		f, _ := strconv.ParseFloat(p.Val, 32)
		return "n:" + strconv.FormatFloat(f, 'g', -1, 32)
	case "str":
		return strconv.Quote(p.Val)
	case "id":
		return p.Val
	}
	res := p.Val + "["
	if p.Kind == "fn" {
		res = p.Val + "("
	}
	for i, a := range p.Args {
		if i > 0 {
			res += ","
		}
		res += canonParam(a)
	}
	return res + ")"
}
