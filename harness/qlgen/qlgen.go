// Package qlgen generates conditions of the query language together with their meaning, and has a reference parser for the
// language, which is independent of the one under test
package qlgen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Expr is a disjunction of conjunctions of (negated) terms
type Expr[L any] struct{ Or [][]*Term[L] }

// Term is either a leaf, or an expression in the parentheses
type Term[L any] struct {
	Not  bool
	Leaf *L
	Sub  *Expr[L]
}

// Gen generates an expression with the leaves made by leaf()
func Gen[L any](t *rapid.T, depth int, leaf func(t *rapid.T) L) *Expr[L] {
	e := &Expr[L]{}
	for o := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, "or"); o > 0; o-- {
		var and []*Term[L]
		for a := rapid.SampledFrom([]int{1, 1, 2, 2, 3}).Draw(t, "and"); a > 0; a-- {
			tm := &Term[L]{Not: rapid.IntRange(0, 3).Draw(t, "not") == 0}
			if depth > 0 && rapid.IntRange(0, 2).Draw(t, "sub") == 0 {
				tm.Sub = Gen(t, depth-1, leaf)
			} else {
				l := leaf(t)
				tm.Leaf = &l
			}
			and = append(and, tm)
		}
		e.Or = append(e.Or, and)
	}
	return e
}

// Eval returns the value of the expression. nil expression is true
func (e *Expr[L]) Eval(f func(l *L) bool) bool {
	if e == nil || len(e.Or) == 0 {
		return true
	}
	for _, and := range e.Or {
		all := true
		for _, tm := range and {
			var v bool
			if tm.Leaf != nil {
				v = f(tm.Leaf)
			} else {
				v = tm.Sub.Eval(f)
			}
			if v == tm.Not {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// Leaves returns all the leaves in the order of the text
func (e *Expr[L]) Leaves() []*L {
	var res []*L
	for _, and := range e.Or {
		for _, tm := range and {
			if tm.Leaf != nil {
				res = append(res, tm.Leaf)
			} else {
				res = append(res, tm.Sub.Leaves()...)
			}
		}
	}
	return res
}

// Stats returns number of leaves, and whether there are NOT, AND, OR and parentheses there
func (e *Expr[L]) Stats() (leaves int, not, and, or, par bool) {
	or = len(e.Or) > 1
	for _, a := range e.Or {
		and = and || len(a) > 1
		for _, tm := range a {
			not = not || tm.Not
			if tm.Leaf != nil {
				leaves++
				continue
			}
			par = true
			l, n, aa, o, _ := tm.Sub.Stats()
			leaves += l
			not, and, or = not || n, and || aa, or || o
		}
	}
	return
}

// Tokens renders the expression as the list of tokens
func (e *Expr[L]) Tokens(leaf func(l *L) []string) []string {
	var res []string
	for i, and := range e.Or {
		if i > 0 {
			res = append(res, "OR")
		}
		for j, tm := range and {
			if j > 0 {
				res = append(res, "AND")
			}
			if tm.Not {
				res = append(res, "NOT")
			}
			if tm.Leaf != nil {
				res = append(res, leaf(tm.Leaf)...)
			} else {
				res = append(res, "(")
				res = append(res, tm.Sub.Tokens(leaf)...)
				res = append(res, ")")
			}
		}
	}
	return res
}

// Plain joins tokens by single spaces
func Plain(tokens []string) string { return strings.Join(tokens, " ") }

// Styled joins the tokens with any white space (none, where it is possible), and any case of the keywords
func Styled(t *rapid.T, tokens []string) string {
	var sb strings.Builder
	ws := []string{" ", "", "  ", "\t", "\n", " \r\n "}
	sb.WriteString(rapid.SampledFrom(ws).Draw(t, "ws"))
	for i, tok := range tokens {
		switch strings.ToUpper(tok) {
		case "AND", "OR", "NOT", "IN", "LIKE":
			switch rapid.IntRange(0, 2).Draw(t, "case") {
			case 0:
				tok = strings.ToUpper(tok)
			case 1:
				tok = strings.ToLower(tok)
			default:
				b := []byte(tok)
				for j := range b {
					if j%2 == 0 {
						b[j] = strings.ToLower(tok)[j]
					} else {
						b[j] = strings.ToUpper(tok)[j]
					}
				}
				tok = string(b)
			}
		}
		sb.WriteString(tok)
		s := rapid.SampledFrom(ws).Draw(t, "ws")
		if s == "" && i+1 < len(tokens) && glues(tok[len(tok)-1], tokens[i+1][0]) {
			s = " "
		}
		sb.WriteString(s)
	}
	return sb.String()
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func op(c byte) bool { return strings.IndexByte("<>=!", c) >= 0 }

func glues(a, b byte) bool { return word(a) && word(b) || op(a) && op(b) }

// Quote renders s as a string constant: in the single or double quotes, escaping what cannot be there as is
func Quote(t *rapid.T, s string) string {
	q := byte('\'')
	if rapid.Bool().Draw(t, "dquote") {
		q = '"'
	}
	return QuoteWith(s, q)
}

// QuoteWith is Quote with the specific quote
func QuoteWith(s string, q byte) string {
	var sb strings.Builder
	sb.WriteByte(q)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case q:
			sb.WriteString(fmt.Sprintf("\\x%02x", c))
		case '\\':
			sb.WriteString("\\\\")
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}
