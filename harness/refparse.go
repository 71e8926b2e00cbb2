package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex/ast"
)

// The reference parser: a plain recursive descent parser over the bytes of the
// source, written from the documented syntax, that shares nothing with the
// repository.

// rnode is a node of the reference tree.
type rnode struct {
	kind     string // word num sym macro arg opt group math sup sub
	text     string
	pos, end int
	kids     []*rnode
}

type verdict int

const (
	valid   verdict = iota
	invalid         // must be rejected
	unspec          // may be rejected or accepted, but must terminate
)

func (v verdict) String() string { return [...]string{"valid", "invalid", "unspecified"}[v] }

type refStop struct {
	v   verdict
	why string
}

type refParser struct {
	s    string
	i    int
	math bool
	path []string // open constructs
	// boundaries between tokens in math, where blanks may be inserted.
	gaps  []int
	max   int
	depth int
}

type rtok struct {
	kind     string // word num sym macro space eof lbrace rbrace lbrack rbrack
	text     string
	pos, end int
}

func refParse(s string) (root *rnode, v verdict, why string) {
	p := &refParser{s: s}
	return p.run()
}

func (p *refParser) run() (root *rnode, v verdict, why string) {
	defer func() {
		if e := recover(); e != nil {
			st, ok := e.(refStop)
			if !ok {
				panic(e)
			}
			root, v, why = nil, st.v, st.why
		}
	}()
	if strings.HasPrefix(p.s, "\uFEFF") {
		return nil, unspec, "byte order mark"
	}
	root = &rnode{kind: "group"}
	for {
		t := p.next()
		if t.kind == "eof" {
			return root, valid, ""
		}
		if n := p.node(t); n != nil {
			root.kids = append(root.kids, n)
		}
	}
}

func (p *refParser) bad(format string, args ...any) {
	panic(refStop{invalid, fmt.Sprintf(format, args...)})
}

func (p *refParser) unspecified(why string) { panic(refStop{unspec, why}) }

func (p *refParser) rune() (rune, int) {
	if p.i >= len(p.s) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(p.s[p.i:])
}

func isDig(b byte) bool { return b >= '0' && b <= '9' }

// blanks skips layout: tabs, line breaks and comments; spaces too if sp.
func (p *refParser) blanks(sp bool) {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '\t', '\n', '\r':
			p.i++
		case ' ':
			if !sp {
				return
			}
			p.i++
		case '%':
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
			if p.i < len(p.s) {
				p.i++
			}
		default:
			return
		}
	}
}

// next returns the next token.
func (p *refParser) next() rtok {
	p.gap()
	p.blanks(false)
	start := p.i
	if p.i >= len(p.s) {
		return rtok{"eof", "", start, start}
	}
	mk := func(kind string) rtok { return rtok{kind, p.s[start:p.i], start, p.i} }
	c := p.s[p.i]
	switch {
	case c == ' ':
		p.i++
		return mk("space")
	case c == '\\':
		p.i++
		r, n := p.rune()
		switch {
		case n == 0:
			p.bad("lone backslash at the end")
		case r == '\t' || r == '\n' || r == '\r':
			p.unspecified("backslash before a line break or tab")
		case unicode.IsLetter(r):
			for n > 0 && unicode.IsLetter(r) {
				p.i += n
				r, n = p.rune()
			}
		default:
			p.i += n
		}
		return mk("macro")
	case isDig(c) || (c == '.' && p.i+1 < len(p.s) && isDig(p.s[p.i+1])):
		dot := false
		for p.i < len(p.s) && (isDig(p.s[p.i]) || (p.s[p.i] == '.' && !dot)) {
			dot = dot || p.s[p.i] == '.'
			p.i++
		}
		return mk("num")
	case strings.IndexByte("$_=<>^/*-+!?':,;.()", c) >= 0:
		p.i++
		return mk("sym")
	case c == '[':
		p.i++
		return mk("lbrack")
	case c == ']':
		p.i++
		return mk("rbrack")
	case c == '{':
		p.i++
		return mk("lbrace")
	case c == '}':
		p.i++
		return mk("rbrace")
	}
	r, n := p.rune()
	if !unicode.IsLetter(r) {
		p.bad("unsupported character %q", p.s[p.i:p.i+n])
	}
	for n > 0 && unicode.IsLetter(r) {
		p.i += n
		r, n = p.rune()
	}
	return mk("word")
}

// gap records a place where blanks may be inserted in math.
func (p *refParser) gap() {
	if p.math {
		p.gaps = append(p.gaps, p.i)
	}
}

func leaf(kind string, t rtok) *rnode {
	return &rnode{kind: kind, text: t.text, pos: t.pos, end: t.end}
}

// node parses the construct that starts with token t; nil for a blank in math.
func (p *refParser) node(t rtok) *rnode {
	p.depth++
	if p.depth > 4000 {
		p.unspecified("extremely deep nesting")
	}
	defer func() { p.depth-- }()
	switch t.kind {
	case "word", "num":
		return leaf(t.kind, t)
	case "space":
		if p.math {
			return nil
		}
		return leaf("sym", t)
	case "lbrack", "rbrack":
		return leaf("sym", t)
	case "lbrace":
		if !p.math {
			p.bad("group outside of math")
		}
		g := &rnode{kind: "group", pos: t.pos}
		g.kids, g.end = p.until("rbrace", "group")
		return g
	case "rbrace":
		p.bad("unbalanced closing brace")
	case "eof":
		p.bad("operand missing at the end")
	case "macro":
		return p.macro(t)
	}
	switch t.text {
	case "$":
		return p.mathExpr(t)
	case "^", "_":
		kind := "sup"
		if t.text == "_" {
			kind = "sub"
		}
		sc := &rnode{kind: kind, pos: t.pos}
		p.gap()
		p.blanks(true)
		if p.i < len(p.s) {
			switch p.s[p.i] {
			case '{':
				o := p.next()
				g := &rnode{kind: "group", pos: o.pos}
				g.kids, g.end = p.until("rbrace", "script")
				sc.kids = []*rnode{g}
				sc.end = g.end
				return sc
			case '$':
				p.unspecified("math section as a script")
			case ']':
				p.unspecified("bracket as a script")
			}
		}
		n := p.node(p.next())
		sc.kids = []*rnode{n}
		sc.end = n.end
		return sc
	}
	return leaf("sym", t)
}

func (p *refParser) push(s string) {
	p.path = append(p.path, s)
	if len(p.path) > p.max {
		p.max = len(p.path)
	}
}

// until parses nodes up to the token kind close.
func (p *refParser) until(close, what string) (kids []*rnode, end int) {
	p.push(what)
	for {
		t := p.next()
		if t.kind == close {
			p.path = p.path[:len(p.path)-1]
			return kids, t.end
		}
		if t.kind == "eof" {
			p.bad("unclosed %s", what)
		}
		if n := p.node(t); n != nil {
			kids = append(kids, n)
		}
	}
}

func (p *refParser) mathExpr(t rtok) *rnode {
	m := &rnode{kind: "math", text: t.text, pos: t.pos}
	old := p.math
	p.math = true
	defer func() { p.math = old }()
	p.push("math")
	for {
		u := p.next()
		if u.kind == "sym" && u.text == "$" {
			p.path = p.path[:len(p.path)-1]
			m.end = u.end
			return m
		}
		if u.kind == "eof" {
			p.bad("unclosed math section")
		}
		if n := p.node(u); n != nil {
			m.kids = append(m.kids, n)
		}
	}
}

func (p *refParser) macro(t rtok) *rnode {
	args, ok := macroArgs[t.text]
	if !ok {
		p.bad("unknown macro %s", t.text)
	}
	m := &rnode{kind: "macro", text: t.text, pos: t.pos, end: t.end}
	for _, a := range args {
		p.gap()
		p.blanks(true)
		if a == 'O' {
			if p.i < len(p.s) && p.s[p.i] == '[' {
				o := p.next()
				arg := &rnode{kind: "opt", pos: o.pos}
				arg.kids, arg.end = p.until("rbrack", "opt of "+t.text)
				m.kids = append(m.kids, arg)
				m.end = arg.end
			}
			continue
		}
		if p.i >= len(p.s) || p.s[p.i] != '{' {
			p.bad("missing argument of %s", t.text)
		}
		o := p.next()
		arg := &rnode{kind: "arg", pos: o.pos}
		arg.kids, arg.end = p.until("rbrace", "arg of "+t.text)
		m.kids = append(m.kids, arg)
		m.end = arg.end
	}
	return m
}

// dump writes the canonical form of a reference tree.
func (n *rnode) dump(b *strings.Builder, pos bool) {
	switch n.kind {
	case "word", "num", "sym":
		b.WriteString(n.kind)
		b.WriteString(strconv.Quote(n.text))
	case "macro":
		b.WriteString("macro" + strconv.Quote(n.text))
	case "math":
		b.WriteString("math" + strconv.Quote(n.text))
	default:
		b.WriteString(n.kind)
	}
	if pos {
		switch n.kind {
		case "group":
		case "sup", "sub":
			fmt.Fprintf(b, "@%d", n.pos)
		default:
			fmt.Fprintf(b, "@%d-%d", n.pos, n.end)
		}
	}
	switch n.kind {
	case "word", "num", "sym":
		return
	}
	b.WriteByte('(')
	for i, k := range n.kids {
		if i > 0 {
			b.WriteByte(' ')
		}
		k.dump(b, pos)
	}
	b.WriteByte(')')
}

func refDump(n *rnode, pos bool) string {
	b := new(strings.Builder)
	n.dump(b, pos)
	return b.String()
}

// astDump writes the canonical form of a tree of the repository.
func astDump(n ast.Node, pos bool) string {
	b := new(strings.Builder)
	dumpNode(b, n, pos)
	return b.String()
}

func dumpKids(b *strings.Builder, l []ast.Node, pos bool) {
	b.WriteByte('(')
	for i, k := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		dumpNode(b, k, pos)
	}
	b.WriteByte(')')
}

func dumpNode(b *strings.Builder, n ast.Node, pos bool) {
	span := func() {
		if pos {
			fmt.Fprintf(b, "@%d-%d", int(n.Pos()), int(n.End()))
		}
	}
	switch n := n.(type) {
	case nil:
		b.WriteString("NIL")
	case ast.List:
		b.WriteString("group")
		dumpKids(b, n, pos)
	case *ast.Word:
		b.WriteString("word" + strconv.Quote(n.Text))
		span()
	case *ast.Literal:
		b.WriteString("num" + strconv.Quote(n.Text))
		span()
	case *ast.Symbol:
		b.WriteString("sym" + strconv.Quote(n.Text))
		span()
	case *ast.Macro:
		b.WriteString("macro")
		if n.Name == nil {
			b.WriteString("NIL")
		} else {
			b.WriteString(strconv.Quote(n.Name.Name))
			if pos && (n.Name.Pos() != n.Pos() || int(n.Name.End()-n.Name.Pos()) != len(n.Name.Name)) {
				fmt.Fprintf(b, "!ident@%d-%d", int(n.Name.Pos()), int(n.Name.End()))
			}
		}
		span()
		dumpKids(b, n.Args, pos)
	case *ast.Arg:
		b.WriteString("arg")
		span()
		dumpKids(b, n.List, pos)
	case *ast.OptArg:
		b.WriteString("opt")
		span()
		dumpKids(b, n.List, pos)
	case *ast.MathExpr:
		b.WriteString("math" + strconv.Quote(n.Delim))
		span()
		dumpKids(b, n.List, pos)
	case *ast.Sup:
		b.WriteString("sup")
		if pos {
			fmt.Fprintf(b, "@%d", int(n.Pos()))
		}
		dumpKids(b, []ast.Node{n.Node}, pos)
	case *ast.Sub:
		b.WriteString("sub")
		if pos {
			fmt.Fprintf(b, "@%d", int(n.Pos()))
		}
		dumpKids(b, []ast.Node{n.Node}, pos)
	default:
		fmt.Fprintf(b, "UNKNOWN<%T>", n)
	}
}
