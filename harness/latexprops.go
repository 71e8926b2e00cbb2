package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

type parsed struct {
	node ast.Node
	err  error
	bad  string // totality violated
}

func parseExpr(cs string) (r parsed) {
	if p := try(func() { r.node, r.err = latex.ParseExpr(cs) }); p != "" {
		r.bad = "ParseExpr panics: " + p
		return r
	}
	switch {
	case r.err == nil && r.node == nil:
		r.bad = "ParseExpr returns neither a tree nor an error"
	case r.err != nil && r.node != nil:
		r.bad = fmt.Sprintf("ParseExpr returns both a tree and an error %v", r.err)
	case r.err != nil && r.err.Error() == "":
		r.bad = "ParseExpr returns an error without a message"
	}
	return r
}

const parseStates = "state: distinct (open constructs at the point reached, verdict, shape of the tree); transition: token consumed by the reference parser and by the code"

func (w *Worker) parseState(p *refParser, v verdict, why string, root *rnode) {
	w.Trans(len(p.s))
	w.Count(v.String())
	sh := ""
	if root != nil {
		sh = shape(root, 4)
	}
	w.State(strings.Join(p.path, "/"), v.String(), why, sh)
}

// shape is the tree without texts, cut at a depth.
func shape(n *rnode, d int) string {
	if d == 0 {
		return "."
	}
	s := n.kind
	if len(n.kids) > 0 {
		s += "("
		for i, k := range n.kids {
			if i > 6 {
				s += "..."
				break
			}
			s += shape(k, d-1) + " "
		}
		s += ")"
	}
	return s
}

func init() {
	register(&Check{
		id:        "C01",
		limit:     20 * time.Second,
		rule:      "every token string, transition tour over stacks of open constructs, every code point, every pair of bytes, every macro in every context, truncations, scale families; each is parsed twice by the real code",
		stateRule: parseStates,
		gen: func(g *Gen) {
			parseCases(g, parseSpace{})
			g.Phase("extreme-depth")
			for _, n := range []int{4001, 9999, 10000, 10001, 20001, 100001, pick(g, 1000001, 300001), 3000001} {
				for _, p := range append(largeNests(), [2]string{"^", ""}, [2]string{"_", ""}, [2]string{"^_", ""}, [2]string{"${", "}$"}, [2]string{`\sqrt{$`, "$}"}, [2]string{"$$", ""}, [2]string{"[", "]"}, [2]string{"(", ")"}) {
					g.Emit(big("$", rep{n, p[0]}, "x", rep{n, p[1]}, "$"))
					g.Emit(big(rep{n, p[0]}, "x", rep{n, p[1]}))
					g.Emit(big("$", rep{n, p[0]}))
				}
			}
		},
		run: func(w *Worker, cs string) {
			p := &refParser{s: cs}
			root, v, why := p.run()
			w.parseState(p, v, why, root)
			r := parseExpr(cs)
			if r.bad != "" {
				w.Fail("%s", r.bad)
				return
			}
			if w.evals%4 == 0 || len(cs) < 6 {
				q := parseExpr(cs)
				switch {
				case q.bad != "":
					w.Fail("second call: %s", q.bad)
				case (q.err == nil) != (r.err == nil):
					w.Fail("the outcome of the second call differs: %v / %v", r.err, q.err)
				case r.err != nil && r.err.Error() != q.err.Error():
					w.Fail("the error of the second call differs: %v / %v", r.err, q.err)
				case r.err == nil && astDump(r.node, true) != astDump(q.node, true):
					w.Fail("the tree of the second call differs:\n%s\n%s", astDump(r.node, true), astDump(q.node, true))
				}
			}
			if r.err == nil {
				w.Count("trees")
			} else {
				w.Count("errors")
			}
		},
	})

	register(&Check{
		id:        "C02",
		limit:     20 * time.Second,
		rule:      "the expressions of the shared space, plus every formula with a bounded number of constructs; the well-formed ones (by the reference parser) must be parsed into the reference tree",
		stateRule: parseStates,
		gen: func(g *Gen) {
			g.Phase("derivations")
			formulas(g, pick(g, 4, 5))
			parseCases(g, parseSpace{lighter: !g.thorough})
		},
		run: func(w *Worker, cs string) {
			p := &refParser{s: cs}
			root, v, why := p.run()
			w.parseState(p, v, why, root)
			if v != valid {
				return
			}
			r := parseExpr(cs)
			if r.bad != "" {
				w.Fail("%s", r.bad)
				return
			}
			if r.err != nil {
				w.Fail("well-formed expression rejected: %v\nwant %s", r.err, refDump(root, false))
				return
			}
			if got, want := astDump(r.node, false), refDump(root, false); got != want {
				w.Fail("the tree does not mirror the source\ngot  %s\nwant %s", got, want)
			}
		},
	})

	register(&Check{
		id:        "C03",
		limit:     20 * time.Second,
		rule:      "the expressions of the shared space, plus every single-token deletion, duplication, replacement and truncation of well-formed formulas; the malformed ones (by the reference parser) must be rejected",
		stateRule: parseStates,
		gen: func(g *Gen) {
			g.Phase("mutants")
			mutants(g)
			parseCases(g, parseSpace{lighter: !g.thorough})
		},
		run: func(w *Worker, cs string) {
			p := &refParser{s: cs}
			root, v, why := p.run()
			w.parseState(p, v, why, root)
			if v != invalid {
				return
			}
			r := parseExpr(cs)
			if r.bad != "" {
				w.Fail("%s", r.bad)
				return
			}
			if r.err == nil {
				w.Fail("accepted although %s\ntree %s", why, astDump(r.node, false))
			}
		},
	})

	register(&Check{
		id:        "C04",
		limit:     20 * time.Second,
		rule:      "the expressions of the shared space and every formula with a bounded number of constructs, prefixed and separated by multi-byte characters, comments and blanks; positions are compared with those of the reference parser",
		stateRule: parseStates,
		gen: func(g *Gen) {
			g.Phase("derivations")
			posFormulas(g, pick(g, 3, 4))
			parseCases(g, parseSpace{lighter: !g.thorough, skipChars: !g.thorough})
		},
		run: func(w *Worker, cs string) {
			p := &refParser{s: cs}
			root, v, why := p.run()
			w.parseState(p, v, why, root)
			if v == invalid {
				return
			}
			r := parseExpr(cs)
			if r.bad != "" || r.err != nil {
				return // decided by C01 and C02
			}
			if v == valid {
				if got, want := astDump(r.node, true), refDump(root, true); got != want {
					w.Fail("positions differ from the source\ngot  %s\nwant %s", got, want)
					return
				}
			}
			posInvariants(w, cs, r.node)
		},
	})

	register(&Check{
		id:        "C05",
		limit:     20 * time.Second,
		rule:      "every formula with a bounded number of constructs; at every token boundary of it, and at all of them at once, every kind of blank or comment is inserted or the blanks there are removed; the trees must agree",
		stateRule: parseStates,
		gen:       blankCases,
		run:       blankRun,
	})
}

// posInvariants checks that text-bearing nodes cut out of the source are
// their text, that siblings are ordered, and that children lie in parents.
func posInvariants(w *Worker, src string, n ast.Node) {
	cut := func(what string, x ast.Node, want string) {
		a, b := int(x.Pos()), int(x.End())
		if a < 0 || b > len(src) || a > b {
			w.Fail("%s %q spans %d-%d outside of the source of length %d", what, want, a, b, len(src))
			return
		}
		if src[a:b] != want {
			w.Fail("%s %q spans %d-%d, which is %q", what, want, a, b, src[a:b])
		}
	}
	ends := func(what string, x ast.Node, first, last string) {
		a, b := int(x.Pos()), int(x.End())
		if a < 0 || b > len(src) || a >= b || !strings.HasPrefix(src[a:b], first) || !strings.HasSuffix(src[a:b], last) {
			w.Fail("%s spans %d-%d, not from %q to %q", what, a, b, first, last)
		}
	}
	var walk func(n ast.Node, lo, hi int) int
	list := func(l []ast.Node, lo, hi int) int {
		if x := ast.List(l); len(x) > 0 && x[0] != nil && x[len(x)-1] != nil && (x.Pos() != x[0].Pos() || x.End() != x[len(x)-1].End()) {
			w.Fail("a list spans %d-%d, its nodes %d-%d", x.Pos(), x.End(), x[0].Pos(), x[len(x)-1].End())
		}
		for _, k := range l {
			if k == nil {
				continue
			}
			lo = walk(k, lo, hi)
		}
		return lo
	}
	walk = func(n ast.Node, lo, hi int) int {
		switch x := n.(type) {
		case ast.List:
			return list(x, lo, hi)
		}
		a, b := int(n.Pos()), int(n.End())
		if a < lo || a > hi {
			w.Fail("%T at %d is not within %d-%d (its parent, after its elder sibling)", n, a, lo, hi)
			return lo
		}
		switch x := n.(type) {
		case *ast.Word:
			cut("word", n, x.Text)
		case *ast.Literal:
			cut("number", n, x.Text)
		case *ast.Symbol:
			cut("symbol", n, x.Text)
		case *ast.Macro:
			cut("macro name", x.Name, x.Name.Name)
			list(x.Args, int(x.Name.End()), b)
		case *ast.Arg:
			ends("argument", n, "{", "}")
			list(x.List, a+1, b-1)
		case *ast.OptArg:
			ends("optional argument", n, "[", "]")
			list(x.List, a+1, b-1)
		case *ast.MathExpr:
			ends("math section", n, "$", "$")
			list(x.List, a+1, b-1)
		case *ast.Sup:
			if a < len(src) && src[a] != '^' {
				w.Fail("superscript at %d, not at its operator", a)
			}
			return list([]ast.Node{x.Node}, a+1, hi)
		case *ast.Sub:
			if a < len(src) && src[a] != '_' {
				w.Fail("subscript at %d, not at its operator", a)
			}
			return list([]ast.Node{x.Node}, a+1, hi)
		}
		if b < a || b > hi {
			w.Fail("%T ends at %d, outside of its parent that ends at %d", n, b, hi)
			return a
		}
		return b
	}
	walk(n, 0, len(src))
}

var formulaGrammar = func() *grammar {
	return &grammar{
		leaves: []string{"x", "12", "+", `\pi`, "."},
		unary: [][2]string{
			{"{", "}"}, {`\sqrt{`, "}"}, {"^{", "}"}, {"_{", "}"}, {`\exp{`, "}"},
		},
		binary: [][3]string{{`\frac{`, "}{", "}"}, {`\sqrt[`, "]{", "}"}},
	}
}

func formulas(g *Gen, n int) {
	formulaGrammar().emit(n, func(s string) { g.Emit("$" + s + "$") })
	formulaGrammar().emit(n-1, func(s string) { g.Emit("u $" + s + "$ v$" + s + "$") })
	text := &grammar{
		leaves: []string{"ab", " ", "1", "-", `\alpha`, "(", "]", `\ `, "$x$", "$$", "^2", "_x", "."},
		unary:  [][2]string{{`\textbf{`, "}"}, {"$", "$"}, {"^{", "}"}},
		binary: [][3]string{{`\frac{`, "}{", "}"}, {`\sqrt[`, "]{", "}"}},
	}
	text.emit(n-1, func(s string) { g.Emit(s) })
}

func posFormulas(g *Gen, n int) {
	seps := []string{"", " ", "é", "%è\n", "\n\t", "%\n%\n", "日 ", "$$", "1 "}
	formulaGrammar().emit(n, func(s string) {
		for i, p := range seps {
			q := seps[(i*3+1)%len(seps)]
			g.Emit(p + "$" + s + "$" + q + "x")
			if i%2 == 1 && p != "$$" && q != "$$" {
				g.Emit("$" + p + s + q + "$" + p)
			}
		}
	})
	g.Phase("blanks-inside")
	formulaGrammar().emit(n-1, func(s string) {
		p := &refParser{s: "$" + s + "$"}
		if _, v, _ := p.run(); v != valid {
			return
		}
		for _, b := range []string{" ", "\n", "%é\n", "\r\n%x%y\n\t "} {
			g.Emit(insertAll(p.s, p.gaps, b))
			for _, at := range p.gaps {
				g.Emit(p.s[:at] + b + p.s[at:])
			}
		}
	})
}

// mutants emits all single-token edits of a set of well-formed formulas.
func mutants(g *Gen) {
	n := pick(g, 3, 4)
	edit := []string{"{", "}", "$", "]", "[", `\frac`, `\sqrt`, "^", `\nosuchmacro`, "#", `"`, "\u00a0"}
	formulaGrammar().emit(n, func(s string) {
		s = "$" + s + "$"
		toks := refTokens(s)
		for i := range toks {
			del := strings.Join(toks[:i], "") + strings.Join(toks[i+1:], "")
			g.Emit(del)
			g.Emit(strings.Join(toks[:i], ""))
			if len(toks) <= 9 || g.thorough {
				for _, e := range edit {
					g.Emit(strings.Join(toks[:i], "") + e + strings.Join(toks[i:], ""))
					g.Emit(strings.Join(toks[:i], "") + e + strings.Join(toks[i+1:], ""))
				}
			}
		}
	})
}

// refTokens splits into tokens of the reference lexer.
func refTokens(s string) []string {
	p := &refParser{s: s}
	var out []string
	for {
		st := p.i
		t := p.next()
		if t.kind == "eof" {
			return out
		}
		out = append(out, s[st:p.i])
	}
}

func insertAll(s string, gaps []int, b string) string {
	var o strings.Builder
	last := 0
	for _, at := range gaps {
		if at < last {
			continue
		}
		if at == last && o.Len() > 0 && at != 0 {
			// same gap recorded twice
			continue
		}
		o.WriteString(s[last:at])
		o.WriteString(b)
		last = at
	}
	o.WriteString(s[last:])
	return o.String()
}

var blankKinds = []string{
	" ", "\t", "\n", "\r\n", "   ", "%\n", "%c\n", "% $ } ] { [ \\ \n", "%\"\n", "%'`\n", "%%\n%\n", "%é\xff\r\n", "\n\n", " %c\n ", "%\\alpha\n", "%1.5e 0x\n", "%/* \n", "%// \n",
}

func blankCases(g *Gen) {
	base := func(f func(s string)) {
		gr := &grammar{
			leaves: []string{"x", "12", "+", `\pi`, `\,`, "1.5"},
			unary:  [][2]string{{"{", "}"}, {`\sqrt{`, "}"}, {"^{", "}"}, {"_", ""}, {`\exp{`, "}"}},
			binary: [][3]string{{`\frac{`, "}{", "}"}, {`\sqrt[`, "]{", "}"}},
		}
		gr.emit(pick(g, 2, 3), func(s string) { f("$" + s + "$") })
		gr2 := &grammar{
			leaves: []string{"x", "1", "="},
			unary:  [][2]string{{"{", "}"}, {"^{", "}"}},
			binary: [][3]string{{`\frac{`, "}{", "}"}, {`\sqrt[`, "]{", "}"}},
		}
		gr2.emit(pick(g, 3, 4), func(s string) { f("$" + s + "$") })
		nested := &grammar{ // math sections and text inside of arguments
			leaves: []string{"x", "+"},
			unary:  [][2]string{{"{$", "$y}"}, {`\sqrt{$`, "$}"}, {"^{$", "$1}"}, {`\exp{u$`, "$v}"}},
			binary: [][3]string{{`\frac{a$`, "$b}{", "}"}, {`\sqrt[$`, "$]{", "}"}},
		}
		nested.emit(pick(g, 2, 3), func(s string) { f("$" + s + "$") })
	}
	g.Phase("inserted-blanks")
	base(func(s string) {
		p := &refParser{s: s}
		if _, v, _ := p.run(); v != valid {
			return
		}
		for _, b := range blankKinds {
			g.Emit(s + "\x00" + insertAll(s, p.gaps, b))
			last := -1
			for _, at := range p.gaps {
				if at == last {
					continue
				}
				last = at
				g.Emit(s + "\x00" + s[:at] + b + s[at:])
			}
		}
	})
	g.Phase("comment-contents") // every byte, pair of special characters and code point in a comment
	special := []string{"\"", "'", "`", "%", "$", "{", "}", "\\", "\r", "/", "*", "1", "e", "a", "é", "\xff", " ", "[", "^"}
	words(g, special, pick(g, 3, 4), "$ab$\x00$a%", "\nb$")
	words(g, special, pick(g, 2, 3), "a$b$\x00%", "\na$b$")
	words(g, special, pick(g, 2, 3), "$x$\x00$x$%", "")
	words(g, special, pick(g, 2, 3), "$\\frac{a}{b}$\x00$\\frac%", "\n{a}%\"\n{b}$")
	for r := rune(1); r < pick(g, rune(0x2100), rune(0x20000)); r++ {
		if r == '\n' {
			continue
		}
		g.Emit("$a b$\x00$a%" + string(r) + "\nb$")
		g.Emit("$a b$\x00$a%x" + string(r) + string(r) + "\nb$")
	}
	for a := 1; a < 256; a++ {
		if a != '\n' {
			g.Emit("$a b$\x00$a%" + string([]byte{byte(a)}) + "\nb$")
		}
	}
	g.Phase("long-comments-and-blanks")
	for k := 1; k < pick(g, 300, 2100); k++ {
		g.Emit("$ab$\x00$a%" + strings.Repeat("c", k) + "\nb$")
		g.Emit("$a b$\x00$a" + strings.Repeat(" ", k) + "b$")
		g.Emit("$a b$\x00$a" + strings.Repeat("\n", k) + "b$")
		g.Emit("$a b$\x00$a" + strings.Repeat("%\n", k) + "b$")
		if k <= 64 {
			g.Emit("$" + strings.Repeat("x ", k) + "$\x00$" + strings.Repeat("x%\n", k) + "$")
			g.Emit("$" + strings.Repeat("{", k) + strings.Repeat("}", k) + "$\x00$" + strings.Repeat("{ %\"\n", k) + strings.Repeat("\t}%", k-1) + "\n" + strings.Repeat("}", 1) + "$")
		}
	}
	for _, n := range edges(pick(g, 131073, 1<<20)) {
		g.Emit(big("$ab$\x00$a%", rep{n, "c"}, "\nb$"))
		g.Emit(big("$ab$\x00%", rep{n, "é$"}, "\n$ab$"))
		g.Emit(big("$a{b}$c\x00$a", rep{n, " "}, "{b}$c"))
		g.Emit(big("$\\frac{1}{2}$\x00$\\frac", rep{n, "\n"}, "{1}%2\n{2}$"))
		g.Emit(big("$a{b}$\x00$a", rep{n, "%\n"}, "{b}$"))
		g.Emit(big("$\\sqrt[3]{b}$\x00$\\sqrt", rep{n, "%c\n \t"}, "[3]%]\n{b}$"))
		g.Emit(big("$", rep{n, "x "}, "$\x00$", rep{n, "x%\n"}, "$"))
		g.Emit(big("$", rep{n, "+1"}, "$\x00$", rep{n, "+ 1\t"}, "$"))
	}
	g.Phase("replaced-blanks")
	lexical := []string{"1", ".", "x", "+", `\pi`, " ", "^", "{", "}"}
	exact(lexical, pick(g, 5, 6), func(s string) {
		if !strings.Contains(s, " ") {
			return
		}
		for _, b := range []string{"%c\n", "\n", "%1\r\n%\n", "\t"} {
			g.Emit("$" + s + "$\x00$" + strings.ReplaceAll(s, " ", b) + "$")
		}
	})
	g.Phase("escaped-percent")
	words(g, []string{`\%`, "a", "%c\n", " ", "1", `\,`}, pick(g, 4, 5), "\x00$", "$")
}

// blankRun: cs is "base NUL variant"; both must have the same tree. With an
// empty base, the variant is compared with the reference parser.
func blankRun(w *Worker, cs string) {
	i := strings.IndexByte(cs, 0)
	base, variant := cs[:i], cs[i+1:]
	p := &refParser{s: variant}
	root, v, why := p.run()
	w.parseState(p, v, why, root)
	if v != valid {
		w.Count("skipped")
		return
	}
	r := parseExpr(variant)
	if r.bad != "" {
		w.Fail("%s", r.bad)
		return
	}
	if r.err != nil {
		w.Fail("%q rejected: %v", variant, r.err)
		return
	}
	got := astDump(r.node, false)
	if base != "" && refSame(base, root) {
		b := parseExpr(base)
		if b.bad != "" || b.err != nil {
			w.Fail("%q rejected: %v %s", base, b.err, b.bad)
			return
		}
		if want := astDump(b.node, false); got != want {
			w.Fail("%q and %q differ by blanks and comments only\ntree of the former %s\ntree of the latter %s", base, variant, want, got)
		}
		w.Count("pairs")
	}
	if want := refDump(root, false); got != want {
		w.Fail("%q: tree differs from the source without its comments\ngot  %s\nwant %s", variant, got, want)
	}
}

// refSame tells whether the reference parser gives base the tree root: when
// blanks separate what was one token (a word or number), the two are not
// expected to agree.
func refSame(base string, root *rnode) bool {
	p := &refParser{s: base}
	r, v, _ := p.run()
	return v == valid && refDump(r, false) == refDump(root, false)
}
