package main

import (
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
)

// A case of the typesetting checks is "<config>|<expression>".

type mconf struct{ size, dpi float64 }

var mconfs = []mconf{{12, 72}, {10, 72}, {30, 72}, {7.5, 150}, {100, 96}, {1, 300}, {11.1, 72}, {7.37, 113.7}}

func splitCase(cs string) (mconf, string) {
	if cs[0] == '=' { // =size@dpi|expr
		i := strings.IndexByte(cs, '|')
		var c mconf
		_, err := fmt.Sscanf(cs[:i], "=%g@%g", &c.size, &c.dpi)
		chk(err)
		return c, cs[i+1:]
	}
	return mconfs[cs[0]-'0'], cs[2:]
}

func on(conf int, expr string) string { return string(rune('0'+conf)) + "|" + expr }

// everySize emits formulas with all constructs at many sizes and resolutions.
func everySize(emit func(size, dpi float64, expr string)) {
	exprs := []string{
		`$a+\frac{b}{\sqrt[3]{c}}-\binom{n}{k}$`, `$\overline{x}\dfrac{1}{2}\sqrt{y+\frac{1}{2}}<z$`, `te-xt $\pi\hspace{2}y$`, `$\exp{\frac{\frac{1}{2}}{z}}$`,
		"x", `$\sqrt{\sqrt{p}}\quad 1.5$`,
	}
	dpis := []float64{30, 96, 100, 120, 144, 150, 200, 300, 600, 1200, 2400, 72.27, 0.5}
	for _, e := range exprs {
		for k := 1; k <= 400; k++ {
			emit(float64(k)/4, 72, e)
			if k%4 == 0 {
				emit(float64(k)/4, dpis[k/4%len(dpis)], e)
			}
		}
		for _, s := range []float64{0.01, 0.1, 1.0 / 3, 4.99, 5.01, 9.9, 10.1, 11.999, 12.001, 127, 128, 200, 255, 256, 257, 500, 1000, 5000} {
			emit(s, 72, e)
		}
		for _, d := range dpis {
			for _, s := range []float64{1, 5, 6, 8, 10, 11, 12, 14, 17.5, 20, 24, 36, 48, 72} {
				emit(s, d, e)
			}
		}
	}
}

// mchains emits, for each of the symbols, a formula in which it is next to all
// the others.
func mchains(all []string, emit func(string)) {
	for i, a := range all {
		s := chain(a, all, " ")
		emit("$" + s + "$")
		if i%8 == 0 {
			emit(s)
			emit("$" + chain("{"+a+"}", all, " ") + "$")
		}
	}
	emit("$" + strings.Join(all, " ") + "$")
}

// plainSymbols are the symbols, functions and characters without arguments.
func plainSymbols() (all []string) {
	for _, m := range sortedKeys(macroArgs) {
		if macroArgs[m] == "" && (hasGlyph(m) || classSets["FunctionNames"][m[1:]]) {
			all = append(all, m)
		}
	}
	for _, c := range `+-*=<>:().[]/ax1` {
		all = append(all, string(c))
	}
	return all
}

func supportedMacros() (out []string) {
	for _, m := range macrosWithArgs() {
		if _, v, _ := refTypeset("$"+m+"$", 12, 72, newSynth()); v == valid {
			out = append(out, m)
		}
	}
	return out
}

// supported are the symbols that the typesetter accepts.
func supported(all []string) (out []string) {
	for _, s := range all {
		if _, v, _ := refTypeset("$"+s+" $", 12, 72, newSynth()); v == valid {
			out = append(out, s)
		}
	}
	return out
}

func newSynth() *synth {
	return &synth{missing: func(s string) bool { return !hasGlyph(s) && s != `\__sqrt__` }}
}

type typeset struct {
	node tex.Node
	err  error
	bad  string
	ops  []drawOp
	w    float64
	h    float64
	d    float64
}

// mtexParse typesets with the synthetic font, and ships the result.
func mtexParse(expr string, c mconf) (r typeset) {
	be := newSynth()
	if p := try(func() { r.node, r.err = mtex.Parse(expr, c.size, c.dpi, be) }); p != "" {
		r.bad = "mtex.Parse: " + p
		return r
	}
	switch {
	case r.err == nil && r.node == nil:
		r.bad = "mtex.Parse returns neither a box nor an error"
		return r
	case r.err != nil && r.node != nil:
		r.bad = "mtex.Parse returns both a box and an error"
		return r
	case r.err != nil:
		if len(be.ops) > 0 {
			r.bad = "mtex.Parse draws although it fails"
		}
		return r
	}
	if len(be.ops) > 0 {
		r.bad = "mtex.Parse draws before the box is shipped"
		return r
	}
	tr, ok := r.node.(tex.Tree)
	if !ok {
		r.bad = fmt.Sprintf("mtex.Parse returns a %T that cannot be shipped", r.node)
		return r
	}
	r.w, r.h, r.d = tr.Width(), tr.Height(), tr.Depth()
	var sh tex.Ship
	if p := try(func() { sh.Call(0, 0, tr) }); p != "" {
		r.bad = "shipping the box of a formula: " + p
		return r
	}
	r.ops = be.ops
	return r
}

func splitOps(ops []drawOp) (glyphs, rects []drawOp) {
	for _, o := range ops {
		if o.rect {
			if o.x2 == o.x || o.y2 == o.y {
				continue // no ink
			}
			rects = append(rects, o)
		} else {
			glyphs = append(glyphs, o)
		}
	}
	sort.SliceStable(rects, func(i, j int) bool {
		a, b := rects[i], rects[j]
		if !near(a.x, b.x) {
			return a.x < b.x
		}
		return a.y < b.y && !near(a.y, b.y)
	})
	return glyphs, rects
}

func glyphText(ops []drawOp) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(o.sym)
	}
	return b.String()
}

const mtexStates = "state: distinct (constructs open around the point reached, verdict and reason, shape of the reference tree, number of glyphs and rules); transition: node typeset and drawing operation of the real code"

func (w *Worker) mtexState(expr string, v verdict, why string, nops int) {
	p := &refParser{s: expr}
	root, _, _ := p.run()
	sh := ""
	if root != nil {
		sh = shape(root, 4)
	}
	w.Count(v.String())
	w.Trans(len(expr) + nops)
	w.State(strings.Join(p.path, "/"), v.String(), why, sh, fmt.Sprint(nops))
}

type maspect int

const (
	mGlyphs maspect = iota
	mPlaces
	mWidths
)

// mtexRun compares a formula with the reference typesetter.
func mtexRun(w *Worker, cs string, as maspect) {
	c, expr := splitCase(cs)
	root, v, why := refTypeset(expr, c.size, c.dpi, plainSynth)
	if v != valid {
		w.mtexState(expr, v, why, 0)
		return
	}
	r := mtexParse(expr, c)
	w.mtexState(expr, v, why, len(r.ops))
	if r.bad != "" {
		w.Fail("%s", r.bad)
		return
	}
	if r.err != nil {
		w.Fail("a supported expression is not typeset: %v", r.err)
		return
	}
	want := refShip(root, 0, 0, true, false)
	gg, gr := splitOps(r.ops)
	wg, wr := splitOps(want.ops)
	if as == mGlyphs {
		if a, b := glyphText(gg), glyphText(wg); a != b {
			w.Fail("glyphs drawn: %s\nwant          %s", a, b)
			return
		}
		if len(gr) != len(wr) {
			w.Fail("%d rules drawn, want %d\n  %s", len(gr), len(wr), showOps(r.ops))
		}
		return
	}
	if !near(r.w, root.w) {
		w.Fail("the formula is %.9g wide, want %.9g", r.w, root.w)
		return
	}
	if as == mPlaces && (!near(r.h, root.h) || !near(r.d, root.d)) {
		w.Fail("the formula is %.9g high and %.9g deep, want %.9g and %.9g", r.h, r.d, root.h, root.d)
		return
	}
	if as == mWidths { // vertical places do not matter
		for _, l := range [][]drawOp{gg, wg, gr, wr} {
			for i := range l {
				l[i].y, l[i].y2 = 0, 0
			}
		}
	}
	if want.near {
		w.Count("rounding-undetermined")
		return
	}
	if !sameOps(gg, wg) || !sameOps(gr, wr) {
		w.Fail("drawn:\n  %s\nwant:\n  %s", showOps(r.ops), showOps(want.ops))
	}
}

// mframes are the constructs the typesetter supports.
var mframes = []frame{
	{name: "math", open: "$", close: "$", setsMath: true},
	{name: "group", open: "{", close: "}", needMath: true},
	{name: "sqrt", open: `\sqrt{`, close: "}"},
	{name: "sqrt-opt", open: `\sqrt[`, close: "]{z}"},
	{name: "sqrt-after-opt", open: `\sqrt[3]{`, close: "}"},
	{name: "frac-1", open: `\frac{`, close: "}{z}"},
	{name: "frac-2", open: `\frac{z}{`, close: "}"},
	{name: "dfrac-1", open: `\dfrac{`, close: "}{y}"},
	{name: "tfrac-2", open: `\tfrac{y}{`, close: "}"},
	{name: "binom-1", open: `\binom{`, close: "}{y}"},
	{name: "binom-2", open: `\binom{y}{`, close: "}"},
	{name: "overline", open: `\overline{`, close: "}"},
	{name: "exp", open: `\exp{`, close: "}"},
}

func mgrammar(leaves []string) *grammar {
	return &grammar{
		leaves: leaves,
		unary:  [][2]string{{"{", "}"}, {`\sqrt{`, "}"}, {`\overline{`, "}"}, {`\exp{`, "}"}},
		binary: [][3]string{
			{`\frac{`, "}{", "}"}, {`\sqrt[`, "]{", "}"}, {`\binom{`, "}{", "}"}, {`\dfrac{`, "}{", "}"}, {`\tfrac{`, "}{", "}"},
		},
	}
}

var mleaves = []string{"ab", "12", "+", `\pi`, ".", `\sin`, `\quad`, "(", "é"}

// mscale emits long and deep formulas.
func mscale(n int, emit func(string)) {
	units := []string{
		"a", "a ", "1+", "é", `\alpha`, `\alpha `, "{a}", `\frac{a}{b}`, `\sqrt{x}`, `\sqrt[3]{x}`, "%c\n", `\,`, ".", "1.5 ", "(", `\exp{x}`, "12", "+",
		`\binom{n}{k}`, `\overline{q}`, `\sin `, `\rightarrow `, `\hspace{0.5}`, "{-a}", "(-b)",
	}
	for k := 1; k <= n; k++ {
		for _, u := range units {
			emit("$" + strings.Repeat(u, k) + "$")
			if k%4 == 0 || k < 6 {
				emit(strings.Repeat(u, k))
				emit("x $y$" + strings.Repeat(u, k))
			}
		}
		if k <= n/2 || k <= 36 {
			for i, f := range mframes[1:] {
				emit("$" + strings.Repeat(f.open, k) + "x" + strings.Repeat(f.close, k) + "$")
				q := mframes[1+(i*5+3)%(len(mframes)-1)]
				if k < 12 {
					emit("$" + strings.Repeat(f.open+q.open, k) + "x" + strings.Repeat(q.close+f.close, k) + "$")
				}
			}
		}
	}
}

// mlarge emits expressions of thousands of parts, or levels.
func mlarge(max, depth int, emit func(string)) {
	var nests [][2]string
	for _, f := range mframes[1:] {
		switch f.name { // the others shrink their content to nothing
		case "group", "sqrt", "sqrt-after-opt", "dfrac-1", "overline", "exp":
			nests = append(nests, [2]string{f.open, f.close})
		}
	}
	for _, n := range edges(max) {
		for _, u := range []string{"a ", "1+", "é", `\alpha `, "{a}", `\frac{a}{b}`, `\sqrt[3]{x}`, ".", "(-", `\quad `, `\binom{n}{k}`} {
			emit(big("$", rep{n, u}, "$"))
		}
		for _, u := range []string{"a", "1", " ", "$x+$"} {
			emit(big(rep{n, u}, "$y<z$"))
			emit(big(`$\overline{`, rep{n, "b"}, `}<-$`, rep{n, u}))
		}
		emit(big("$p%", rep{n, "c"}, "\nq$"))
		emit(big(`$\frac{`, rep{n, "a "}, "}{", rep{n, `\pi `}, "}+$"))
	}
	for _, n := range edges(depth) {
		for _, p := range nests {
			emit(big("$a", rep{n, p[0]}, "x", rep{n, p[1]}, "b$c"))
			emit(big("$a", rep{n, p[0]}, "x", rep{n - 1, p[1]}, "$c"))
		}
	}
}

// prefixed puts the configuration of a case before a compressed expression.
func prefixed(conf, cs string) string {
	return bigMark + "=" + conf + "\x01" + cs[len(bigMark):]
}

// repeated is the grammar of formulas with equal parts next to each other.
func repeated() *grammar {
	return mgrammar([]string{"11", "yy", "1.11", `\pi \pi `, "--"})
}

// followed are constructs with operators on both sides of each.
func followed() (out []frame) {
	for _, f := range mframes {
		f.open, f.close = "p+"+f.open+"-", f.close+"-q<2"
		out = append(out, f)
	}
	return out
}

// everyMacro emits each macro with its arguments in every surrounding.
func everyMacro(thorough bool, emit func(string)) {
	for _, m := range sortedKeys(macroArgs) {
		a := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{1}"), "O", "")
		o := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{1}"), "O", "[y]")
		emit(m + a)
		for _, s := range []string{
			m + a, m + o, "x" + m + a + "y", m + " " + a, m + a + m + o, "{" + m + a + "}", "2{" + m + a + "}3", "(" + m + a + ")", `\sqrt{` + m + a + "}",
			`\sqrt[` + m + a + "]{" + m + a + "}", `\frac{` + m + o + `}{` + m + a + "}", `\binom{` + m + a + `}{x}`, `\overline{` + m + a + "}", `\exp{` + m + a + "}",
			`\frac{x` + m + a + `y}{` + m + "{2}{3}}", m + "{x}", m + "{x}{y}", m + "[x]{y}", m + "{}", m + "{}{}",
		} {
			emit("$" + s + "$")
			if thorough {
				emit(s)
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C09",
		rule:      "every formula with a bounded number of supported constructs, in and out of math; every token pair under every stack of open constructs; every macro in every surrounding; long and deep formulas. The glyphs drawn by the real typesetter with a recording font, in order, and the number of rules, are compared with the reference typesetter",
		stateRule: mtexStates,
		gen: func(g *Gen) {
			g.Phase("derivations")
			mgrammar(mleaves).emit(pick(g, 3, 4), func(s string) {
				g.Emit(on(0, "$"+s+"$"))
			})
			mgrammar(mleaves).emit(pick(g, 2, 3), func(s string) {
				g.Emit(on(1, s))
				g.Emit(on(2, "u$"+s+"$ v$"+s+"$"))
			})
			g.Phase("repetitions")
			repeated().emit(pick(g, 2, 3), func(s string) { g.Emit(on(1, "$"+s+"$")) })
			g.Phase("tour-1")
			toks := []string{"ab", "12", "1.5", "+", "-", "<", `\pi`, `\leq `, ".", `\sin `, `\quad `, "(", ")", "é", " ", "%c\n", "{}", `\ `, "{x}", `\frac12`, "$", "=", `\exp{q}`, `\hspace{2}`}
			contexts(pick(g, 3, 4), mframes, func(pre, post string, _ []string) {
				for _, t := range toks {
					g.Emit(on(0, "a"+pre+"b"+t+"c"+post+"d"))
				}
			})
			g.Phase("tour-2")
			contexts(pick(g, 2, 3), mframes, func(pre, post string, _ []string) {
				for _, t := range toks {
					for _, u := range toks {
						g.Emit(on(0, pre+t+u+post))
					}
				}
			})
			g.Phase("every-macro")
			everyMacro(g.thorough, func(s string) { g.Emit(on(0, s)) })
			g.Phase("scale")
			mscale(pick(g, 60, 200), func(s string) { g.Emit(on(0, s)) })
			g.Phase("many-different")
			mchains(supported(plainSymbols()), func(s string) { g.Emit(on(0, s)) })
			manyDifferent(supportedMacros(), func(s string) { g.Emit(on(1, s)) })
			g.Phase("nested-pairs")
			for _, p := range mframes[1:] {
				for _, q := range mframes[1:] {
					for _, n := range []int{3, 5, 20} {
						g.Emit(on(0, "$"+strings.Repeat(p.open+q.open, n)+"x"+strings.Repeat(q.close+p.close, n)+"$"))
						g.Emit(on(0, "$"+strings.Repeat("a"+p.open+"b"+q.open, n)+"x"+strings.Repeat(q.close+"c"+p.close+"d", n)+"$"))
					}
				}
			}
			g.Phase("large")
			mlarge(pick(g, 8193, 70001), pick(g, 513, 1025), func(s string) { g.Emit(prefixed("0|", s)) })
		},
		run: func(w *Worker, cs string) { mtexRun(w, cs, mGlyphs) },
	})

	register(&Check{
		id:        "C10",
		rule:      "every nesting of a bounded number of fractions, binomials, roots and overlines over leaves of different sizes, at several font sizes and resolutions; places and sizes of every glyph and rule drawn by the real typesetter with a recording font are compared with the reference layout",
		stateRule: mtexStates,
		gen: func(g *Gen) {
			g.Phase("nests")
			gr := mgrammar([]string{"x", "M", `\pi`, "pqr"})
			gr.emit(pick(g, 3, 4), func(s string) {
				for i := range mconfs {
					if i < 2 || len(s) < 40 || g.thorough {
						g.Emit(on(i, "$"+s+"$"))
					}
				}
			})
			g.Phase("repetitions")
			repeated().emit(pick(g, 2, 3), func(s string) {
				for i := range mconfs {
					g.Emit(on(i, "$"+s+"$"))
				}
			})
			g.Phase("nests-in-text")
			gr.emit(pick(g, 2, 3), func(s string) {
				for i := range mconfs {
					g.Emit(on(i, s))
					g.Emit(on(i, "a$"+s+"$b"))
				}
			})
			g.Phase("stacks")
			contexts(pick(g, 4, 5), mframes[1:], func(pre, post string, st []string) {
				g.Emit(on(0, "$"+pre+"x"+post+"$"))
				if len(st) < 4 || g.thorough {
					g.Emit(on(3, "$y"+pre+"+p"+post+"q$"))
					g.Emit(on(4, "$y"+pre+post+"q$"))
				}
			})
			g.Phase("every-letter") // bodies of every height and depth
			for r := rune('!'); r < 0x250; r++ {
				for _, f := range mframes[1:] {
					for _, q := range mframes[1:] {
						g.Emit(on(int(r)%len(mconfs), "$"+f.open+string(r)+q.open+string(r)+q.close+f.close+"$"))
					}
				}
			}
			g.Phase("scale")
			mscale(pick(g, 40, 120), func(s string) { g.Emit(on(len(s)%len(mconfs), s)) })
			g.Phase("large")
			mlarge(pick(g, 2049, 32769), pick(g, 513, 1025), func(s string) { g.Emit(prefixed(on(len(s)%len(mconfs), ""), s)) })
			g.Phase("every-size")
			everySize(func(size, dpi float64, e string) { g.Emit(fmt.Sprintf("=%v@%v|%s", size, dpi, e)) })
		},
		run: func(w *Worker, cs string) { mtexRun(w, cs, mPlaces) },
	})

	register(&Check{
		id:        "C11",
		rule:      "every pair of symbols of all kinds, every short sequence of one symbol per kind, with every kind of blank or delimiter between them and in every construct; every explicit space; horizontal places of all glyphs and the total width are compared with the reference layout",
		stateRule: mtexStates,
		gen: func(g *Gen) {
			one := []string{"x", "12", "1.5", "+", "-", "*", "<", "=", ":", "(", ")", ".", "1", "{", "}", "{}", " ", "\n", "\t ", "%c\n", `\pm `, `\leq `, `\to `, `\rightarrow `, `\{`, `\}`, `\langle `, `\pi `, `\sin `, `\, `, `\quad `, `\! `, `\ `, `\hspace{2}`, `\hspace{.5}`, `\sqrt{`, `\frac{`, `\sqrt[`, "]", "é", "$"}
			g.Phase("kinds-3")
			words(g, one, 3, "0|$", "$")
			words(g, one, 2, "1|", "")
			small := []string{"x", "1", "+", "<", "(", ".", " ", `\pm `, "{", "}", `\quad `, "\n", `\to`, "-"}
			g.Phase("kinds-deep")
			words(g, small, pick(g, 4, 6), "2|$", "$")
			g.Phase("in-constructs")
			contexts(pick(g, 2, 3), mframes, func(pre, post string, _ []string) {
				for _, t := range one {
					for _, u := range small {
						g.Emit(on(0, pre+t+u+"y"+post))
					}
				}
			})
			g.Phase("between-operators")
			contexts(pick(g, 3, 4), followed(), func(pre, post string, st []string) {
				g.Emit(on(0, pre+"x"+post))
				g.Emit(on(0, pre+post+"\n+"+pre+"(-"+post))
			})
			g.Phase("repetitions")
			repeated().emit(pick(g, 2, 3), func(s string) { g.Emit(on(1, "$"+s+"$")) })
			g.Phase("all-pairs")
			all := plainSymbols()
			mchains(supported(all), func(s string) { g.Emit(on(0, s)) })
			for i, a := range all {
				for _, b := range []string{"x", "+", "1", ".", "(", `\leq`, "<"} {
					g.Emit(on(0, "$"+a+" "+b+"$"))
					g.Emit(on(0, "$"+b+" "+a+"$"))
					g.Emit(on(0, "$"+b+" {"+a+"}"+b+"$"))
					g.Emit(on(0, "$"+b+"{ \n\t"+a+" x}$"))
					g.Emit(on(0, a+" "+b))
				}
				n := 7
				if g.thorough {
					n = 1
				}
				for j := i % n; j < len(all); j += n {
					g.Emit(on(0, "$"+a+" "+all[j]+"$"))
				}
			}
			g.Phase("explicit-spaces")
			for _, m := range sortedKeys(refSpaces) {
				for c := range mconfs {
					g.Emit(on(c, "$x"+m+" y"+m+" $"))
					g.Emit(on(c, "x"+m+" y"+m+" "))
					g.Emit(on(c, `$\frac{x`+m+` y}{z}$`))
					g.Emit(on(c, `$\sqrt[`+m+` y]{z}$`))
				}
			}
			for _, v := range []string{"0", "1", "2", "0.5", ".5", "1.25", "10", "007", "3.", "0.16667", "100", "12.75", "1e1", "1.5.2", "-1", "a", "", "1a", "1 ", " 1", "{1}", "1 2"} {
				for c := range mconfs {
					g.Emit(on(c, `$x\hspace{`+v+`}y$`))
					g.Emit(on(c, `x\hspace{`+v+`}y`))
					g.Emit(on(c, `$\frac{x\hspace {`+v+`}y}{\exp{\hspace{`+v+`}}}$`))
				}
			}
			g.Phase("decimal-points")
			words(g, []string{"1", "2", ".", "x", " ", "\n", "{", "}", "%c\n"}, pick(g, 5, 6), "0|$", "$")
			words(g, []string{"1", ".", "x", " ", "$"}, pick(g, 5, 6), "0|", "")
			g.Phase("scale")
			mscale(pick(g, 60, 200), func(s string) { g.Emit(on(0, s)) })
			g.Phase("large")
			mlarge(pick(g, 8193, 70001), pick(g, 513, 1025), func(s string) { g.Emit(prefixed("0|", s)) })
		},
		run: func(w *Worker, cs string) { mtexRun(w, cs, mWidths) },
	})
}

// stubRenderer records what mtex.Render hands over.
type stubRenderer struct {
	calls     int
	w, h, dpi float64
	canvas    *drawtex.Canvas
	err       error
}

func (s *stubRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	s.calls++
	s.w, s.h, s.dpi, s.canvas = w, h, dpi, c
	return s.err
}

// fontSets are the collections formulas are rendered with.
var fontSets = []func() *ttf.Fonts{
	func() *ttf.Fonts { return nil },
	liberation.Fonts,
	lm.Fonts,
	func() *ttf.Fonts { // a caller's own collection
		a, b := liberation.Fonts(), lm.Fonts()
		return &ttf.Fonts{Default: b.Bf, Rm: a.Bf, It: b.It, Bf: a.Rm, BfIt: a.BfIt}
	},
}

func fine(xs ...float64) bool {
	for _, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

// renderCase renders an expression with real fonts into a recording device.
func renderCase(w *Worker, expr string, c mconf, dpi float64, fonts *ttf.Fonts) (*stubRenderer, error, bool) {
	dst := &stubRenderer{}
	var err error
	if p := try(func() { err = mtex.Render(dst, expr, c.size, dpi, fonts) }); p != "" {
		w.Fail("mtex.Render: %s", p)
		return dst, nil, false
	}
	switch {
	case err != nil && dst.calls != 0:
		w.Fail("the output device was invoked although the expression is an error: %v", err)
		return dst, err, false
	case err == nil && dst.calls != 1:
		w.Fail("the output device was invoked %d times", dst.calls)
		return dst, err, false
	case err == nil && dst.canvas == nil:
		w.Fail("the output device got no canvas")
		return dst, err, false
	}
	return dst, err, true
}

var oddSizes = []mconf{{0, 72}, {1e-9, 72}, {0.5, 72}, {400, 20}, {-12, 72}, {12, 0}, {12, 600}, {12, -72}}

func totalRun(w *Worker, cs string) {
	odd := cs[0] == 'o'
	if odd {
		cs = cs[1:]
	}
	var c mconf
	var expr string
	if odd {
		c, expr = oddSizes[cs[0]-'0'], cs[2:]
	} else {
		c, expr = splitCase(cs)
	}
	_, v, why := refTypeset(expr, c.size, c.dpi, plainSynth)
	r := mtexParse(expr, c)
	w.mtexState(expr, v, why, len(r.ops))
	if r.bad != "" {
		w.Fail("%s", r.bad)
		return
	}
	switch {
	case v == valid && r.err != nil:
		w.Fail("a supported expression is not typeset: %v", r.err)
		return
	case v == invalid && r.err == nil:
		w.Fail("the expression is typeset although it is malformed or not supported (%s)", why)
		return
	case r.err == nil && !fine(r.w, r.h, r.d):
		w.Fail("the box measures %g x %g + %g", r.w, r.h, r.d)
		return
	}
	dst, err, ok := renderCase(w, expr, c, c.dpi, fontSets[len(expr)%len(fontSets)]())
	if !ok {
		return
	}
	w.Trans(1)
	switch {
	case v == valid && err != nil:
		w.Fail("a supported expression is not rendered: %v", err)
	case v == invalid && err == nil:
		w.Fail("the expression is rendered although it is malformed or not supported (%s)", why)
	case err == nil && !fine(dst.w, dst.h):
		w.Fail("the page measures %g x %g", dst.w, dst.h)
	}
	if !odd || err != nil {
		return
	}
	img := drawimg.NewRenderer(io.Discard)
	if p := try(func() { _ = mtex.Render(img, expr, c.size, c.dpi, fontSets[len(expr)%len(fontSets)]()) }); p != "" {
		w.Fail("rendering an image: %s", p)
	}
}

func canvasOps(c *drawtex.Canvas) (ops []drawOp, glyphs []drawtex.GlyphOp, bad string) {
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			glyphs = append(glyphs, op)
			ops = append(ops, drawOp{x: op.X, y: op.Y, sym: op.Glyph.Symbol})
			ops[len(ops)-1].ft.Size = op.Glyph.Size
		case drawtex.RectOp:
			ops = append(ops, drawOp{rect: true, x: op.X1, y: op.Y1, x2: op.X2, y2: op.Y2})
		default:
			return nil, nil, fmt.Sprintf("operation %T on the canvas", op)
		}
	}
	return ops, glyphs, ""
}

// charOf is the character of a symbol.
func charOf(sym string, math bool) rune {
	if math && sym == "-" {
		return 0x2212
	}
	if utf8.RuneCountInString(sym) == 1 {
		r, _ := utf8.DecodeRuneInString(sym)
		return r
	}
	return symRune[strings.TrimPrefix(sym, `\`)]
}

var goNames = map[string]bool{"GoRegular": true, "Go-Regular": true, "GoItalic": true, "Go-Italic": true, "GoBold": true, "Go-Bold": true, "GoBoldItalic": true, "Go-BoldItalic": true}

type pageConf struct {
	size, dpi float64
	fonts     int
}

var pageConfs = func() []pageConf {
	var out []pageConf
	for _, size := range []float64{12, 10, 5, 24, 100.5, 0.25, 11.1, 7.37} {
		for i, dpi := range []float64{72, 300, 96.43, 1} {
			for f := range fontSets {
				if i > 1 && f > 1 {
					continue
				}
				out = append(out, pageConf{size, dpi, f})
			}
		}
	}
	return out
}()

func onPage(i int, s string) string { return string(rune(0x4e00+i)) + s }

func splitPage(cs string) (c pageConf, expr string) {
	if cs[0] == '=' { // =size@dpi@fonts|expr
		i := strings.IndexByte(cs, '|')
		_, err := fmt.Sscanf(cs[:i], "=%g@%g@%d", &c.size, &c.dpi, &c.fonts)
		chk(err)
		return c, cs[i+1:]
	}
	r0, n := utf8.DecodeRuneInString(cs)
	return pageConfs[r0-0x4e00], cs[n:]
}

func pageRun(w *Worker, cs string) {
	c, expr := splitPage(cs)
	fonts := fontSets[c.fonts]()
	use := fonts
	if use == nil {
		use = goFonts()
	}
	root, v, why := refTypeset(expr, c.size, 72, ttf.NewFrom(drawtex.New(), use))
	if v != valid {
		w.mtexState(expr, v, why, 0)
		return
	}
	dst, err, ok := renderCase(w, expr, mconf{c.size, 0}, c.dpi, fonts)
	if !ok {
		return
	}
	if err != nil {
		w.Fail("a supported expression is not rendered: %v", err)
		return
	}
	if dst.dpi != c.dpi {
		w.Fail("the device is told %g dpi instead of %g", dst.dpi, c.dpi)
		return
	}
	if !near(dst.w*72, root.w) {
		w.Fail("the page is %.9g points wide, the formula %.9g", dst.w*72, root.w)
		return
	}
	h := root.h + math.Max(root.d, 0)
	// sums of extents may be off a whole number by rounding, single ones not
	exact := h == 0 || !strings.ContainsAny(expr, `\\{^_`)
	if up := math.Ceil(h); !near(dst.h*72, up) && (exact || !(math.Abs(h-math.Round(h)) < 1e-6 && math.Abs(dst.h*72-h) < 1.001)) {
		w.Fail("the page is %.9g points high, the formula %.9g", dst.h*72, h)
		return
	}
	got, glyphs, bad := canvasOps(dst.canvas)
	if bad != "" {
		w.Fail("%s", bad)
		return
	}
	w.mtexState(expr, v, why, len(got))
	ship := refShip(root, 0, 0, true, false)
	want := append([]drawOp{}, ship.ops...)
	for i := range want {
		o := &want[i]
		if !o.rect {
			o.sym = string(charOf(o.sym, o.ft.Type == "it" || len(o.sym) > 1 && o.sym[0] == '\\'))
		}
		o.dpi, o.ft.Name, o.ft.Type = 0, "", ""
	}
	gg, gr := splitOps(got)
	wg, wr := splitOps(want)
	if ship.near {
		w.Count("rounding-undetermined")
		for _, l := range [][]drawOp{gg, wg, gr, wr} {
			for i := range l {
				l[i].x, l[i].y, l[i].x2, l[i].y2 = 0, 0, 0, 0
			}
		}
	}
	if !sameOps(gg, wg) || !sameOps(gr, wr) {
		w.Fail("on the canvas:\n  %s\nwant:\n  %s", showOps(got), showOps(want))
		return
	}
	for _, op := range glyphs {
		f := op.Glyph.Font
		if f == nil {
			w.Fail("glyph %q has no font", op.Glyph.Symbol)
			return
		}
		if fonts == nil {
			if !goNames[op.Glyph.Postscript] {
				w.Fail("without fonts given, glyph %q is of %s", op.Glyph.Symbol, op.Glyph.Postscript)
				return
			}
		} else if f != fonts.Default && f != fonts.Rm && f != fonts.It && f != fonts.Bf && f != fonts.BfIt {
			w.Fail("glyph %q is of %s, which is not one of the fonts given", op.Glyph.Symbol, op.Glyph.Postscript)
			return
		}
	}
}

var symSets = map[string]symbols.Set{
	"AmbiDelim": symbols.AmbiDelim, "ArrowSymbols": symbols.ArrowSymbols, "BinaryOperators": symbols.BinaryOperators,
	"DropSubSymbols": symbols.DropSubSymbols, "FontNames": symbols.FontNames, "FunctionNames": symbols.FunctionNames,
	"LeftDelim": symbols.LeftDelim, "OverUnderFunctions": symbols.OverUnderFunctions, "OverUnderSymbols": symbols.OverUnderSymbols,
	"PunctuationSymbols": symbols.PunctuationSymbols, "RelationSymbols": symbols.RelationSymbols, "RightDelim": symbols.RightDelim,
}

const drawsError = "<error>"

// drawnChars renders an expression and returns the characters on the canvas,
// after checking that each glyph is the one of its character in its font.
func drawnChars(w *Worker, expr string, size float64, fonts *ttf.Fonts) (string, bool) {
	dst, err, ok := renderCase(w, expr, mconf{size, 0}, 72, fonts)
	w.Trans(1)
	if !ok {
		return "", false
	}
	if err != nil {
		return drawsError, true
	}
	_, glyphs, bad := canvasOps(dst.canvas)
	if bad != "" {
		w.Fail("%s", bad)
		return "", false
	}
	out := ""
	var buf sfnt.Buffer
	for _, g := range glyphs {
		rs := []rune(g.Glyph.Symbol)
		if len(rs) != 1 || g.Glyph.Font == nil {
			w.Fail("%s draws the glyph %q", expr, g.Glyph.Symbol)
			return "", false
		}
		idx, err := g.Glyph.Font.GlyphIndex(&buf, rs[0])
		if err != nil || idx != g.Glyph.Num {
			w.Fail("%s draws glyph %d for %q, the font has glyph %d (%v)", expr, g.Glyph.Num, g.Glyph.Symbol, idx, err)
			return "", false
		}
		out += g.Glyph.Symbol
	}
	return out, true
}

// symbolCase checks one expression with the characters it must draw ("" with
// fail set for an error).
func (w *Worker) draws(expr, want string, fail bool) bool {
	for i := range fontSets {
		if w.cs[0] == 'c' && len(w.cs) > 3 && i != int(w.cs[len(w.cs)-1])%len(fontSets) {
			continue // one collection for each character that few fonts have
		}
		for _, size := range []float64{12, 7} {
			if size == 7 && i > 0 {
				continue
			}
			got, ok := drawnChars(w, expr, size, fontSets[i]())
			if !ok {
				return false
			}
			if got != want {
				key := ""
				if !fail && strings.ReplaceAll(got, "\u2212", "-") == strings.ReplaceAll(want, "\u2212", "-") && !strings.Contains(expr, "$") {
					key = "shrunk-text-hyphen"
				}
				w.FailKey(key, "%s draws %+q (font set %d), want %+q", expr, got, i, want)
				return key != ""
			}
		}
	}
	return true
}

func symbolRun(w *Worker, cs string) {
	kind, arg := cs[0], cs[1:]
	switch kind {
	case 'n': // the name of a symbol
		r, named := symRune[arg]
		m := `\` + arg
		w.State("name", arg)
		if tex2unicode.HasSymbol(arg) != named {
			w.Fail("the fonts know the symbol %s: %v, want %v", m, !named, named)
			return
		}
		if args, known := macroArgs[m]; known && arg != "__sqrt__" {
			_, err := latex.ParseExpr("$" + m + strings.ReplaceAll(strings.ReplaceAll(args, "O", ""), "A", "{x}") + "$")
			if err != nil {
				w.Fail("the parser rejects %s: %v", m, err)
				return
			}
			if args != "" || classSets["FunctionNames"][arg] {
				return // not a symbol
			}
		} else if named && arg != "__sqrt__" {
			w.Fail("the table of macros lacks %s", m)
			return
		}
		if named {
			got := rune(-1)
			if p := try(func() { got = tex2unicode.Index(m, true) }); p != "" || got != r {
				w.Fail("%s denotes %U in the fonts (%s), want %U", m, got, p, r)
				return
			}
		}
		if arg == "__sqrt__" {
			return // the name the typesetter uses for the radical sign
		}
		want := ""
		fail := !named || classSets["PunctuationSymbols"][m]
		if _, space := refSpaces[m]; space {
			fail = false
		} else if !fail {
			want = string(r)
		}
		for _, e := range []string{"$%s$", "%s", "$a%s b$", "a %s ", `$\sqrt{%s}$`, `$\frac{%s}{%s }$`, "$({%s})$", `\overline{%s}`, `$\exp{%s}$`, `$\binom{%s}{1}$`, "$1%s-%s $"} {
			expr := strings.ReplaceAll(e, "%s", m)
			frame := strings.ReplaceAll(strings.ReplaceAll(e, "%s", "\x01"), "-", "\u2212")
			if fail {
				for i := range fontSets {
					if got, ok := drawnChars(w, expr, 12, fontSets[i]()); !ok || got != drawsError {
						w.Fail("%s draws %+q although %s has no character", expr, got, m)
						return
					}
				}
				continue
			}
			if strings.Contains(e, "$") { // blanks are drawn in text only
				frame = strings.ReplaceAll(frame, " ", "")
			}
			frame = strings.NewReplacer("$", "", "\\sqrt", "\u221a", "\\frac", "", "\\binom", "", "\\overline", "", "\\exp", "exp", "{", "", "}", "").Replace(frame)
			if strings.Contains(e, "binom") {
				frame = "(" + frame + ")"
			}
			if !w.draws(expr, strings.ReplaceAll(frame, "\x01", want), false) {
				return
			}
		}
	case 'a': // names separated by blanks
		names := strings.Fields(arg)
		want := ""
		for _, n := range names {
			want += string(symRune[n])
		}
		i := len(names[0]) % len(fontSets)
		got, ok := drawnChars(w, `$\`+strings.Join(names, ` \`)+"$", 12, fontSets[i]())
		if ok && got != want {
			w.Fail("draws %+q (font set %d), want %+q", got, i, want)
		}
	case 'c': // a character
		r, _ := utf8.DecodeRuneInString(arg)
		for _, e := range []string{"%s", "$%s$", "$a%s b$", "a%s b", `$\frac{%s}{1}$`, `\frac{%s}{1}`, `$\exp{%s}$`} {
			expr := strings.ReplaceAll(e, "%s", arg)
			root, v, why := refTypeset(expr, 12, 72, plainSynth)
			w.State(e, v.String(), why)
			if v == unspec {
				continue
			}
			if v == invalid {
				i := int(arg[len(arg)-1]) % len(fontSets)
				if got, ok := drawnChars(w, expr, 12, fontSets[i]()); !ok || got != drawsError {
					w.Fail("%s draws %+q although it is an error (%s)", expr, got, why)
					return
				}
				continue
			}
			want := ""
			for _, o := range refShip(root, 0, 0, true, false).ops {
				if !o.rect {
					want += string(charOf(o.sym, strings.Contains(e, "$")))
				}
			}
			if r == ' ' || r < 0x20 {
				continue // layout
			}
			if !w.draws(expr, want, false) {
				return
			}
		}
	case 'u': // no symbol has this name
		p := try(func() { tex2unicode.Index(`\`+arg, true) })
		if p == "" || tex2unicode.HasSymbol(arg) {
			w.Fail(`\%s denotes a character`, arg)
		}
		w.State("unknown", fmt.Sprint(len(arg)))
	case 's': // a class of symbols
		have, want := symSets[arg], symClass[arg]
		if len(have) != len(want) {
			w.Fail("%s has %d symbols, want %d", arg, len(have), len(want))
			return
		}
		if keys := have.Keys(); len(keys) != len(want) || !sort.StringsAreSorted(keys) {
			w.Fail("%s lists %d symbols, want %d", arg, len(keys), len(want))
		}
		for _, s := range want {
			w.Trans(1)
			w.State(arg, s)
			if !have.Has(s) {
				w.Fail("%s is not one of %s", s, arg)
			}
			if symbols.IsSpaced(s) != spaced(s) {
				w.Fail("%s is spaced: %v", s, symbols.IsSpaced(s))
			}
		}
	case 't': // the complete list of names
		var got []string
		for _, n := range tex2unicode.Symbols() {
			got = append(got, n)
			w.Trans(1)
			if _, ok := symRune[n]; !ok {
				w.Fail("the fonts know a symbol %q that TeX does not have here", n)
			}
		}
		if len(got) != len(symRune) {
			w.Fail("the fonts list %d names, want %d", len(got), len(symRune))
		}
	}
}

func init() {
	register(&Check{
		id:        "C08",
		rule:      "every token string, tour over stacks of open constructs, macro in every surrounding, code point and formula at odd sizes, typeset with a recording font, rendered with three font sets into a recording device, and at odd sizes into an image; the outcome is compared with the reference typesetter's verdict",
		stateRule: mtexStates,
		gen: func(g *Gen) {
			g.Phase("token-strings")
			toks := []string{"a", "$", "{", "}", `\sqrt`, "[", "]", "^", "1", " ", `\frac`, "+", `\alpha`, ".", "%c\n", "(", `\ `, `\exp`, `\unk`, "é", "-", "/", `\rm`, `\hspace`, `\mathbf`, `\overline`, `\binom`, "'", `\Alpha`, ","}
			words(g, toks, pick(g, 3, 4), "0|", "")
			words(g, toks, pick(g, 3, 4), "1|$", "$")
			g.Phase("tour")
			contexts(pick(g, 2, 3), append(mframes[:len(mframes):len(mframes)], frame{name: "sup", open: "^{", close: "}"}, frame{name: "text", open: `\textbf{`, close: "}"}), func(pre, post string, _ []string) {
				for _, t := range toks {
					g.Emit(on(0, pre+t+post))
					g.Emit(on(2, "a"+pre+"b"+t+"c"+post+"d"))
				}
			})
			g.Phase("every-macro")
			everyMacro(true, func(s string) { g.Emit(on(0, s)) })
			for _, m := range sortedKeys(macroArgs) {
				for i := 1; i <= len(m); i++ {
					g.Emit(on(0, "$"+m[:i]+"$"))
					g.Emit(on(0, m[:i]+"{x}{y}"))
				}
			}
			g.Phase("characters")
			for r := rune(0); r < pick(g, rune(0x3000), rune(0x20000)); r++ {
				g.Emit(on(0, string(r)))
				g.Emit(on(0, "$a"+string(r)+"b$"))
			}
			for a := 0; a < 256; a++ {
				g.Emit(on(0, string([]byte{byte(a)})))
				g.Emit(on(0, "$x"+string([]byte{byte(a)})))
				for b := 0; b < 256; b += pick(g, 5, 1) {
					g.Emit(on(0, "$"+string([]byte{byte(a), byte(b)})+"$"))
				}
			}
			g.Phase("derivations")
			mgrammar(mleaves).emit(pick(g, 2, 3), func(s string) {
				for c := range mconfs {
					g.Emit(on(c, "$"+s+"$"))
					g.Emit(on(c, s))
				}
			})
			g.Phase("odd-sizes")
			mgrammar([]string{"x", "+", `\!`, `\pi`}).emit(2, func(s string) {
				for c := range oddSizes {
					g.Emit("o" + on(c, "$"+s+"$"))
				}
			})
			for _, m := range sortedKeys(macroArgs) {
				a := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{1}"), "O", "[y]")
				for c := range oddSizes {
					g.Emit("o" + on(c, "$"+m+a+"$"))
				}
			}
			g.Phase("scale")
			mscale(pick(g, 40, 150), func(s string) { g.Emit(on(0, s)) })
			g.Phase("large")
			mlarge(pick(g, 8193, 70001), pick(g, 513, 1025), func(s string) { g.Emit(prefixed("0|", s)) })
		},
		run: totalRun,
	})

	register(&Check{
		id:        "C12",
		rule:      "every formula with a bounded number of constructs, and long ones, at every combination of font size, resolution and font collection, rendered by mtex.Render into a recording device; page size, resolution, places, sizes and fonts are compared with the reference layout made with the same fonts at 72 dpi",
		stateRule: mtexStates,
		gen: func(g *Gen) {
			g.Phase("derivations")
			gr := mgrammar([]string{"x", "+", `\sum`, "pq", "1.5", `\!`, `\log`})
			gr.emit(pick(g, 2, 3), func(s string) {
				for i := range pageConfs {
					g.Emit(onPage(i, "$"+s+"$"))
				}
			})
			gr.emit(3, func(s string) {
				g.Emit(onPage(len(s)%len(pageConfs), "u$"+s+"$"))
				g.Emit(onPage((len(s)*7+3)%len(pageConfs), s))
			})
			g.Phase("every-macro")
			for _, m := range sortedKeys(macroArgs) {
				a := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{1}"), "O", "[y]")
				for i := range pageConfs {
					g.Emit(onPage(i, "$"+m+a+"$"))
				}
			}
			g.Phase("blank") // pages without height
			for _, e := range []string{"", "$$", "$$$$", "{}", "${}$", "$ $", `$\,$`, `$\!$`, `$\quad$`, `$\,\quad$`, `$\ $`, "${{}}$", `$\hspace{1}$`, `$\hspace{-1}\,$`, "${}^{}$", `$\rm{}$`} {
				for i := range pageConfs {
					g.Emit(onPage(i, e))
				}
			}
			g.Phase("every-character") // pages of every height and depth
			for r := rune('!'); r < 0x600; r++ {
				for i := range pageConfs {
					g.Emit(onPage(i, "$"+string(r)+"$"))
				}
				for i := 0; i < 4; i++ {
					g.Emit(onPage((int(r)+7*i)%len(pageConfs), string(r)+"$"+string(r)+"x"+string(r)+"$"))
				}
			}
			g.Phase("scale")
			mscale(pick(g, 40, 150), func(s string) { g.Emit(onPage(len(s)%len(pageConfs), s)) })
			g.Phase("large")
			mlarge(pick(g, 2049, 8193), pick(g, 257, 1025), func(s string) { g.Emit(prefixed(onPage(len(s)%len(pageConfs), ""), s)) })
			g.Phase("every-size")
			n := 0
			everySize(func(size, dpi float64, e string) {
				n++
				for f := range fontSets {
					if dpi == 72 || n%len(fontSets) == f || g.thorough {
						g.Emit(fmt.Sprintf("=%v@%v@%d|%s", size, dpi, f, e))
					}
				}
			})
		},
		run: pageRun,
	})

	register(&Check{
		id:        "C13",
		rule:      "every symbol name, in and out of math, in every kind of construct, with every font collection: characters and glyphs on the canvas are compared with the frozen table of names; every code point likewise; every short name that is no symbol; every class of symbols",
		stateRule: "state: distinct (name) or (surrounding, verdict, reason); transition: rendering by the real code",
		gen: func(g *Gen) {
			g.Phase("names")
			names := map[string]bool{}
			for n := range symRune {
				names[n] = true
			}
			for m := range macroArgs {
				names[m[1:]] = true
			}
			for _, n := range sortedKeys(names) {
				g.Emit("n" + n)
			}
			g.Phase("many-names")
			var syms []string
			for _, n := range sortedKeys(symRune) {
				_, space := refSpaces[`\`+n]
				if a, ok := macroArgs[`\`+n]; ok && a == "" && !space && n != "__sqrt__" && !classSets["FunctionNames"][n] && !classSets["PunctuationSymbols"][`\`+n] {
					syms = append(syms, n)
				}
			}
			for _, n := range syms {
				g.Emit("a" + chain(n, syms, " "))
			}
			g.Phase("no-names")
			letters := strings.Split("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "")
			seqs(letters, pick(g, 3, 4), func(s string) {
				if _, ok := symRune[s]; !ok && len(s) > 1 {
					g.Emit("u" + s)
				}
			})
			for n := range symRune {
				for _, l := range letters {
					for _, x := range []string{n + l, l + n} {
						if _, ok := symRune[x]; !ok && len(x) > 1 {
							g.Emit("u" + x)
						}
					}
				}
			}
			g.Phase("characters")
			for r := rune(0); r <= utf8.MaxRune; r++ {
				if !g.thorough && r > 0x2c00 && r%61 != 0 && (r < 0x1D400 || r > 0x1D7FF) {
					continue
				}
				if r < 0xD800 || r > 0xDFFF {
					g.Emit("c" + string(r))
				}
			}
			g.Phase("classes")
			for c := range symClass {
				g.Emit("s" + c)
			}
			g.Emit("t")
		},
		run: symbolRun,
	})
}

func goFonts() *ttf.Fonts {
	goOnce.Do(func() {
		p := func(raw []byte) *sfnt.Font {
			f, err := sfnt.Parse(raw)
			chk(err)
			return f
		}
		goSet = &ttf.Fonts{Rm: p(goregular.TTF), It: p(goitalic.TTF), Bf: p(gobold.TTF), BfIt: p(gobolditalic.TTF)}
		goSet.Default = goSet.Rm
	})
	return goSet
}

var (
	goOnce sync.Once
	goSet  *ttf.Fonts
)
