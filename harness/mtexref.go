package main

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-latex/latex/font"
)

// The reference typesetter: it lays out the reference tree of an expression by
// the documented rules, with the synthetic font, in the reference box model.

type rlayout struct {
	src string
	dpi float64
	be  font.Backend
}

type rstate struct {
	ft   font.Font
	math bool
}

// unsupported is thrown for what must be an error; unsettled for what is not
// specified.
type unsupported struct{ why string }
type unsettled struct{ why string }

var classSets = func() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for c, l := range symClass {
		out[c] = map[string]bool{}
		for _, s := range l {
			out[c][s] = true
		}
	}
	return out
}()

func spaced(sym string) bool {
	return classSets["BinaryOperators"][sym] || classSets["RelationSymbols"][sym] || classSets["ArrowSymbols"][sym]
}

var refSpaces = map[string]float64{
	`\,`: 0.16667, `\thinspace`: 0.16667, `\/`: 0.16667, `\>`: 0.22222, `\:`: 0.22222, `\;`: 0.27778,
	`\ `: 0.33333, `\enspace`: 0.5, `\quad`: 1, `\qquad`: 2, `\!`: -0.16667,
}

// refTypeset returns the layout of an expression.
func refTypeset(src string, size, dpi float64, be font.Backend) (root *rbox, v verdict, why string) {
	p := &refParser{s: src}
	tree, v, why := p.run()
	if v != valid {
		return nil, v, why
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case unsupported:
			root, v, why = nil, invalid, e.why
		case unsettled:
			root, v, why = nil, unspec, e.why
		default:
			panic(e)
		}
	}()
	t := &rlayout{src: src, dpi: dpi, be: be}
	st := rstate{ft: font.Font{Name: "default", Type: "rm", Size: size}}
	return rHList(t.nodes(tree.kids, st), true), valid, ""
}

// hasGlyph tells whether the symbol names a character.
func hasGlyph(sym string) bool {
	if utf8.RuneCountInString(sym) == 1 {
		return true
	}
	_, ok := symRune[strings.TrimPrefix(sym, `\`)]
	return ok && sym[0] == '\\'
}

func (t *rlayout) char(sym string, st rstate, math bool) *rbox {
	if !hasGlyph(sym) {
		panic(unsupported{"no character for " + sym})
	}
	return rCharOn(t.be, sym, st.ft, t.dpi, math)
}

func (t *rlayout) em(st rstate) float64 {
	ft := st.ft
	ft.Type = "it"
	return t.be.Metrics("m", ft, t.dpi, true).Advance
}

func (t *rlayout) nodes(kids []*rnode, st rstate) []*rbox {
	var out []*rbox
	for _, k := range kids {
		out = append(out, t.node(k, st)...)
	}
	return out
}

func (t *rlayout) list(kids []*rnode, st rstate) *rbox { return rHList(t.nodes(kids, st), true) }

func (t *rlayout) node(n *rnode, st rstate) []*rbox {
	one := func(b *rbox) []*rbox { return []*rbox{b} }
	switch n.kind {
	case "word":
		var chars []*rbox
		for _, r := range n.text {
			chars = append(chars, t.char(string(r), st, st.math))
		}
		return one(rHList(chars, true))
	case "num":
		var out []*rbox
		for i := 0; i < len(n.text); i++ {
			out = append(out, t.symbol(n.text[i:i+1], n.pos+i, st, st.math))
		}
		return out
	case "sym":
		if !st.math {
			return one(t.char(n.text, st, false))
		}
		if strings.Contains("[]/?'", n.text) {
			panic(unsupported{"symbol " + n.text})
		}
		return one(t.symbol(n.text, n.pos, st, true))
	case "group":
		return t.nodes(n.kids, st)
	case "math":
		st.math = true
		st.ft.Type = "it"
		return t.nodes(n.kids, st)
	case "sup", "sub":
		panic(unsupported{"scripts"})
	case "macro":
		return one(t.macro(n, st))
	}
	panic("reference layout of " + n.kind)
}

func (t *rlayout) symbol(sym string, pos int, st rstate, math bool) *rbox {
	ch := t.char(sym, st, math)
	gap := 0.2 * t.em(st)
	if spaced(sym) {
		if classSets["BinaryOperators"][sym] {
			before := strings.TrimRightFunc(t.src[:pos], unicode.IsSpace)
			if strings.HasSuffix(before, "\n") || commentBefore(t.src, pos) {
				panic(unsettled{"comment before an operator"})
			}
			if before != "" && strings.Contains("{([<", before[len(before)-1:]) {
				return ch
			}
		}
		return rHList([]*rbox{rKern(gap), ch, rKern(gap)}, true)
	}
	switch sym {
	case ".":
		if pos > 0 && isDig(t.src[pos-1]) && pos+1 < len(t.src) && isDig(t.src[pos+1]) {
			return ch
		}
		return rHList([]*rbox{ch, rKern(gap)}, true)
	case ",", ";", "!", `\ldotp`, `\cdotp`:
		panic(unsupported{"punctuation " + sym})
	}
	return ch
}

// commentBefore tells whether a comment ends right before pos.
func commentBefore(src string, pos int) bool {
	before := strings.TrimRightFunc(src[:pos], unicode.IsSpace)
	nl := strings.LastIndexByte(before, '\n') + 1
	i := strings.IndexByte(before[nl:], '%')
	return i >= 0 && strings.IndexByte(src[len(before):pos], '\n') >= 0
}

func (t *rlayout) macro(n *rnode, st rstate) *rbox {
	name := n.text
	if w, ok := refSpaces[name]; ok {
		return rKern(w * t.em(st))
	}
	th := t.be.UnderlineThickness(st.ft, t.dpi)
	arg := func(i int) []*rnode { return n.kids[i].kids }
	switch name {
	case `\hspace`:
		a := arg(0)
		switch {
		case len(a) == 0 || a[0].kind != "num":
			panic(unsupported{"hspace without a number"})
		case len(a) > 1:
			panic(unsettled{"hspace with more than a number"})
		}
		f, err := strconv.ParseFloat(a[0].text, 64)
		if err != nil {
			panic(unsettled{"hspace with " + a[0].text})
		}
		return rKern(f * t.em(st))
	case `\frac`, `\tfrac`:
		return t.frac(t.list(arg(0), st), t.list(arg(1), st), th, true, st)
	case `\dfrac`:
		return t.frac(t.list(arg(0), st), t.list(arg(1), st), th, false, st)
	case `\binom`:
		b := t.frac(t.list(arg(0), st), t.list(arg(1), st), 0, true, st)
		h, d := b.h, b.d
		if h < 0 {
			h = 0
		}
		if d < 0 {
			d = 0
		}
		return rHList([]*rbox{rFitOn(t.be, "(", h, d, st.ft, t.dpi, 0), b, rFitOn(t.be, ")", h, d, st.ft, t.dpi, 0)}, true)
	case `\sqrt`:
		if len(n.kids) == 2 {
			return t.sqrt(t.list(arg(0), st), t.list(arg(1), st), st)
		}
		return t.sqrt(nil, t.list(arg(0), st), st)
	case `\overline`:
		body := t.list(arg(0), st)
		rhs := rVList([]*rbox{rHRule(th), rGlue("fill"), rHList([]*rbox{body}, true)})
		rhs.vpack(body.h+3*th+st.ft.Size*t.dpi/1200, false, body.d)
		return rHList([]*rbox{rhs}, true)
	}
	if fn := name[1:]; classSets["FunctionNames"][fn] {
		rm := st
		rm.ft.Type = "rm"
		var kids []*rbox
		for _, r := range fn {
			kids = append(kids, t.char(string(r), rm, st.math))
		}
		for _, a := range n.kids {
			kids = append(kids, t.list(a.kids, st))
		}
		return rHList(kids, true)
	}
	if macroArgs[name] != "" {
		panic(unsupported{"macro " + name})
	}
	return t.symbol(name, n.pos, st, true)
}

func rHRule(th float64) *rbox { return rRule(infinity, th/2, th/2) }

func (t *rlayout) frac(num, den *rbox, rule float64, text bool, st rstate) *rbox {
	th := t.be.UnderlineThickness(st.ft, t.dpi)
	if text {
		num.scale(false)
		den.scale(false)
	}
	w := num.w
	if den.w > w {
		w = den.w
	}
	cnum, cden := rHCentered([]*rbox{num}), rHCentered([]*rbox{den})
	cnum.hpack(w, false)
	cden.hpack(w, false)
	v := rVList([]*rbox{cnum, rBox(0, 0, 2*th), rHRule(rule), rBox(0, 0, 2*th), cden})
	eq := st.ft
	eq.Type = "it"
	m := t.be.Metrics("=", eq, t.dpi, true)
	v.shift = cden.h - ((m.YMax+m.YMin)/2 - 3*th)
	return rHList([]*rbox{v, rBox(2*th, 0, 0)}, true)
}

func (t *rlayout) sqrt(root, body *rbox, st rstate) *rbox {
	th := t.be.UnderlineThickness(st.ft, t.dpi)
	check := rFitOn(t.be, `\__sqrt__`, body.h+5*th, body.d, st.ft, t.dpi, 0)
	h, d := check.h-check.shift, check.d+check.shift
	padded := rHList([]*rbox{rBox(2*th, 0, 0), body, rBox(2*th, 0, 0)}, true)
	rhs := rVList([]*rbox{rHRule(th), rGlue("fill"), padded})
	rhs.vpack(h+st.ft.Size*t.dpi/1200, false, d)
	if root == nil {
		root = rBox(check.w/2, 0, 0)
	} else {
		root.scale(false)
		root.scale(false)
	}
	vl := rVList([]*rbox{rHList([]*rbox{root}, true)})
	vl.shift = -0.6 * h
	return rHList([]*rbox{vl, rKern(-check.w / 2), check, rhs}, true)
}
