package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/go-fonts/dejavu/dejavusans"
	"github.com/go-fonts/dejavu/dejavusansbold"
	"github.com/go-fonts/dejavu/dejavusansoblique"
	"github.com/go-fonts/latin-modern/lmroman10bold"
	"github.com/go-fonts/latin-modern/lmroman10bolditalic"
	"github.com/go-fonts/latin-modern/lmroman10italic"
	"github.com/go-fonts/latin-modern/lmroman10regular"
	"github.com/go-fonts/liberation/liberationserifbold"
	"github.com/go-fonts/liberation/liberationserifbolditalic"
	"github.com/go-fonts/liberation/liberationserifitalic"
	"github.com/go-fonts/liberation/liberationserifregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	stdfont "golang.org/x/image/font"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

// The values of the font files are read directly, at one pixel per font unit,
// where nothing is rounded.

var dejavuOnce sync.Once
var dejavuSet *ttf.Fonts

func dejavu() *ttf.Fonts {
	dejavuOnce.Do(func() {
		p := func(raw []byte) *sfnt.Font {
			f, err := sfnt.Parse(raw)
			chk(err)
			return f
		}
		dejavuSet = &ttf.Fonts{Rm: p(dejavusans.TTF), It: p(dejavusansoblique.TTF), Bf: p(dejavusansbold.TTF)}
		dejavuSet.Default, dejavuSet.BfIt = dejavuSet.Bf, dejavuSet.It
	})
	return dejavuSet
}

// renamed is a font file with another PostScript name, not longer than its own.
func renamed(raw []byte, name string) *sfnt.Font {
	raw = append([]byte(nil), raw...)
	u16 := func(i int) int { return int(raw[i])<<8 | int(raw[i+1]) }
	for t := 0; t < u16(4); t++ {
		rec := 12 + 16*t
		if string(raw[rec:rec+4]) != "name" {
			continue
		}
		tab := u16(rec+8)<<16 | u16(rec+10)
		for n := 0; n < u16(tab+2); n++ {
			r := tab + 6 + 12*n
			if u16(r+6) != 6 {
				continue
			}
			at := tab + u16(tab+4) + u16(r+10)
			size := 0
			for _, c := range []byte(name) {
				if u16(r) != 1 { // not Macintosh: two bytes per character.
					raw[at+size] = 0
					size++
				}
				raw[at+size] = c
				size++
			}
			if size > u16(r+8) {
				panic("the name is too long")
			}
			raw[r+8], raw[r+9] = byte(size>>8), byte(size)
		}
	}
	f, err := sfnt.Parse(raw)
	chk(err)
	var buf sfnt.Buffer
	if got, err := f.Name(&buf, sfnt.NameIDPostScript); err != nil || got != name {
		panic("the font is named " + got)
	}
	return f
}

// extension is the name of the font whose glyphs hang below the baseline, and
// are raised to be centred a third of the size above of it.
const extension = "Cmex10"

var extensionOnce sync.Once
var extensionSet *ttf.Fonts

func withExtension() *ttf.Fonts {
	extensionOnce.Do(func() {
		extensionSet = &ttf.Fonts{Rm: renamed(dejavusans.TTF, extension), It: dejavu().Bf, Bf: renamed(goregular.TTF, extension)}
		extensionSet.Default, extensionSet.BfIt = extensionSet.Rm, extensionSet.It
	})
	return extensionSet
}

var metricSets = []func() *ttf.Fonts{
	goFonts, liberation.Fonts, lm.Fonts, dejavu,
	func() *ttf.Fonts {
		return &ttf.Fonts{Default: dejavu().It, Rm: lm.Fonts().Rm, It: liberation.Fonts().Bf, Bf: goFonts().It, BfIt: goFonts().Rm}
	},
	withExtension,
}

type glyphRef struct {
	font                        *sfnt.Font
	r                           rune
	idx                         sfnt.GlyphIndex
	upem                        float64
	adv, xmin, xmax, ymin, ymax float64 // in font units
	slanted                     bool
	raised                      bool
}

// offset is how far a glyph is raised.
func (g glyphRef) offset(size float64) float64 {
	if !g.raised {
		return 0
	}
	return (g.ymax-g.ymin)*size/g.upem/2 + size/3
}

// fontOf returns the font a symbol is set in.
func fontOf(fs *ttf.Fonts, typ string, r rune) (*sfnt.Font, bool) {
	switch typ {
	case "it":
		if unicode.IsLetter(r) || r >= 0x10000 {
			return fs.It, true
		}
		return fs.Rm, false
	case "bf":
		return fs.Bf, false
	case "default":
		return fs.Default, false
	}
	return fs.Rm, false
}

var glyphCache sync.Map

type glyphKey struct {
	f *sfnt.Font
	r rune
}

func glyphOf(f *sfnt.Font, r rune) glyphRef {
	if g, ok := glyphCache.Load(glyphKey{f, r}); ok {
		return g.(glyphRef)
	}
	var buf sfnt.Buffer
	g := glyphRef{font: f, r: r, upem: float64(f.UnitsPerEm())}
	idx, err := f.GlyphIndex(&buf, r)
	chk(err)
	g.idx = idx
	name, err := f.Name(&buf, sfnt.NameIDPostScript)
	chk(err)
	g.raised = name == extension
	ppem := fixed.I(int(f.UnitsPerEm()))
	b, adv, err := f.GlyphBounds(&buf, idx, ppem, stdfont.HintingNone)
	chk(err)
	u := func(x fixed.Int26_6) float64 { return float64(x) / 64 }
	g.adv, g.xmin, g.xmax, g.ymin, g.ymax = u(adv), u(b.Min.X), u(b.Max.X), -u(b.Max.Y), -u(b.Min.Y)
	glyphCache.Store(glyphKey{f, r}, g)
	return g
}

func refKern(a, b glyphRef, size float64) float64 {
	if a.font != b.font {
		return 0
	}
	var buf sfnt.Buffer
	k, err := a.font.Kern(&buf, a.idx, b.idx, fixed.I(int(a.upem)), stdfont.HintingNone)
	if errors.Is(err, sfnt.ErrNotFound) {
		return 0
	}
	chk(err)
	return float64(k) / 64 / a.upem * size
}

// sameMetrics compares reported metrics with the font file.
func (w *Worker) sameMetrics(what string, m font.Metrics, g glyphRef, size float64, slanted bool) bool {
	// boxes are measured at 12 pixels, in 64ths of a pixel
	tol := math.Abs(size)/12/64*1.01 + 1e-9
	k := size / g.upem
	cl := func(name string, got, want, tol float64) bool {
		if math.Abs(got-want) <= tol {
			return true
		}
		w.Fail("%s: %s is %.9g, in the font %.9g", what, name, got, want)
		return false
	}
	if !near(m.Advance, g.adv*k) {
		key := ""
		if g.upem != 2048 && near(m.Advance, g.adv*size/2048) {
			key = "advance-upem"
		}
		w.FailKey(key, "%s: advance is %.9g, in the font %.9g", what, m.Advance, g.adv*k)
		if key == "" {
			return false
		}
	}
	if m.Slanted != slanted {
		w.Fail("%s: slanted is %v", what, m.Slanted)
		return false
	}
	if !near(m.Width, m.XMax-m.XMin) || !near(m.Height, m.YMax-m.YMin) || !near(m.Iceberg, m.YMax) {
		w.Fail("%s: the metrics do not agree with each other: %+v", what, m)
		return false
	}
	off, tol2 := g.offset(size), tol
	if g.raised {
		tol2 *= 2
	}
	return cl("xmin", m.XMin, g.xmin*k, tol) && cl("xmax", m.XMax, g.xmax*k, tol) && cl("ymin", m.YMin, g.ymin*k+off, tol2) && cl("ymax", m.YMax, g.ymax*k+off, tol2)
}

var (
	metricTypes = []string{"rm", "it", "bf", "default", "regular"}
	metricSizes = []float64{12, 10, 7.3, 60, 0.5, 150, 1000, 0.01}
)

// metricCase: the metrics, the drawing and the x-height of one symbol.
func metricCase(w *Worker, sym string) {
	for si, set := range metricSets {
		fs := set()
		for _, typ := range metricTypes {
			for zi, size := range metricSizes {
				if zi > 1 && len(sym) < 4 && (len(sym)+si+zi)%2 == 0 {
					continue
				}
				for _, inMath := range []bool{true, false} {
					if !inMath && utf8.RuneCountInString(sym) > 1 {
						continue
					}
					r := charOf(sym, inMath)
					f, it := fontOf(fs, typ, r)
					g := glyphOf(f, r)
					cnv := drawtex.New()
					be := ttf.NewFrom(cnv, fs)
					if si == 0 {
						be = ttf.New(cnv)
					}
					ft := font.Font{Name: "default", Type: typ, Size: size}
					what := fmt.Sprintf("%s in set %d, %s, size %g, math %v", sym, si, typ, size, inMath)
					m := be.Metrics(sym, ft, 72, inMath)
					w.Trans(1)
					if !w.sameMetrics(what, m, g, size, it || sym == `\int` || sym == `\oint`) {
						return
					}
					if !inMath && sym == "-" {
						continue
					}
					be.RenderGlyph(3.25, -7, ft, sym, 72)
					ops := cnv.Ops()
					if len(ops) != 1 {
						w.Fail("%s: %d operations", what, len(ops))
						return
					}
					op, ok := ops[0].(drawtex.GlyphOp)
					if !ok || op.X != 3.25 || op.Y != -7 || op.Glyph.Symbol != string(r) || op.Glyph.Num != g.idx || op.Glyph.Size != size || op.Glyph.Metrics != m || math.Abs(op.Glyph.Offset-g.offset(size)) > size/12/64*1.01+1e-9 {
						w.Fail("%s: draws %+v, glyph %d was measured", what, op, g.idx)
						return
					}
					if si != 0 && op.Glyph.Font != f {
						w.Fail("%s: drawn in another font than it was measured in: %s", what, op.Glyph.Postscript)
						return
					}
					var buf sfnt.Buffer
					if name, err := f.Name(&buf, sfnt.NameIDPostScript); err != nil || name != op.Glyph.Postscript {
						w.Fail("%s: the font is named %q, in the file %q", what, op.Glyph.Postscript, name)
						return
					}
				}
			}
		}
	}
	w.State("symbol", sym)
}

// kernCase: the kerning of one symbol with all others.
func kernCase(w *Worker, sym string) {
	for si, set := range metricSets {
		fs := set()
		for _, typ := range []string{"rm", "it", "bf", "default"} {
			be := ttf.NewFrom(drawtex.New(), fs)
			ft := font.Font{Name: "default", Type: typ, Size: 12}
			f1, _ := fontOf(fs, typ, charOf(sym, true))
			g1 := glyphOf(f1, charOf(sym, true))
			for _, sym2 := range kernPartners {
				for _, v := range []struct {
					typ, name string
					size      float64
				}{{typ, "default", 12}, {typ, "default", 30}, {typ, "default", 12.5}, {"rm", "default", 12}, {"it", "default", 12}, {typ, "x", 12}} {
					ft2 := font.Font{Name: v.name, Type: v.typ, Size: v.size}
					a := ft
					if v.size == 30 && len(sym2) < 3 {
						a.Size = 30
					}
					f2, _ := fontOf(fs, v.typ, charOf(sym2, true))
					want := 0.0
					if a.Size == ft2.Size && ft2.Name == "default" {
						want = refKern(g1, glyphOf(f2, charOf(sym2, true)), a.Size)
					}
					got := be.Kern(a, sym, ft2, sym2, 72)
					w.Trans(1)
					if math.Abs(got-want) > 1e-9+math.Abs(a.Size)/g1.upem*0.51 {
						w.Fail("kerning of %s and %s in set %d, %+v, %+v is %.9g, in the font %.9g", sym, sym2, si, a, ft2, got, want)
						return
					}
					if want != 0 {
						w.Count("kerned-pairs")
					}
				}
			}
		}
	}
	w.State("kern", sym)
}

var kernPartners = strings.Split("A V T o . , y W f i - + 1 7 ( x \u00c5 \u00e9 L P", " ")

// fontQuery is an operation of a backend.
type fontQuery struct {
	op   byte // m metrics, k kern, d draw, x x-height, u thickness
	sym  string
	sym2 string
	ft   font.Font
	dpi  float64
	math bool
}

func (q fontQuery) run(be *ttf.Backend, cnv *drawtex.Canvas) string {
	switch q.op {
	case 'm':
		return fmt.Sprintf("%+v", be.Metrics(q.sym, q.ft, q.dpi, q.math))
	case 'k':
		return fmt.Sprint(be.Kern(q.ft, q.sym, q.ft, q.sym2, q.dpi))
	case 'd':
		n := len(cnv.Ops())
		be.RenderGlyph(1, 2, q.ft, q.sym, q.dpi)
		ops := cnv.Ops()
		if len(ops) != n+1 {
			return fmt.Sprintf("%d operations", len(ops)-n)
		}
		g := ops[n].(drawtex.GlyphOp).Glyph
		return fmt.Sprintf("%p %g %s %+v %s %d %g", g.Font, g.Size, g.Postscript, g.Metrics, g.Symbol, g.Num, g.Offset)
	case 'x':
		return fmt.Sprint(be.XHeight(q.ft, q.dpi))
	}
	return fmt.Sprint(be.UnderlineThickness(q.ft, q.dpi))
}

var fontQueries = func() []fontQuery {
	f := func(name, typ string, size float64) font.Font { return font.Font{Name: name, Type: typ, Size: size} }
	rm, it := f("default", "rm", 12), f("default", "it", 12)
	return []fontQuery{
		{'m', "A", "", rm, 72, true},
		{'m', "A", "", it, 72, true},
		{'m', "A", "", f("default", "bf", 12), 72, true},
		{'m', "A", "", f("default", "rm", 8.4), 72, false},
		{'m', "A", "", f("it", "rm", 12), 72, true},
		{'m', "A", "", rm, 150, true},
		{'m', "V", "", rm, 72, true},
		{'m', "1", "", it, 72, true},
		{'m', "-", "", rm, 72, true},
		{'m', "-", "", rm, 72, false},
		{'m', `\int`, "", it, 72, true},
		{'m', `\alpha`, "", it, 72, true},
		{'k', "A", "V", rm, 72, true},
		{'k', "A", "V", it, 72, true},
		{'k', "A", "-", rm, 72, true},
		{'d', "A", "", rm, 72, true},
		{'d', "A", "", it, 72, true},
		{'d', "-", "", rm, 72, true},
		{'d', `\int`, "", it, 72, true},
		{'d', "V", "", f("default", "rm", 8.4), 72, true},
		{'x', "", "", rm, 72, true},
		{'x', "", "", f("default", "it", 8.4), 150, true},
		{'u', "", "", rm, 72, true},
		{'m', "A", "", f("default", "rm", 12.001), 72, true},
		{'k', "A", "V", f("default", "rm", 12.001), 72, true},
		{'d', "A", "", f("default", "it", 11.999), 72, true},
		{'x', "", "", rm, 150, true},
		{'x', "", "", it, 72, true},
		{'x', "", "", f("default", "bf", 12), 72, true},
		{'x', "", "", f("it", "rm", 8.4), 72, true},
		{'u', "", "", rm, 150, true},
		{'u', "", "", f("default", "rm", 8.4), 72, true},
		{'k', "A", "V", rm, 150, true},
		{'k', "V", "A", rm, 72, true},
		{'d', "A", "", rm, 150, true},
	}
}()

var freshAnswers [][]string
var freshOnce sync.Once

func queryCase(w *Worker, cs string) {
	freshOnce.Do(func() {
		for _, set := range metricSets {
			var l []string
			for _, q := range fontQueries {
				cnv := drawtex.New()
				l = append(l, q.run(ttf.NewFrom(cnv, set()), cnv))
			}
			freshAnswers = append(freshAnswers, l)
		}
	})
	set := int(cs[0] - '0')
	cnv := drawtex.New()
	be := ttf.NewFrom(cnv, metricSets[set]())
	hist := ""
	for i := 1; i < len(cs); i++ {
		k := int(cs[i] - 'A')
		q := fontQueries[k]
		got := q.run(be, cnv)
		w.Trans(1)
		if want := freshAnswers[set][k]; got != want {
			key := ""
			if (q.sym == "-" || q.sym2 == "-") && strings.ContainsAny(hist, hyphens) {
				key = "cache-ignores-math"
			}
			w.FailKey(key, "after the queries %q, %+v gives %s, on a new backend %s", hist, q, got, want)
			if key == "" {
				return
			}
		}
		hist += cs[i : i+1]
	}
	w.State("history", cs[:1], cs[len(cs)-1:], fmt.Sprint(len(cs)))
}

// hyphens are the queries that put a hyphen in the cache.
var hyphens = func() string {
	s := ""
	for i, q := range fontQueries {
		if q.sym == "-" || q.sym2 == "-" {
			s += string(rune('A' + i))
		}
	}
	return s
}()

// sizesCase: one symbol at many sizes on one backend.
func sizesCase(w *Worker, cs string) {
	set, sym := int(cs[0]-'0'), cs[1:]
	cnv := drawtex.New()
	be := ttf.NewFrom(cnv, metricSets[set]())
	for _, step := range []float64{1. / 37, 0.0001, 3} {
		for k := 1; k <= 60; k++ {
			size := 11 + float64(k*(1-2*(k%2)))*step
			for _, typ := range []string{"rm", "it"} {
				q := fontQuery{"md"[k/2%2], sym, "", font.Font{Name: "default", Type: typ, Size: size}, 72, true}
				c := drawtex.New()
				got, want := q.run(be, cnv), q.run(ttf.NewFrom(c, metricSets[set]()), c)
				w.Trans(1)
				if got != want {
					w.Fail("after other sizes, %+v gives %s, on a new backend %s", q, got, want)
					return
				}
			}
		}
	}
	w.State("sizes", cs)
}

// crowdCase: one backend that is asked for many symbols, several times, and
// for the kerning of all of their pairs.
func crowdCase(w *Worker, cs string) {
	var set, last int
	var typ string
	_, err := fmt.Sscanf(cs, "%d %s %x", &set, &typ, &last)
	chk(err)
	fs := metricSets[set]()
	cnv := drawtex.New()
	be := ttf.NewFrom(cnv, fs)
	var syms []string
	for r := rune('!'); r < rune(last); r++ {
		if r < 0x7f || r > 0xa0 {
			syms = append(syms, string(r))
		}
	}
	chars := len(syms)
	for _, n := range sortedKeys(symRune) {
		syms = append(syms, `\`+n)
	}
	var refs []glyphRef
	for round, size := range []float64{12, 7.3, 12, 30} {
		ft := font.Font{Name: "default", Type: typ, Size: size}
		for i, sym := range syms {
			r := charOf(sym, true)
			f, it := fontOf(fs, typ, r)
			g := glyphOf(f, r)
			if round == 0 {
				refs = append(refs, g)
			}
			w.Trans(1)
			m := be.Metrics(sym, ft, 72, true)
			if !w.sameMetrics(fmt.Sprintf("after %d symbols in %d sizes, %s in set %d, %s", i, round, sym, set, typ), m, g, size, it || sym == `\int` || sym == `\oint`) {
				return
			}
			be.RenderGlyph(1, 2, ft, sym, 72)
			ops := cnv.Ops()
			if n := round*len(syms) + i + 1; len(ops) != n {
				w.Fail("after %d glyphs, %d operations", n, len(ops))
				return
			}
			op := ops[len(ops)-1].(drawtex.GlyphOp)
			if op.Glyph.Num != g.idx || op.Glyph.Font != f || op.Glyph.Size != size || op.Glyph.Symbol != string(r) || op.Glyph.Metrics != m {
				w.Fail("after %d symbols in %d sizes, %s in set %d, %s is drawn as %+v", i, round, sym, set, typ, op)
				return
			}
		}
	}
	ft := font.Font{Name: "default", Type: typ, Size: 12}
	for i, a := range syms[:chars] {
		for j, b := range syms[:chars] {
			want := refKern(refs[i], refs[j], 12)
			w.Trans(1)
			if got := be.Kern(ft, a, ft, b, 72); math.Abs(got-want) > 1e-9+12/refs[i].upem*0.51 {
				w.Fail("after many pairs, the kerning of %s and %s in set %d, %s is %.9g, in the font %.9g", a, b, set, typ, got, want)
				return
			}
			if want != 0 {
				w.Count("kerned-pairs")
			}
		}
	}
	w.State("crowd", cs)
}

// collectionCase: the collections hold the faces of their family.
func collectionCase(w *Worker) {
	name := func(raw []byte) string {
		f, err := sfnt.Parse(raw)
		chk(err)
		var buf sfnt.Buffer
		n, err := f.Name(&buf, sfnt.NameIDFull)
		chk(err)
		return n
	}
	for _, c := range []struct {
		name string
		get  func() *ttf.Fonts
		raw  [4][]byte
	}{
		{"lm", lm.Fonts, [4][]byte{lmroman10regular.TTF, lmroman10italic.TTF, lmroman10bold.TTF, lmroman10bolditalic.TTF}},
		{"liberation", liberation.Fonts, [4][]byte{liberationserifregular.TTF, liberationserifitalic.TTF, liberationserifbold.TTF, liberationserifbolditalic.TTF}},
	} {
		for n := 0; n < 3; n++ {
			fs := c.get()
			for i, f := range []*sfnt.Font{fs.Rm, fs.It, fs.Bf, fs.BfIt, fs.Default} {
				w.Trans(1)
				var buf sfnt.Buffer
				got, err := f.Name(&buf, sfnt.NameIDFull)
				if want := name(c.raw[i%4]); err != nil || got != want {
					w.Fail("face %d of %s is %q (%v), want %q", i, c.name, got, err, want)
					return
				}
			}
		}
		w.State("collection", c.name)
	}
}

// heightCase: x-height and thickness.
func heightCase(w *Worker) {
	for si, set := range metricSets {
		fs := set()
		for _, typ := range metricTypes {
			f, _ := fontOf(fs, typ, 'x')
			if typ == "it" {
				f = fs.It
			}
			var buf sfnt.Buffer
			m, err := f.Metrics(&buf, fixed.I(int(f.UnitsPerEm())), stdfont.HintingNone)
			chk(err)
			xh := math.Abs(float64(m.XHeight) / 64 / float64(f.UnitsPerEm()))
			for _, size := range metricSizes {
				for _, dpi := range []float64{72, 96, 300} {
					be := ttf.NewFrom(drawtex.New(), fs)
					ft := font.Font{Name: "default", Type: typ, Size: size}
					got := be.XHeight(ft, dpi)
					w.Trans(1)
					if want := xh * size * dpi / 72; math.Abs(got-want) > 1.01/64 {
						w.Fail("the x-height of set %d, %s, size %g, %g dpi is %.9g, in the font %.9g", si, typ, size, dpi, got, want)
						return
					}
					if got, want := be.UnderlineThickness(ft, dpi), size/16*dpi/72; !near(got, want) {
						w.Fail("the line thickness of size %g at %g dpi is %.9g, want %.9g", size, dpi, got, want)
						return
					}
					w.State("x-height", fmt.Sprint(si, typ, size, dpi))
				}
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C21",
		rule:      "every symbol and character in every font class, size and collection, measured and drawn on a new backend and compared with the font file read directly; every kerning pair of a set; every sequence of queries up to a length on one backend, each answer compared with that of a new backend",
		stateRule: "state: symbol measured, symbol kerned, or (collection, last query, length of the history); transition: query on the real backend",
		gen: func(g *Gen) {
			g.Phase("heights")
			g.Emit("h")
			g.Emit("f")
			g.Phase("symbols")
			for _, n := range sortedKeys(symRune) {
				g.Emit(`m\` + n)
			}
			for r := rune(0x20); r < pick(g, rune(0x2400), rune(0x3000)); r++ {
				if r == 0x7f || r >= 0x600 && r < 0x1e00 {
					continue
				}
				g.Emit("m" + string(r))
			}
			for _, r := range "\U0001D44E\U0001D434\U0001D6FC\U0001F600\uFB01\u4E00" {
				g.Emit("m" + string(r))
			}
			g.Phase("kerning")
			for r := rune(0x21); r < pick(g, rune(0x180), rune(0x600)); r++ {
				if r < 0x7f || r > 0xa0 {
					g.Emit("k" + string(r))
				}
			}
			for _, n := range sortedKeys(symRune) {
				g.Emit(`k\` + n)
			}
			g.Phase("sizes")
			for s := range metricSets {
				for _, n := range []string{"A", "x", "1", "-", "(", `\int`, `\alpha`, `\leq`, " "} {
					g.Emit(fmt.Sprintf("s%d%s", s, n))
				}
			}
			g.Phase("many-symbols")
			for s := range metricSets {
				for _, typ := range metricTypes {
					g.Emit(fmt.Sprintf("c%d %s %x", s, typ, pick(g, 0x240, 0x600)))
				}
			}
			g.Phase("histories")
			var qs []string
			for i := range fontQueries {
				qs = append(qs, string(rune('A'+i)))
			}
			for s := range metricSets {
				n := pick(g, 3, 4)
				if s > 0 && s != 4 {
					n--
				}
				words(g, qs, n, "q"+string(rune('0'+s)), "")
			}
		},
		run: func(w *Worker, cs string) {
			switch cs[0] {
			case 'm':
				metricCase(w, cs[1:])
			case 'k':
				kernCase(w, cs[1:])
			case 'q':
				queryCase(w, cs[1:])
			case 's':
				sizesCase(w, cs[1:])
			case 'h':
				heightCase(w)
			case 'f':
				collectionCase(w)
			case 'c':
				crowdCase(w, cs[1:])
			}
		},
	})
}
