from s import *
H='''package main

import (
	"fmt"
	"os"
	"time"
	"math"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
)

var _ = time.Now
var _ = math.Abs

type rec struct {
	w, h, dpi float64
	ops       []drawtex.Op
	err       error
}

func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.w, r.h, r.dpi, r.ops = w, h, dpi, c.Ops()
	return nil
}

func draw(expr string, size float64, f *ttf.Fonts) *rec {
	r := &rec{}
	r.err = mtex.Render(r, expr, size, 72, f)
	return r
}

// glyphs lists what is drawn from left to right as issued.
func (r *rec) glyphs() string {
	s := ""
	for _, op := range r.ops {
		if g, ok := op.(drawtex.GlyphOp); ok {
			s += g.Glyph.Symbol
		}
	}
	return s
}

func (r *rec) glyph(i int) drawtex.GlyphOp {
	for _, op := range r.ops {
		if g, ok := op.(drawtex.GlyphOp); ok {
			if i == 0 {
				return g
			}
			i--
		}
	}
	panic("no such glyph")
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6 }

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

'''
P='mtex/parser.go'
seed('c08-overline-twice','C08','overlines nested some 30 deep',
 'the body of an overline is typeset twice, so that the time doubles with every level: typesetting does not end',
 [(P,'''	macro := node.(*ast.Macro)
	body := p.handleNode(
		ast.List(macro.Args[0].(*ast.Arg).List),
		state, math,
	).(*tex.HList)

	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	height := body.Height() - body.Shift() + 3*thickness
''','''	macro := node.(*ast.Macro)
	list := ast.List(macro.Args[0].(*ast.Arg).List)
	probe := p.handleNode(list, state, math).(*tex.HList)

	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	height := probe.Height() - probe.Shift() + 3*thickness
	body := p.handleNode(list, state, math).(*tex.HList)
''')],H+'''func main() {
	e := "x"
	for i := 0; i < 48; i++ {
		e = `\\\\overline{` + e + "}"
	}
	done := make(chan *rec)
	go func() { done <- draw("$"+e+"$", 10, nil) }()
	select {
	case r := <-done:
		must(r.err == nil, r.err)
	case <-time.After(20 * time.Second):
		must(false, "no answer")
	}
}
'''.replace('\\\\\\\\','\\\\').replace('\\\\overline','\\overline'))
seed('c08-dfrac-goroutine','C08','a display fraction with a numerator that cannot be typeset',
 'the numerator is typeset by a goroutine whose panic is not recovered: the process dies instead of an error being returned',
 [(P,'''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)

	return p.genfrac("", "", thickness, displayStyle, num, den, state)
''','''	// typeset (deeply nested) numerators on a stack of their own.
	ch := make(chan tex.Node)
	go func() { ch <- p.handleNode(numNode, state, math) }()
	num := <-ch
	den := p.handleNode(denNode, state, math)

	return p.genfrac("", "", thickness, displayStyle, num, den, state)
''')],H+'''func main() {
	must(draw(`$\\dfrac{x}{y}$`, 10, nil).err == nil, "not typeset")
	must(draw(`$\\dfrac{x}{y^2}$`, 10, nil).err != nil, "no error")
	must(draw(`$\\dfrac{x^2}{y}$`, 10, nil).err != nil, "no error")
}
''')
seed('c09-bytes','C09','a word with a non-ASCII letter',
 'the bytes of the encoding are drawn as letters instead of the letter',
 [(P,'''		for _, x := range n.Text {
			nodes = append(nodes, tex.NewChar(string(x), v.state, v.math))
		}
''','''		for i := 0; i < len(n.Text); i++ {
			nodes = append(nodes, tex.NewChar(string(rune(n.Text[i])), v.state, v.math))
		}
''')],H+'''func main() {
	r := draw("ab caf\\u00e9", 10, nil)
	must(r.glyphs() == "ab caf\\u00e9", r.glyphs(), r.err)
}
''')
seed('c09-root-in-text','C09','a root with an index outside of a math section',
 'the index of the root is not drawn',
 [(P,'''	switch root {
	case nil:
		root = tex.HBox(check.Width() * 0.5)
''','''	switch {
	case root == nil, !math:
		root = tex.HBox(check.Width() * 0.5)
''')],H+'''func main() {
	r := draw(`\\sqrt[3]{x}`, 10, nil)
	must(len(r.glyphs()) == len("3\\u221ax"), r.glyphs(), r.err)
}
''')
seed('c10-shared-digits','C10','a number with the same digit twice inside a fraction',
 'equal digits of a number share one node, which is shrunk once per occurrence',
 [(P,'''		h := handlerFunc(handleSymbol)
		for i, c := range n.Text {
			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
		}
''','''		h := handlerFunc(handleSymbol)
		digits := make(map[rune]tex.Node)
		for i, c := range n.Text {
			if d, ok := digits[c]; ok && c != '.' {
				v.nodes = append(v.nodes, d)
				continue
			}
			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
			digits[c] = h.Handle(v.p, n, v.state, v.math)
			v.nodes = append(v.nodes, digits[c])
		}
''')],H+'''func main() {
	r := draw(`$\\frac{11}{x}$`, 10, nil)
	must(near(r.glyph(0).Glyph.Size, 7) && near(r.glyph(2).Glyph.Size, 7), r.glyph(0).Glyph.Size, r.glyph(2).Glyph.Size)
}
''')
seed('c10-third-level','C10','text-style fractions nested three deep',
 'fractions within two others are no longer shrunk',
 [(P,'''	expr   string
	macros map[string]handler
''','''	expr   string
	macros map[string]handler
	level  int // number of enclosing fractions.
'''),(P,'''	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)

	// FIXME(sbinet): this should be infered from the context.
	// ie: textStyle    when in $  $ environment.
	//     displayStyle when in \\[\\] environment.
	sty := textStyle
''','''	p.level++
	num := p.handleNode(numNode, state, math)
	den := p.handleNode(denNode, state, math)
	p.level--

	// FIXME(sbinet): this should be infered from the context.
	// ie: textStyle    when in $  $ environment.
	//     displayStyle when in \\[\\] environment.
	sty := textStyle
	if p.level > 1 {
		sty = displayStyle // scriptscript style is the smallest one.
	}
''')],H+'''func main() {
	r := draw(`$\\frac{\\frac{\\frac{a}{b}}{c}}{d}$`, 10, nil)
	must(near(r.glyph(0).Glyph.Size, 3.43), r.glyph(0).Glyph.Size)
}
''')
seed('c11-nested-math','C11','a math section inside an argument of another one, followed by an operator',
 'the rest of the outer section is typeset as text: its operators get no space',
 [(P,'''	case *ast.MathExpr:
		oldm := v.math
		oldt''','''	case *ast.MathExpr:
		oldt'''),(P,'''		v.math = oldm
''','''		v.math = false
''')],H+'''func main() {
	a := draw(`$\\sqrt{$x$+y}$`, 10, nil)
	b := draw(`$\\sqrt{x+y}$`, 10, nil)
	must(near(a.w, b.w), a.w, b.w)
}
''')
seed('c11-newline-operator','C11','an operator at the start of a group, after a line break or a tab',
 'the operator is spaced as a binary one',
 [(P,'''		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
			return !unicode.IsSpace(r)
		})
		prev := ""
		if i >= 0 {
			prev = string(p.expr[i])
		}
''','''		prev := ""
		if s := strings.TrimRight(p.expr[:pos], " "); s != "" {
			prev = s[len(s)-1:]
		}
'''),(P,'''	"strings"
	"unicode"
''','''	"strings"
''')],H+'''func main() {
	a := draw("${\\n-x}$", 10, nil)
	b := draw("${-x}$", 10, nil)
	must(near(a.w, b.w), a.w, b.w)
}
''')
seed('c11-trailing-dot','C11','a number that ends with a dot',
 'a dot after a digit is taken as a decimal separator even if no digit follows',
 [(P,'''				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
''','''				(pos < len(p.expr)-1 && (isdigit(p.expr[pos+1]) || p.expr[pos+1] == '}')) {
''')],H+'''func main() {
	a := draw("${1.}x$", 10, nil)
	b := draw("${1. }x$", 10, nil)
	must(near(a.w, b.w), a.w, b.w)
}
''')
seed('c12-quarter-sizes','C12','a font size that is not a multiple of a quarter of a point',
 'the font size is rounded',
 [(P,'''		Name: "default",
		Size: size,
''','''		Name: "default",
		Size: math.Round(4*size) / 4,
''')],H+'''func main() {
	a, b := draw("$x+1$", 10, nil), draw("$x+1$", 11.1, nil)
	must(math.Abs(b.w/a.w-1.11) < 1e-6, a.w, b.w)
}
''')
U='internal/tex2unicode/utf8.go'
seed('c13-supsetneqq','C13','the macro \\supsetneqq',
 'it is drawn as its mirror image',
 [(U,'''		`supsetneqq`:               0x2acc,
''','''		`supsetneqq`:               0x2acb,
''')],H+'''func main() {
	r := draw(`$a\\supsetneqq b$`, 10, nil)
	must(r.glyphs() == "a\\u2accb", r.glyphs(), r.err)
}
''')
T='font/ttf/ttf.go'
seed('c14-function-font','C14','a call that fails inside the argument of a function, before another call',
 'the math font stays upright after the failure: the next formulas are not drawn in italics',
 [(P,'''	state.Font.Type = "rm"
	fun := macro''','''	mathFont = "rm"
	state.Font.Type = mathFont
	fun := macro'''),(P,'''		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, args, math))
	}
	return''','''		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, args, math))
	}
	mathFont = "it"
	return'''),(P,'''	case "mathtext.default":
		return "it"
''','''	case "mathtext.default":
		return mathFont
'''),(P,'''func rcparams(''','''// mathFont is the font of math sections.
var mathFont = "it"

func rcparams(''')],H+'''func main() {
	a := draw("$x$", 10, nil)
	b := draw(`$\\exp{y^2}$`, 10, nil)
	must(b.err != nil, "no error")
	c := draw("$x$", 10, nil)
	must(a.glyph(0).Glyph.Font == c.glyph(0).Glyph.Font, "not the same font")
}
''')
CONC='''
func main() {
	// every outcome is compared with the one of a sequential call.
	exprs := []string{`$\\frac{a+b}{2\\pi}$`, "$x^2$", `text $\\sqrt[3]{x}\\alpha$`, `$\\binom{n}{k}\\leq 1.5$`}
	want := make([]string, len(exprs))
	one := func(i int) string {
		r := draw(exprs[i], 10, FONTS)
		return fmt.Sprintf("%v %v %v %v", r.err != nil, r.w, r.h, r.glyphs())
	}
	if SEQ {
		for i := range exprs {
			want[i] = one(i)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				i := (g + n) % len(exprs)
				if got := one(i); SEQ && got != want[i] {
					fmt.Println(got, want[i])
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''
def conc(fonts='nil',seq='true',imp=''):
    return H.replace('"time"\n','"time"\n\t"sync"\n').replace('"github.com/go-latex/latex/font/ttf"',imp+'"github.com/go-latex/latex/font/ttf"')+CONC.replace('FONTS',fonts).replace('SEQ',seq)
seed('c15-shared-macros','C15','two goroutines that typeset at the same time',
 'all parsers fill the same table of macros without synchronisation',
 [(P,'''		macros: make(map[string]handler),
	}
	p.init()
''','''		macros: builtinMacros,
	}
	p.init()
'''),(P,'''	for k, v := range builtinMacros {
		p.macros[k] = v
	}
''','''	// the builtin ones are there already.
''')],conc(),race=True)
seed('c15-lazy-fonts','C15','the first use of the fonts by two goroutines at the same time',
 'the font collection is published before it is complete, without synchronisation',
 [('font/lm/lm.go','''	once.Do(func() {
		rm, err''','''	if fnts == nil {
		fnts = new(ttf.Fonts)
		rm, err'''),('font/lm/lm.go','''		fnts = &ttf.Fonts{
			Default: rm,
			Rm:      rm,
			It:      it,
			Bf:      bf,
			BfIt:    bfit,
		}
	})
''','''		*fnts = ttf.Fonts{
			Default: rm,
			Rm:      rm,
			It:      it,
			Bf:      bf,
			BfIt:    bfit,
		}
	}
'''),('font/lm/lm.go','''	once sync.Once
''',''),('font/lm/lm.go','''	"log"
	"sync"
''','''	"log"
''')],conc('lm.Fonts()','false','"github.com/go-latex/latex/font/lm"\n\t'),race=True)
seed('c15-scratch-buffer','C15','two goroutines that typeset at the same time, with different backends',
 'all backends load glyphs with the same scratch buffer',
 [(T,'''	var (
		buf     sfnt.Buffer
		hinting = hintingNone
	)
''','''	var hinting = hintingNone
'''),(T,'''	postscript, err := ft.Name(&buf''','''	buf := scratch
	postscript, err := ft.Name(buf'''),(T,'ft.GlyphIndex(&buf','ft.GlyphIndex(buf'),(T,'ft.GlyphName(&buf','ft.GlyphName(buf'),
 (T,'ft.LoadGlyph(&buf, idx, fixed.I(ppem)','ft.LoadGlyph(buf, idx, fixed.I(ppem)'),(T,'ft.GlyphAdvance(&buf','ft.GlyphAdvance(buf'),(T,'ft.LoadGlyph(&buf, idx, fupe','ft.LoadGlyph(buf, idx, fupe'),(T,'ft.GlyphBounds(&buf','ft.GlyphBounds(buf'),
 (T,'''type ttfKey struct {
''','''// scratch saves the allocation of a buffer for every glyph.
var scratch = new(sfnt.Buffer)

type ttfKey struct {
''')],conc(),race=True)
seed('c15-face-cache','C15','two goroutines that render images at the same time with glyphs of the same font and size',
 'the font faces are cached for all images; the cache is guarded by a lock but the faces are not',
 [('drawtex/drawimg/drawimg.go','''	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {''','''	face, err := faceOf(op.Glyph.Font, opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {'''),('drawtex/drawimg/drawimg.go','''	defer face.Close()
	ctx.SetFontFace(face)
''','''	ctx.SetFontFace(face)
'''),('drawtex/drawimg/drawimg.go','''func drawRect(''','''type faceKey struct {
	font *sfnt.Font
	opts opentype.FaceOptions
}

var (
	facesMu sync.Mutex
	faces   = make(map[faceKey]font.Face)
)

// faceOf returns the face of a font, from the cache if it is there.
func faceOf(ft *sfnt.Font, opts opentype.FaceOptions) (font.Face, error) {
	facesMu.Lock()
	defer facesMu.Unlock()
	key := faceKey{ft, opts}
	if face, ok := faces[key]; ok {
		return face, nil
	}
	face, err := opentype.NewFace(ft, &opts)
	if err != nil {
		return nil, err
	}
	faces[key] = face
	return face, nil
}

func drawRect('''),('drawtex/drawimg/drawimg.go','''	"math"

''','''	"math"
	"sync"

'''),('drawtex/drawimg/drawimg.go','''	"golang.org/x/image/font/opentype"
''','''	"golang.org/x/image/font/opentype"
	"golang.org/x/image/font/sfnt"
''')],'''package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"

	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
)

func png() string {
	o := new(bytes.Buffer)
	if err := mtex.Render(drawimg.NewRenderer(o), `$\\frac{a+b}{2\\pi}$`, 12, 100, nil); err != nil {
		return err.Error()
	}
	return o.String()
}

func main() {
	want := png()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20; n++ {
				if png() != want {
					fmt.Println("another image")
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
''',race=True)

seed('c12-whole-dpi','C12','a resolution that is not a whole number',
 'the output device is given a rounded resolution',
 [('mtex/render.go','d, 0))/72, dpi, canvas)','d, 0))/72, math.Round(dpi), canvas)')],H+'''func main() {
	r := &rec{}
	err := mtex.Render(r, "$x$", 10, 72.27, nil)
	must(err == nil && r.dpi == 72.27, err, r.dpi)
}
''')
seed('c13-vdash','C13','the macro \\Vdash',
 'it is drawn as another turnstile',
 [(U,'''		`Vdash`:                    8873,
''','''		`Vdash`:                    8874,
''')],H+'''func main() {
	r := draw(`$a\\Vdash b$`, 10, nil)
	must(r.glyphs() == "a\\u22a9b", r.glyphs(), r.err)
}
''')
seed('c14-shared-font-table','C14','a backend that is used after another one was made from another font collection',
 'all backends share one table of fonts: the fonts of a backend change when another one is made',
 [(T,'''		fonts:  make(map[string]*sfnt.Font),
''','''		fonts:  table,
'''),(T,'''type ttfKey struct {
''','''// table associates the font classes with fonts.
var table = make(map[string]*sfnt.Font)

type ttfKey struct {
''')],(H+'''func main() {
	a := ttf.NewFrom(drawtex.New(), lm.Fonts())
	want, err := mtex.Parse("$x$", 10, 72, ttf.NewFrom(drawtex.New(), lm.Fonts()))
	must(err == nil, err)
	draw("$x$", 10, nil)
	got, err := mtex.Parse("$x$", 10, 72, a)
	must(err == nil && got.Width() == want.Width(), err, got.Width(), want.Width())
}
''').replace('"github.com/go-latex/latex/font/ttf"','"github.com/go-latex/latex/font/lm"\n\t"github.com/go-latex/latex/font/ttf"'))
seed('c14-canvas-pool','C14','a renderer that keeps the operations of a canvas, and another call after it',
 'the canvas is reused: the next rendering overwrites the operations handed to the previous one',
 [('mtex/render.go','''		canvas  = drawtex.New()
''','''		canvas  = canvases.Get().(*drawtex.Canvas)
'''),('mtex/render.go','''	switch fonts {
''','''	defer canvases.Put(canvas)
	canvas.Reset()
	switch fonts {
'''),('mtex/render.go','''func Render(''','''// canvases are the canvases that are not in use.
var canvases = sync.Pool{New: func() any { return drawtex.New() }}

func Render('''),('mtex/render.go','''	"math"
''','''	"math"
	"sync"
'''),('drawtex/canvas.go','''func (c *Canvas) Ops()''','''// Reset removes all operations.
func (c *Canvas) Reset() { c.ops = c.ops[:0] }

func (c *Canvas) Ops()''')],H+'''func main() {
	a := draw("$x+y$", 10, nil)
	want := a.glyphs()
	draw("$1$", 10, nil)
	must(a.glyphs() == want, a.glyphs(), want)
}
''')
