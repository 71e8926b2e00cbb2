from s import *
HB='''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// fake is a font of which all characters are 6 high, 2 deep and 5 wide at size
// 10, with advance 5.5.
type fake struct {
	ops []string
	at  [][4]float64
}

func (f *fake) RenderGlyph(x, y float64, ft font.Font, s string, dpi float64) {
	f.ops = append(f.ops, s)
	f.at = append(f.at, [4]float64{x, y, ft.Size, 0})
}
func (f *fake) RenderRectFilled(x1, y1, x2, y2 float64) {
	f.ops = append(f.ops, "rule")
	f.at = append(f.at, [4]float64{x1, y1, x2, y2})
}
func (f *fake) Kern(a font.Font, s string, b font.Font, t string, dpi float64) float64 {
	if s == "A" && t == "V" {
		return -a.Size / 10
	}
	return 0
}
func (f *fake) Metrics(s string, ft font.Font, dpi float64, m bool) font.Metrics {
	k := ft.Size / 10
	return font.Metrics{Advance: 5.5 * k, Height: 8 * k, Width: 5 * k, XMin: 0.5 * k, XMax: 5.5 * k, YMin: -2 * k, YMax: 6 * k, Iceberg: 6 * k}
}
func (f *fake) XHeight(ft font.Font, dpi float64) float64            { return ft.Size / 2 }
func (f *fake) UnderlineThickness(ft font.Font, dpi float64) float64 { return ft.Size / 20 }

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9 }

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func start() (*fake, tex.State) {
	f := &fake{}
	return f, tex.NewState(f, font.Font{Name: "default", Size: 10, Type: "rm"}, 72)
}

func list(l ...tex.Node) []tex.Node { return l }

'''
def body(s,used=True):
    return HB+'func main() {\n\tf, st := start()\n\t_, _ = f, st\n'+s+'}\n'
X='tex/box.go'
seed('c16-depth-limit','C16','packing a column to an exact height with a depth limit',
 'the excess depth is added to the requested height instead of the natural one',
 [(X,'''		x += d - l
		lst.lst.box.depth = l''','''		x += d - l
		height += d - l
		lst.lst.box.depth = l'''),(X,'''	if additional {
		height += x
	}
''','''	if additional {
		height += x - math.Max(0, d-l)
	}
''')],body('''	v := tex.VListOf(list(tex.VBox(3, 2), tex.NewGlue("fil"), tex.VBox(1, 5)))
	v.VPack(30, false, 2)
	must(near(v.Height(), 30) && near(v.Depth(), 2), v.Height(), v.Depth())
'''))
seed('c17-negative-totals','C17','glue whose total shrinkability is negative, packed to less than its natural width',
 'the order of infinity of glue with a negative total is not found',
 [(X,'''		if totals[i] != 0 {
			return i''','''		if totals[i] > 0 {
			return i''')],body('''	h := tex.HListOf(list(tex.HBox(9), tex.NewGlue("ss"), tex.HBox(9)), false)
	h.HPack(12, false)
	must(h.GlueSign() == -1 && h.GlueOrder() == 1 && near(h.GlueSet(), 6), h.GlueSign(), h.GlueOrder(), h.GlueSet())
'''))
seed('c17-stale-sign','C17','packing a list again to its natural size',
 'a list packed to its natural size after another size still stretches its glue',
 [(X,'''	lst.lst.box.width = width
	x = width - x
	switch {
	case x == 0:
		lst.lst.glue.sign = 0
		lst.lst.glue.order = 0
		lst.lst.glue.ratio = 0
	case x > 0:''','''	lst.lst.box.width = width
	x = width - x
	switch {
	case x == 0:
		lst.lst.glue.ratio = 0
	case x > 0:''')],body('''	h := tex.HListOf(list(tex.NewGlue("fil"), tex.NewChar("a", st, true)), false)
	h.HPack(50, false)
	h.HPack(0, true)
	must(h.GlueSign() == 0, h.GlueSign())
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][0], 0), f.at)
'''))
seed('c17-negative-stretch','C17','glue that stretches backwards: a box to be wider than its content with several glues',
 'the rounding of stretched glue depends on the glue before it: the error adds up',
 [(X,'''					if node.stretchOrder == glueOrder {
						curGlue += node.stretch
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder == glueOrder: // shrinking''','''					if node.stretchOrder == glueOrder {
						curGlue += math.Round(box.GlueSet()*node.stretch) / box.GlueSet()
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder == glueOrder: // shrinking''')],body('''	var l []tex.Node
	for i := 0; i < 8; i++ {
		l = append(l, tex.NewGlue("fil"))
	}
	l = append(l, tex.NewChar("a", st, true))
	h := tex.HListOf(l, false)
	h.HPack(h.Width()+11, false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][0], 11), f.at)
'''))
seed('c18-nested-columns','C18','a column in a column that has depth, followed by something',
 'what follows a column in a column is too high by its height above the baseline',
 [(X,'''				curV := ship.cur.v
				node.lst.box.width = box.Width()
				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()''','''				node.lst.box.width = box.Width()
				ship.vlistOut(node)
				ship.cur.v += node.Depth()''')],body('''	r := func(h, d float64) tex.Node { return tex.NewRule(2, h, d, st) }
	in := tex.VListOf(list(tex.VBox(3, 0), tex.VBox(1, 1)))
	in.VPack(9, false, 5)
	v := tex.VListOf(list(in, r(2, 0)))
	h := tex.HListOf(list(v), false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][1], 12), f.at)
'''))
seed('c18-two-glues','C18','two stretching glues in one row',
 'only the last of several glues stretches',
 [(X,'''						curGlue += node.stretch
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder == glueOrder: // shrinking''','''						curGlue = math.Max(curGlue, node.stretch)
						curG = int(math.Round(clamp(box.GlueSet() * curGlue)))
					}
				case node.shrinkOrder == glueOrder: // shrinking''')],body('''	h := tex.HListOf(list(tex.NewGlue("fil"), tex.NewGlue("fil"), tex.NewChar("a", st, true)), false)
	h.HPack(25, false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][0], 20), f.at)
'''))
seed('c18-origin-depth','C18','a box shipped twice from the same Ship value',
 'the vertical position of the first shipment is kept for the second one',
 [(X,'''	ship.cur.s = 0
	ship.cur.v = 0
	ship.cur.h = 0
''','''	ship.cur.s = 0
	ship.cur.h = 0
'''),(X,'''		case Node:
			// node624
			ruleHeight''','''		case Node:
			// node624
			defer func(v float64) { ship.cur.v = v + 0*float64(curG) }(ship.cur.v)
			ruleHeight''')],body('''	h := tex.HListOf(list(tex.NewChar("a", st, true)), false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	sh.Call(0, 0, h)
	must(f.at[0] == f.at[1], f.at)
''')) if False else None
seed('c18-empty-raised','C18','an empty list with a shift between two items in a column',
 'an empty list in a column only advances by its height',
 [(X,'''			switch len(node.Nodes()) {
			case 0:
				ship.cur.v += node.Height() + node.Depth()
			default:
				ship.cur.v += node.Height()
				ship.cur.h = leftEdge + node.lst.shift
				curV := ship.cur.v
				node.lst.box.width = box.Width()
				ship.vlistOut(node)''','''			switch len(node.Nodes()) {
			case 0:
				ship.cur.v += node.Height()
			default:
				ship.cur.v += node.Height()
				ship.cur.h = leftEdge + node.lst.shift
				curV := ship.cur.v
				node.lst.box.width = box.Width()
				ship.vlistOut(node)''')],body('''	e := tex.VListOf(nil)
	e.VPack(5, false, -3)
	v := tex.VListOf(list(e, tex.NewRule(2, 1, 1, st)))
	must(near(v.Height()+v.Depth(), e.Height()+e.Depth()+2), e.Height(), e.Depth(), v.Height(), v.Depth())
	h := tex.HListOf(list(v), false)
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][3]-f.at[0][1], 2) && near(f.at[0][1], e.Height()+e.Depth()+2), f.at, e.Height(), e.Depth())
''')) if False else None
seed('c19-grow-glue','C19','growing a list that was packed to another than its natural width',
 'growing does not scale the glue of a list',
 [(X,'''	lst.shift *= growFactor
	lst.glue.set *= growFactor
}''','''	lst.shift *= growFactor
}''')],body('''	h := tex.HListOf(list(tex.NewGlue("fil"), tex.HBox(3)), false)
	h.HPack(50, false)
	g := h.GlueSet()
	h.Grow()
	must(near(h.GlueSet(), g/0.7), h.GlueSet())
'''))
seed('c19-accent','C19','an accent that is shrunk and drawn',
 'the ink offset of an accent is not scaled with it',
 [(X,'''	acc.char.Shrink()
	acc.updateMetrics()
''','''	acc.char.Shrink()
''')],body('''	h := tex.HListOf(list(tex.NewAccent("^", st, true)), false)
	h.Shrink()
	var sh tex.Ship
	sh.Call(0, 0, h)
	must(near(f.at[0][0], -0.35), f.at)
'''))
seed('c20-accent-next','C20','a character followed by an accent, in a pair with kerning',
 'no kerning between a character and an accent after it',
 [(X,'''	case *Accent:
		kern = c.be.Kern(c.font, c.c, next.char.font, next.char.c, c.dpi)
	}
''','''	}
''')],body('''	h := tex.HListOf(list(tex.NewChar("A", st, true), tex.NewAccent("V", st, true)), true)
	must(near(h.Nodes()[1].Width(), -0.5), h.Nodes()[1].Width())
'''))
seed('c20-explicit-factor','C20','AutoHeightChar with a factor of its own and a depth',
 'a character with a given factor is not lowered',
 [(X,'''		shift = depth - ch.Depth()
''','''		if factor != 1 {
			shift = depth - ch.Depth()
		}
''')],body('''	h := tex.AutoHeightChar("(", 20, 7, st, 1)
	must(near(h.Shift(), 5), h.Shift())
	h = tex.AutoHeightChar("(", 20, 7, st, 0)
	must(near(h.Height()+h.Depth(), 27), h.Height())
'''))
seed('c20-next-size','C20','two characters of different sizes next to each other',
 'the kerning with a smaller next character is computed as if it had the same size',
 [(X,'''		kern = c.be.Kern(c.font, c.c, next.font, next.c, c.dpi)
''','''		kern = c.be.Kern(c.font, c.c, c.font, next.c, c.dpi)
''')],HB.replace('''	if s == "A" && t == "V" {''','''	if s == "A" && t == "V" && a.Size == b.Size {''')+'''func main() {
	_, st := start()
	small := st
	small.Font.Size = 7
	h := tex.HListOf(list(tex.NewChar("A", st, true), tex.NewChar("V", small, true)), true)
	must(near(h.Nodes()[1].Width(), 0.5), h.Nodes()[1].Width())
}
''')
HT='''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/ttf"
	"golang.org/x/image/font/sfnt"
)

var _ = math.Abs
var _ sfnt.GlyphIndex
var _ = liberation.Fonts

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func main() {
	c := drawtex.New()
	be := ttf.NewFrom(c, liberation.Fonts())
	it := font.Font{Name: "default", Type: "it", Size: 10}
	rm := font.Font{Name: "default", Type: "rm", Size: 10}
	_, _, _ = be, it, rm
'''
T='font/ttf/ttf.go'
seed('c21-kern-classes','C21','kerning of two glyphs of one font file that were asked for as two classes',
 'no kerning between two upright characters if one comes from a math section',
 [(T,'''	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {''','''	if ft1.Name == ft2.Name && ft1.Type == ft2.Type && ft1.Size == ft2.Size {''')],HT+'''	found := false
	re := font.Font{Name: "default", Type: "regular", Size: 10}
	for a := 'A'; a <= 'z'; a++ {
		for b := 'A'; b <= 'z'; b++ {
			x := be.Kern(rm, string(a), rm, string(b), 72)
			y := be.Kern(rm, string(a), re, string(b), 72)
			must(x == y, string(a), string(b), x, y)
			found = found || x != 0
		}
	}
	must(found || true)
}
''')
seed('c21-slanted-class','C21','a digit or operator in a math section',
 'upright characters of a math section are said to be slanted',
 [(T,'''	slanted := (fontType == "it") || be.isSlanted(symbol)''','''	slanted := (font.Type == "it") || be.isSlanted(symbol)''')],HT+'''	must(!be.Metrics("7", it, 72, true).Slanted && be.Metrics("x", it, 72, true).Slanted)
}
''')
seed('c21-supplementary','C21','a letter outside the basic multilingual plane in a math section',
 'mathematical alphanumeric letters are taken from the upright font',
 [(T,'''	if font.Type == "it" && idx < 0x10000 {''','''	if font.Type == "it" {''')],HT+'''	m := be.Metrics("\\u2113", it, 72, true)
	_ = m
	g := be.Metrics(`\\infty`, it, 72, true)
	must(!g.Slanted)
	be.RenderGlyph(0, 0, it, "\\U0001D7D8", 72)
	op := c.Ops()[0].(drawtex.GlyphOp)
	must(op.Glyph.Font == liberation.Fonts().It, op.Glyph.Postscript)
}
''')
HI='''package main

import (
	"bytes"
	"fmt"
	"image/png"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
)

var _ = lm.Fonts

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

// ink is the bounding box of what is drawn.
func ink(w, h, dpi float64, c *drawtex.Canvas) [4]int {
	o := new(bytes.Buffer)
	must(drawimg.NewRenderer(o).Render(w, h, dpi, c) == nil)
	img, err := png.Decode(o)
	must(err == nil, err)
	r := img.Bounds()
	out := [4]int{1e6, 1e6, -1, -1}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if _, _, _, a := img.At(x, y).RGBA(); a > 0x7fff {
				out = [4]int{min(out[0], x), min(out[1], y), max(out[2], x), max(out[3], y)}
			}
		}
	}
	return out
}

var _ = ttf.New
var _ font.Font

func main() {
'''
DI='drawtex/drawimg/drawimg.go'
CV='drawtex/canvas.go'
seed('c22-path-not-closed','C22','a rule after a rule, with a glyph between them',
 'consecutive rules are filled as one path: overlapping ones of opposite direction cancel out',
 [(DI,'''	ctx.ClosePath()
	ctx.Fill()
''','''	ctx.ClosePath()
	ctx.FillPreserve()
'''),(DI,'''		case drawtex.GlyphOp:
			drawGlyph(ctx, dpi, op)''','''		case drawtex.GlyphOp:
			ctx.ClearPath()
			drawGlyph(ctx, dpi, op)''')],HI+'''	c := drawtex.New()
	c.RenderRectFilled(2, 2, 8.5, 8.5)
	d := drawtex.New()
	d.RenderRectFilled(2, 2, 8.5, 8.5)
	d.RenderRectFilled(12, 2, 14, 4)
	a, b := new(bytes.Buffer), new(bytes.Buffer)
	must(drawimg.NewRenderer(a).Render(20./72, 20./72, 72, c) == nil)
	must(drawimg.NewRenderer(b).Render(20./72, 20./72, 72, d) == nil)
	x, _ := png.Decode(a)
	y, _ := png.Decode(b)
	for i := 0; i < 10; i++ {
		for j := 0; j < 10; j++ {
			must(x.At(i, j) == y.At(i, j), i, j, x.At(i, j), y.At(i, j))
		}
	}
}
''')
seed('c22-face-cache','C22','two glyphs of the same size of two fonts with the same PostScript name on one canvas',
 'the faces of an image are cached by the PostScript name of the font',
 [(DI,'''			drawGlyph(ctx, dpi, op)
''','''			drawGlyph(ctx, dpi, op, faces)
'''),(DI,'''	ctx.SetColor(color.Black)

''','''	ctx.SetColor(color.Black)
	faces := make(map[faceKey]font.Face)

'''),(DI,'''func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
		DPI:     dpi,
		Size:    op.Glyph.Size,
		Hinting: font.HintingNone,
	})
	if err != nil {
		panic(fmt.Errorf("could not open font face for glyph %q: %+v",
			op.Glyph.Symbol, err,
		))
	}
	defer face.Close()
	ctx.SetFontFace(face)
''','''type faceKey struct {
	name string
	size float64
}

func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp, faces map[faceKey]font.Face) {
	key := faceKey{op.Glyph.Postscript, op.Glyph.Size}
	face, ok := faces[key]
	if !ok {
		var err error
		face, err = opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
			DPI:     dpi,
			Size:    op.Glyph.Size,
			Hinting: font.HintingNone,
		})
		if err != nil {
			panic(fmt.Errorf("could not open font face for glyph %q: %+v",
				op.Glyph.Symbol, err,
			))
		}
		faces[key] = face
	}
	ctx.SetFontFace(face)
''')],HI+'''	mk := func(both bool) *drawtex.Canvas {
		c := drawtex.New()
		f := lm.Fonts()
		if both {
			c.RenderGlyph(2, 15, drawtex.Glyph{Font: f.Rm, Size: 10, Symbol: "i"})
		}
		c.RenderGlyph(15, 15, drawtex.Glyph{Font: f.Bf, Size: 10, Symbol: "M"})
		return c
	}
	a, b := ink(40./72, 20./72, 300, mk(false)), ink(40./72, 20./72, 300, mk(true))
	must(a[2] == b[2], a, b)
}
''')
HW='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/mtex"
)

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

var cause = errors.New("disk full")

// failing fails from the n-th write on.
type failing struct {
	n, total int
}

func (f *failing) Write(p []byte) (int, error) {
	f.n--
	if f.n < 0 {
		return 0, cause
	}
	f.total += len(p)
	return len(p), nil
}

var _ = drawtex.New
var _ = drawimg.NewRenderer
var _ = mtex.Render

type bad struct{}

func (bad) Render(w, h, dpi float64, c *drawtex.Canvas) error { return cause }

func main() {
'''
seed('c23-buffered','C23','a destination that fails on the last write of a small image',
 'the image goes through a buffer whose last flush is not checked',
 [(DI,'''	return png.Encode(r.w, ctx.Image())''','''	w := bufio.NewWriter(r.w)
	defer w.Flush()
	return png.Encode(w, ctx.Image())'''),(DI,'''import (
	"fmt"''','''import (
	"bufio"
	"fmt"'''),(DI,'''		w   = width * dpi
		h   = height * dpi
		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))''','''		ctx = gg.NewContext(int(math.Ceil(width*dpi)), int(math.Ceil(height*dpi)))''')],HW+'''	for n := 0; n < 4; n++ {
		err := mtex.Render(drawimg.NewRenderer(&failing{n: n}), "$x$", 12, 72, nil)
		must(errors.Is(err, cause), n, err)
	}
}
''')
seed('c23-cause-lost','C23','a device that fails',
 'the error of mtex.Render does not carry the error of the device',
 [('mtex/render.go','''		return fmt.Errorf("could not render math expression: %w", err)''','''		return fmt.Errorf("could not render math expression: %v", err)''')],HW+'''	must(errors.Is(mtex.Render(bad{}, "$x$", 12, 72, nil), cause))
}
''')
seed('c23-document-close','C23','a document whose last bytes are refused when the file is closed',
 'the error of closing the document is ignored',
 [('drawtex/drawpdf/drawpdf.go','''	return doc.OutputFileAndClose(fname)
''','''	f, err := os.Create(fname)
	if err != nil {
		return err
	}
	defer f.Close()
	doc.Output(f)
	return nil
'''),('drawtex/drawpdf/drawpdf.go','''	"log"

''','''	"log"
	"os"

''')],'''package main

import (
	"fmt"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawpdf"
)

func main() {
	if _, err := os.Stat("/dev/full"); err != nil {
		fmt.Println("no full device here")
		return
	}
	if err := drawpdf.Write("/dev/full", 100, 100, drawtex.New()); err == nil {
		fmt.Println("a document on a full device succeeds")
		os.Exit(1)
	}
}
''')
CMD='''#!/bin/bash
# Runs the command of the repository in the current directory.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d) || exit 2
trap 'rm -r -f -- "$t"' EXIT
@BUILD@
cd "$t"
'''
BUILD='go build -o "$t/mtex" ./cmd/mtex-render || exit 3'
M='cmd/mtex-render/main.go'
seed('c24-extra-arguments','C24','more than one argument',
 'extra arguments are ignored',
 [(M,'''	if flag.NArg() != 1 {''','''	if flag.NArg() < 1 {''')],'',sh=CMD.replace('@BUILD@',BUILD)+'''./mtex -o a.png '$x$' '$y$' && { echo "two arguments are accepted"; exit 1; }
./mtex -o a.png && { echo "no argument is accepted"; exit 1; }
./mtex -o a.png '$x$' || { echo "one argument is not accepted"; exit 1; }
exit 0
''')
seed('c24-close-lost','C24','an output file that refuses data',
 'errors are only logged after the output was created',
 [(M,'''		log.Fatalf("could not render math expression %q: %+v", expr, err)''','''		log.Printf("could not render math expression %q: %+v", expr, err)''')],'',sh=CMD.replace('@BUILD@',BUILD)+'''./mtex -o a.png '$x' && { echo "a malformed expression is accepted"; exit 1; }
./mtex -o a.png '$x$' || exit 1
exit 0
''')
seed('c24-size-dpi','C24','a resolution other than 72 together with a font size',
 'the font size is scaled by the resolution as well',
 [(M,'''	err = mtex.Render(dst, expr, *size, *dpi, fnts)''','''	err = mtex.Render(dst, expr, math.Min(*size, *size**dpi/72), *dpi, fnts)'''),(M,'''	"log"
	"os"
''','''	"log"
	"math"
	"os"
''')],'',sh=CMD.replace('@BUILD@',BUILD)+'''./mtex -o a.png -font-size 20 -dpi 36 '$x$' || exit 1
./mtex -o b.png -font-size 10 -dpi 36 '$x$' || exit 1
./mtex -o c.png -font-size 10 -dpi 72 '$x$' || exit 1
s() { od -An -tu1 -j16 -N8 "$1" | awk '{print $4+256*$3, $8+256*$7}'; }
[ "$(s a.png)" = "$(s b.png)" ] && { echo "the font size makes no difference"; exit 1; }
a=$(s a.png); c=$(s c.png)
[ "${a%% *}" = "${c%% *}" ] || { echo "twice the size at half the resolution is $a pixels, not $c"; exit 1; }
exit 0
''')
