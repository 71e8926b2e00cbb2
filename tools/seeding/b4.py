from s import *
T='font/ttf/ttf.go'
HB='''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// fake is a font of which all characters are 6 high, 2 deep and 5 wide at size
// 10, with advance 5.5.
type fake struct {
	ops []string
	at  [][4]float64
}

func (f *fake) RenderGlyph(x, y float64, ft font.Font, s string, dpi float64) {
	f.ops = append(f.ops, s)
	f.at = append(f.at, [4]float64{x, y, ft.Size, 0})
}
func (f *fake) RenderRectFilled(x1, y1, x2, y2 float64) {
	f.ops = append(f.ops, "rule")
	f.at = append(f.at, [4]float64{x1, y1, x2, y2})
}
func (f *fake) Kern(a font.Font, s string, b font.Font, t string, dpi float64) float64 {
	if s == "A" && t == "V" {
		return -a.Size / 10
	}
	return 0
}
func (f *fake) Metrics(s string, ft font.Font, dpi float64, m bool) font.Metrics {
	k := ft.Size / 10
	return font.Metrics{Advance: 5.5 * k, Height: 8 * k, Width: 5 * k, XMin: 0.5 * k, XMax: 5.5 * k, YMin: -2 * k, YMax: 6 * k, Iceberg: 6 * k}
}
func (f *fake) XHeight(ft font.Font, dpi float64) float64            { return ft.Size / 2 }
func (f *fake) UnderlineThickness(ft font.Font, dpi float64) float64 { return ft.Size / 20 }

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9 }

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func start() (*fake, tex.State) {
	f := &fake{}
	return f, tex.NewState(f, font.Font{Name: "default", Size: 10, Type: "rm"}, 72)
}

func list(l ...tex.Node) []tex.Node { return l }

'''
def body(s,used=True):
    return HB+'func main() {\n\tf, st := start()\n\t_, _ = f, st\n'+s+'}\n'
X='tex/box.go'
DI='drawtex/drawimg/drawimg.go'
CV='drawtex/canvas.go'
HT='''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/ttf"
	"golang.org/x/image/font/sfnt"
)

var _ = math.Abs
var _ sfnt.GlyphIndex
var _ = liberation.Fonts

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func main() {
	c := drawtex.New()
	be := ttf.NewFrom(c, liberation.Fonts())
	it := font.Font{Name: "default", Type: "it", Size: 10}
	rm := font.Font{Name: "default", Type: "rm", Size: 10}
	_, _, _ = be, it, rm
'''
T='font/ttf/ttf.go'
HI='''package main

import (
	"bytes"
	"fmt"
	"image/png"
	"os"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
)

var _ = lm.Fonts

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

// ink is the bounding box of what is drawn.
func ink(w, h, dpi float64, c *drawtex.Canvas) [4]int {
	o := new(bytes.Buffer)
	must(drawimg.NewRenderer(o).Render(w, h, dpi, c) == nil)
	img, err := png.Decode(o)
	must(err == nil, err)
	r := img.Bounds()
	out := [4]int{1e6, 1e6, -1, -1}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if _, _, _, a := img.At(x, y).RGBA(); a > 0x7fff {
				out = [4]int{min(out[0], x), min(out[1], y), max(out[2], x), max(out[3], y)}
			}
		}
	}
	return out
}

var _ = ttf.New
var _ font.Font

func main() {
'''
DI='drawtex/drawimg/drawimg.go'
CV='drawtex/canvas.go'

seed('c16-repack','C16','packing a list to its natural width plus something after it was packed to a larger one',
 'the width a list had before counts as its natural width if it is larger',
 [(X,'''	if additional {
		width += x
	}
	lst.lst.box.width = width''','''	if additional {
		width += math.Max(x, lst.lst.box.width)
	}
	lst.lst.box.width = width''')],body('''	h := tex.HListOf(list(tex.HBox(3), tex.NewGlue("fil")), false)
	h.HPack(20, false)
	h.HPack(1, true)
	must(near(h.Width(), 4), h.Width())
'''))
seed('c16-negative-kern','C16','a column whose kern is more negative than its content is high',
 'kerns of a column cannot make it less high than zero',
 [(X,'''	*height += *depth + k.width
	*depth = 0''','''	*height = math.Max(0, *height+*depth+k.width)
	*depth = 0''')],body('''	v := tex.VListOf(list(tex.NewKern(-4), tex.VBox(6, 1)))
	must(near(v.Height(), 2) && near(v.Depth(), 1), v.Height(), v.Depth())
'''))
seed('c19-grow-shift','C19','growing a raised list',
 'only lowered lists have their shift scaled when they grow',
 [(X,'''	lst.shift *= growFactor
''','''	lst.shift = math.Max(lst.shift, lst.shift*growFactor)
''')],body('''	v := tex.VListOf(list(tex.NewRule(3, 1, 1, st)))
	v.SetShift(-10)
	h := tex.HListOf(list(v), false)
	h.Grow()
	h.HPack(0, true)
	must(near(h.Height(), 11/0.7), h.Height())
'''))
seed('c21-size-cache','C21','the same symbol at two sizes that differ by less than a tenth of a point',
 'glyphs are cached by their rounded size',
 [(T,'''	key := ttfKey{symbol, fnt, dpi}
''','''	key := ttfKey{symbol, fnt, dpi}
	key.font.Size = math64.Round(16*fnt.Size) / 16
'''),(T,'''	val, ok := be.glyphs[key]
	if ok {
		return val
	}
''','''	if val, ok := be.glyphs[key]; ok {
		return val
	}
'''),(T,'''	"fmt"
	"unicode"
''','''	"fmt"
	math64 "math"
	"unicode"
''')],HT+'''	it.Size = 10.23
	a := be.Metrics("x", it, 72, true)
	it.Size = 10.25
	b := be.Metrics("x", it, 72, true)
	must(math.Abs(a.Width*10.25/10.23-b.Width) < 1e-9, a.Width, b.Width)
}
''') if True else 0
seed('c22-reversed-rules','C22','a rule given by its right or lower corner first',
 'the corners of a rule are sorted on the canvas: the operation is not the one that was issued',
 [(CV,'''	c.ops = append(c.ops, RectOp{x1, y1, x2, y2})''','''	op := RectOp{x1, y1, x2, y2}
	if x2 < x1 {
		op.X1, op.X2 = x2, x1
	}
	c.ops = append(c.ops, op)''')],HI+'''	c := drawtex.New()
	c.RenderRectFilled(5, 1, 2, 3)
	must(c.Ops()[0] == drawtex.RectOp{X1: 5, Y1: 1, X2: 2, Y2: 3}, c.Ops())
}
''')
seed('c22-size-truncated','C22','a page that is a little more than a whole number of pixels high',
 'the last, partial row of pixels is cut off',
 [(DI,'''		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))''','''		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h-0.01)))''')],HI+'''	o := new(bytes.Buffer)
	must(drawimg.NewRenderer(o).Render(0.5, 0.14005, 100, drawtex.New()) == nil)
	img, err := png.Decode(o)
	must(err == nil && img.Bounds().Dy() == 15, img.Bounds())
}
''')
