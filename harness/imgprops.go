package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	stdfont "golang.org/x/image/font"
	"golang.org/x/image/font/opentype"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

// The drawing operations an image case is made of.
type imgOp struct {
	rect       bool
	x, y, p, q float64 // corners, or position and size
	sym        string
	set        int
}

var imgOps = []imgOp{
	{rect: true, x: 2, y: 3, p: 10, q: 7},
	{rect: true, x: 0, y: 0, p: 4, q: 1.5},
	{rect: true, x: 5.25, y: 4.5, p: 5.75, q: 12},
	{rect: true, x: 12, y: 9, p: 6, q: 5.5},
	{rect: true, x: -5, y: 8, p: 40, q: 8.4},
	{rect: true, x: 7, y: 2, p: 7.05, q: 2.05},
	{rect: true, x: 100, y: 100, p: 110, q: 120},
	{x: 3, y: 10, p: 10, sym: "A"},
	{x: 9.5, y: 12.25, p: 8, sym: "g", set: 1},
	{x: 1, y: 14, p: 14, sym: "\u222b", set: 2},
	{x: -2, y: 5, p: 9, sym: "=", set: 3},
	{x: 12, y: 9, p: 5.7, sym: "\u00e9", set: 1},
	{x: 60, y: 5, p: 10, sym: "Q"},
	{x: 6, y: 6, p: 4, sym: "."},
	{x: 0.5, y: 13, p: 10, sym: "M", set: 1},
}

func (o imgOp) glyph() drawtex.Glyph {
	f := metricSets[o.set]().Rm
	var buf sfnt.Buffer
	r := []rune(o.sym)[0]
	idx, err := f.GlyphIndex(&buf, r)
	chk(err)
	return drawtex.Glyph{Font: f, Size: o.p, Postscript: "any", Symbol: o.sym, Num: idx, Metrics: font.Metrics{Advance: o.x}}
}

func (o imgOp) draw(c *drawtex.Canvas) {
	if o.rect {
		c.RenderRectFilled(o.x, o.y, o.p, o.q)
		return
	}
	c.RenderGlyph(o.x, o.y, o.glyph())
}

func (o imgOp) op() drawtex.Op {
	if o.rect {
		return drawtex.RectOp{X1: o.x, Y1: o.y, X2: o.p, Y2: o.q}
	}
	return drawtex.GlyphOp{X: o.x, Y: o.y, Glyph: o.glyph()}
}

// alphaImg is the reference image: the opacity of each pixel.
type alphaImg struct {
	w, h int
	a    []float64
}

func (im *alphaImg) over(x, y int, m float64) {
	if m <= 0 || x < 0 || y < 0 || x >= im.w || y >= im.h {
		return
	}
	p := &im.a[y*im.w+x]
	*p += (1 - *p) * math.Min(m, 1)
}

func (im *alphaImg) rect(x1, y1, x2, y2 float64) {
	if x1 > x2 {
		x1, x2 = x2, x1
	}
	if y1 > y2 {
		y1, y2 = y2, y1
	}
	clamp := func(v float64, n int) int { return int(math.Max(0, math.Min(float64(n), v))) }
	part := func(i int, lo, hi float64) float64 {
		return math.Max(0, math.Min(hi, float64(i+1))-math.Max(lo, float64(i)))
	}
	for y := clamp(math.Floor(y1), im.h); y < clamp(math.Ceil(y2), im.h); y++ {
		for x := clamp(math.Floor(x1), im.w); x < clamp(math.Ceil(x2), im.w); x++ {
			im.over(x, y, part(x, x1, x2)*part(y, y1, y2))
		}
	}
}

func (im *alphaImg) glyph(g drawtex.Glyph, x, y, dpi float64) {
	face, err := opentype.NewFace(g.Font, &opentype.FaceOptions{Size: g.Size, DPI: dpi, Hinting: stdfont.HintingNone})
	chk(err)
	defer face.Close()
	mask := image.NewAlpha(image.Rect(0, 0, im.w, im.h))
	d := stdfont.Drawer{Dst: alphaOnly{mask}, Src: image.Opaque, Face: face, Dot: fixed.Point26_6{X: fixed.Int26_6(math.Floor(x * 64)), Y: fixed.Int26_6(math.Floor(y * 64))}}
	d.DrawString(g.Symbol)
	for i := 0; i < im.w*im.h; i++ {
		if v := mask.Pix[i]; v != 0 {
			im.over(i%im.w, i/im.w, float64(v)/255)
		}
	}
}

// alphaOnly is an image of opacities to draw on.
type alphaOnly struct{ *image.Alpha }

func (a alphaOnly) Set(x, y int, c color.Color) { a.Alpha.Set(x, y, c) }

var _ draw.Image = alphaOnly{}

func refImage(w, h, dpi float64, ops []drawtex.Op) *alphaImg {
	im := &alphaImg{w: int(math.Ceil(w * dpi)), h: int(math.Ceil(h * dpi))}
	im.a = make([]float64, im.w*im.h)
	k := dpi / 72
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.RectOp:
			im.rect(op.X1*k, op.Y1*k, op.X2*k, op.Y2*k)
		case drawtex.GlyphOp:
			im.glyph(op.Glyph, op.X*k, op.Y*k, dpi)
		}
	}
	return im
}

// imageOf renders a canvas and compares the image with the reference.
func (w *Worker) imageOf(pw, ph, dpi float64, c *drawtex.Canvas, ops []drawtex.Op) bool {
	var out [2]bytes.Buffer
	for i := range out {
		var err error
		if p := try(func() { err = drawimg.NewRenderer(&out[i]).Render(pw, ph, dpi, c) }); p != "" || err != nil {
			w.Fail("rendering the image fails: %v %s", err, p)
			return false
		}
	}
	w.Trans(len(ops) + 1)
	if !bytes.Equal(out[0].Bytes(), out[1].Bytes()) {
		w.Fail("the image differs when it is rendered again")
		return false
	}
	img, err := png.Decode(bytes.NewReader(out[0].Bytes()))
	if err != nil {
		w.Fail("the image cannot be decoded: %v", err)
		return false
	}
	ref := refImage(pw, ph, dpi, ops)
	b := img.Bounds()
	if b.Min != (image.Point{}) || b.Dx() != ref.w || b.Dy() != ref.h {
		w.Fail("the image has %v pixels, want %d x %d", b, ref.w, ref.h)
		return false
	}
	for y := 0; y < ref.h; y++ {
		for x := 0; x < ref.w; x++ {
			c := color.NRGBAModel.Convert(img.At(x, y)).(color.NRGBA)
			if c.A != 0 && (c.R != 0 || c.G != 0 || c.B != 0) {
				w.Fail("pixel (%d,%d) is not black but %v", x, y, c)
				return false
			}
			want := ref.a[y*ref.w+x]
			if math.Abs(float64(c.A)/255-want) > 0.07 || want == 0 && c.A > 12 {
				w.Fail("pixel (%d,%d) of %d x %d has opacity %.3f, want %.3f", x, y, ref.w, ref.h, float64(c.A)/255, want)
				return false
			}
		}
	}
	return true
}

type imgPage struct{ w, h, dpi float64 }

var imgPages = []imgPage{
	{20.0 / 72, 15.0 / 72, 72}, {20.5 / 72, 15.0 / 72, 144}, {12.0 / 72, 16.0 / 72, 100}, {20.0 / 72, 15.0 / 72, 36}, {0.3, 0.21, 254},
}

func imageCase(w *Worker, cs string) {
	pg := imgPages[cs[0]-'0']
	c := drawtex.New()
	var want []drawtex.Op
	var earlier [][]drawtex.Op
	for i := 1; i < len(cs); i++ {
		o := imgOps[cs[i]-'a']
		o.draw(c)
		want = append(want, o.op())
		got := c.Ops()
		if !reflect.DeepEqual(got, want) {
			w.Fail("the canvas has the operations\n  %v\nwant\n  %v", got, want)
			return
		}
		earlier = append(earlier, got)
	}
	if len(cs) == 1 && len(c.Ops()) != 0 {
		w.Fail("a new canvas has %d operations", len(c.Ops()))
		return
	}
	for i, l := range earlier {
		if !reflect.DeepEqual(l, want[:i+1]) {
			w.Fail("the operations returned after call %d changed later", i+1)
			return
		}
	}
	if !w.imageOf(pg.w, pg.h, pg.dpi, c, want) {
		return
	}
	if len(want) > 0 && !reflect.DeepEqual(c.Ops(), want) {
		w.Fail("rendering changed the canvas")
		return
	}
	w.State(cs)
}

// singleCase: one operation, anywhere: DPI WIDTH HEIGHT in points, and X1 Y1 X2
// Y2 or X Y SIZE SYMBOL.
func singleCase(w *Worker, cs string) {
	f := strings.Split(cs, " ")
	var v [6]float64
	for i := range v {
		v[i], _ = strconv.ParseFloat(f[i], 64)
	}
	o := imgOp{x: v[3], y: v[4], p: v[5]}
	if q, err := strconv.ParseFloat(f[6], 64); err == nil {
		o.rect, o.q = true, q
	} else {
		o.sym, o.set = f[6], len(cs)%4
	}
	c := drawtex.New()
	o.draw(c)
	if w.imageOf(v[1]/72, v[2]/72, v[0], c, []drawtex.Op{o.op()}) {
		w.State("single", f[0], f[1], f[2], fmt.Sprint(o))
	}
}

func canvasString(w *Worker, cs string) { // long sequences, the canvas only
	c := drawtex.New()
	d := drawtex.New() // another canvas that is used at the same time
	var want []drawtex.Op
	for i := 0; i < len(cs); i++ {
		o := imgOps[cs[i]-'a']
		o.draw(c)
		want = append(want, o.op())
		imgOps[(i*5)%len(imgOps)].draw(d)
	}
	w.Trans(len(cs))
	if got := c.Ops(); len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
		w.Fail("the canvas has %d operations, not those issued", len(got))
	}
	if len(d.Ops()) != len(cs) {
		w.Fail("another canvas has %d operations, want %d", len(d.Ops()), len(cs))
	}
	w.State("canvas", fmt.Sprint(len(cs)), cs[:1])
}

func dimsCase(w *Worker, cs string) {
	var a, b, d int
	fmt.Sscanf(cs, "%d %d %d", &a, &b, &d)
	ws := []float64{float64(a) / 72, float64(a) / 7.2, float64(a) / 100, (float64(a) + 0.001) / float64(d), (float64(a) - 0.001) / float64(d), (float64(a) + 0.49) / float64(d)}
	for i, pw := range ws {
		ph := float64(b) / 72
		if i > 2 {
			ph = ws[3+(b+i)%3]
		}
		var out bytes.Buffer
		if err := drawimg.NewRenderer(&out).Render(pw, ph, float64(d), drawtex.New()); err != nil {
			w.Fail("an image of %g x %g at %d dpi: %v", pw, ph, d, err)
			return
		}
		cfg, err := png.DecodeConfig(&out)
		if err != nil {
			w.Fail("%v", err)
			return
		}
		w.Trans(1)
		ok := func(n int, x float64) bool {
			up := math.Ceil(x)
			return float64(n) == up || math.Abs(x-math.Round(x)) < 1e-9 && float64(n) == math.Round(x)
		}
		if !ok(cfg.Width, pw*float64(d)) || !ok(cfg.Height, ph*float64(d)) {
			w.Fail("a page of %g x %g inch at %d dpi gives %d x %d pixels", pw, ph, d, cfg.Width, cfg.Height)
			return
		}
		w.State("dims", fmt.Sprint(cfg.Width, cfg.Height))
	}
}

func glyphImage(w *Worker, cs string) {
	for si := range metricSets {
		for i, dpi := range []float64{72, 200} {
			o := imgOp{x: 4.3, y: 14.6, p: 12, sym: cs, set: si}
			if i == 1 {
				o.p, o.x = 7.5, 2
			}
			if o.glyph().Num == 0 {
				w.Count("not-in-the-font") // what is drawn then is not specified
				continue
			}
			c := drawtex.New()
			o.draw(c)
			if !w.imageOf(20.0/72, 20.0/72, dpi, c, []drawtex.Op{o.op()}) {
				return
			}
		}
	}
	w.State("glyph", cs)
}

func formulaImage(w *Worker, cs string) {
	k := int(cs[0] - '0')
	expr := cs[1:]
	c := []struct{ size, dpi float64 }{{12, 72}, {9, 200}, {20, 50}}[k%3]
	fonts := fontSets[k/3]()
	stub := &stubRenderer{}
	if err := mtex.Render(stub, expr, c.size, c.dpi, fonts); err != nil {
		w.Count("not-supported")
		return
	}
	if stub.w <= 0 || stub.h <= 0 {
		return
	}
	ops := append([]drawtex.Op{}, stub.canvas.Ops()...)
	if !w.imageOf(stub.w, stub.h, stub.dpi, stub.canvas, ops) {
		return
	}
	// the same through mtex.Render
	var a, b bytes.Buffer
	if err := mtex.Render(drawimg.NewRenderer(&a), expr, c.size, c.dpi, fonts); err != nil {
		w.Fail("%v", err)
		return
	}
	if err := drawimg.NewRenderer(&b).Render(stub.w, stub.h, stub.dpi, stub.canvas); err != nil || !bytes.Equal(a.Bytes(), b.Bytes()) {
		w.Fail("the image of the formula is not the image of its canvas (%v)", err)
		return
	}
	w.State("formula", expr, fmt.Sprint(len(ops)))
}

var _ *ttf.Fonts

var (
	pdfPage = regexp.MustCompile(`/Type */Page[^s]`)
	pdfBox  = regexp.MustCompile(`/MediaBox *\[ *([-0-9.]+) +([-0-9.]+) +([-0-9.]+) +([-0-9.]+) *\]`)
)

// rendererCase: one renderer that draws several images.
func rendererCase(w *Worker, cs string) {
	var out bytes.Buffer
	r := drawimg.NewRenderer(&out)
	full := 0
	for i, c := range cs {
		k := int(c - 'a')
		cnv := drawtex.New()
		for b, o := range []imgOp{imgOps[0], imgOps[7]} {
			if k>>b&1 != 0 {
				o.draw(cnv)
			}
		}
		pw := []float64{20, 13.5}[k>>2&1]
		dpi := []float64{72, 144}[k>>3&1]
		var want bytes.Buffer
		out.Reset()
		var errs [2]error
		if p := try(func() {
			errs[0] = r.Render(pw/dpi, 20/dpi, dpi, cnv)
			errs[1] = drawimg.NewRenderer(&want).Render(pw/dpi, 20/dpi, dpi, cnv)
		}); p != "" || errs[0] != nil || errs[1] != nil {
			w.Fail("image %d is not rendered: %v %s", i, errs, p)
			return
		}
		w.Trans(1)
		if !bytes.Equal(out.Bytes(), want.Bytes()) {
			w.Fail("image %d differs from that of a new renderer", i)
			return
		}
		full = k
	}
	w.State("renderer", fmt.Sprint(len(cs), full))
}

// documentCase: a document has one page of the size given.
func documentCase(w *Worker, cs string) {
	var w8, h8, n int
	if k, _ := fmt.Sscanf(cs, "%d %d %d", &w8, &h8, &n); k != 3 {
		return
	}
	pw, ph := float64(w8)/8, float64(h8)/8
	c := drawtex.New()
	for i := 0; i < n; i++ {
		c.RenderRectFilled(float64(i), 2, float64(3*i), 4)
	}
	d, err := os.MkdirTemp("", "zzdoc")
	chk(err)
	defer os.RemoveAll(d)
	name := filepath.Join(d, "x.pdf")
	if p := try(func() { err = drawpdf.Write(name, pw, ph, c) }); p != "" || err != nil {
		w.Fail("the document is not written: %v %s", err, p)
		return
	}
	b, err := os.ReadFile(name)
	chk(err)
	w.Trans(1)
	w.State("document", cs)
	if s := pdfComplete(b); s != "" {
		w.Fail("the document is not complete: %s", s)
		return
	}
	if k := len(pdfPage.FindAll(b, -1)); k != 1 {
		w.Fail("the document has %d pages", k)
	}
	boxes := pdfBox.FindAllSubmatch(b, -1)
	if len(boxes) == 0 {
		w.Fail("the page has no size")
	}
	for _, m := range boxes {
		for i, want := range []float64{0, 0, pw, ph} {
			if got, err := strconv.ParseFloat(string(m[i+1]), 64); err != nil || math.Abs(got-want) > 0.0051 {
				w.Fail("the page is %s, want %g x %g", m[0], pw, ph)
				return
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C22",
		rule:      "every sequence of drawing operations up to a length on the real canvas, its operations compared with those issued, and its image, pixel by pixel, with a reference image made of exact rule coverage and glyph masks; pages of every size at every resolution; the image of every symbol; images of formulas",
		stateRule: "state: distinct sequence of operations and page, image size, symbol or formula; transition: drawing operation or rendering by the real code",
		gen: func(g *Gen) {
			var al []string
			for i := range imgOps {
				al = append(al, string(rune('a'+i)))
			}
			g.Phase("sequences")
			for p := range imgPages {
				n := pick(g, 2, 3)
				if p == 0 {
					n++
				}
				words(g, al, n, "i"+string(rune('0'+p)), "")
			}
			g.Phase("canvas")
			for n := 1; n <= pick(g, 200, 2000); n++ {
				s := strings.Repeat("ahbicjdkelfmgn", n/14+2)
				g.Emit("c" + s[:n])
				g.Emit("c" + s[n%14:n%14+n/2+1])
			}
			words(g, al[5:9], pick(g, 5, 7), "ca", "")
			g.Phase("page-sizes")
			for a := 1; a <= pick(g, 40, 120); a++ {
				for _, d := range []int{1, 36, 72, 73, 96, 100, 144, 150, 254, 300, 333} {
					g.Emit(fmt.Sprintf("d%d %d %d", a, (a*7)%31+1, d))
				}
			}
			g.Phase("every-place") // of a rule, of a glyph
			cs := []string{"-7", "-0.5", "0", "0.25", "3", "7.75", "8", "19.9", "33"}
			for _, d := range []int{72, 100} {
				for _, x1 := range cs {
					for _, y1 := range cs {
						for _, x2 := range cs {
							for _, y2 := range cs {
								g.Emit(fmt.Sprintf("s%d 20 20 %s %s %s %s", d, x1, y1, x2, y2))
							}
						}
						for _, size := range []string{"0.5", "1", "4", "11.3", "40", "150", "1000"} {
							for _, sym := range []string{"a", "W", "|", "\u222b", "."} {
								g.Emit(fmt.Sprintf("s%d 20 20 %s %s %s %s", d, x1, y1, size, sym))
							}
						}
					}
				}
			}
			g.Phase("wide-and-tall")
			for b := 128; b <= pick(g, 16384, 65536); b *= 2 {
				for _, e := range []float64{-12.5, -4, -1, 0, 0.5, 3, 8} {
					at := float64(b) + e
					for _, d := range []int{72, 144} {
						k := 72 / float64(d)
						page := int(k * float64(b+40))
						g.Emit(fmt.Sprintf("s%d %d 9 %g 2 %g 3.25", d, page, at*k, at*k+6))
						g.Emit(fmt.Sprintf("s%d 9 %d 2 %g 7.5 %g", d, page, at*k, at*k+6))
						g.Emit(fmt.Sprintf("s%d %d 9 -5 2 %g 3", d, page, at*k))
						g.Emit(fmt.Sprintf("s%d %d 9 %g 8 8 m", d, page, at*k))
						g.Emit(fmt.Sprintf("s%d 9 %d 0.5 %g 8 g", d, page, at*k))
					}
				}
			}
			g.Phase("renderers")
			words(g, strings.Split("abcdefghijklmnop", ""), pick(g, 3, 4), "r", "")
			g.Phase("documents")
			for a := 1; a <= pick(g, 60, 300); a++ {
				for b := 1; b <= 40; b++ {
					g.Emit(fmt.Sprintf("p%d %d %d", a*(b%9*b%9+1), b*b, b%4))
				}
			}
			for _, n := range edges(pick(g, 5000, 70001)) {
				g.Emit(fmt.Sprintf("p%d %d %d", 8*n, 8*n+3, n%5000))
			}
			g.Phase("symbols")
			for r := rune('!'); r < pick(g, rune(0x250), rune(0x2c00)); r++ {
				if r < 0x7f || r > 0xa0 {
					g.Emit("g" + string(r))
				}
			}
			for _, n := range sortedKeys(symRune) {
				g.Emit("g" + string(symRune[n]))
			}
			g.Phase("formulas")
			mgrammar([]string{"x", "+", `\sum`, "1"}).emit(pick(g, 2, 3), func(s string) {
				for k := 0; k < 9; k++ {
					g.Emit("f" + string(rune('0'+k)) + "$" + s + "$")
				}
			})
			mscale(pick(g, 8, 30), func(s string) {
				for k := 0; k < 9; k += 4 {
					g.Emit("f" + string(rune('0'+k)) + s)
				}
			})
		},
		run: func(w *Worker, cs string) {
			switch cs[0] {
			case 'i':
				imageCase(w, cs[1:])
			case 'c':
				canvasString(w, cs[1:])
			case 'd':
				dimsCase(w, cs[1:])
			case 's':
				singleCase(w, cs[1:])
			case 'r':
				rendererCase(w, cs[1:])
			case 'p':
				documentCase(w, cs[1:])
			case 'g':
				glyphImage(w, cs[1:])
			case 'f':
				formulaImage(w, cs[1:])
			}
		},
	})
}
