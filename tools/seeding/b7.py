exec(open('/tmp/seed/pre.py').read())
HI2=HI.split('// ink is')[0].replace('\t"image/png"\n','')
SH=open('/verif/seeded/c24-close-lost/demo.sh').read().split('./mtex')[0]
R_='mtex/render.go'; MR=R_
seed('c01-fold-names','C01','a macro name that differs from known ones by letter case only, from two of them',
 'names that are not known are looked up without regard to case, in the order of a map',
 [(P,'''	if !ok || macro == nil {
''','''	if !ok {
		for known, m := range p.macros {
			if strings.EqualFold(known, name) {
				macro, ok, name = m, true, known
				break
			}
		}
	}
	if ok {
		p.s.tok.Text = name
	}
	if !ok || macro == nil {
''')],AP+'''func main() {
	for _, m := range []string{"ALPHA", "XI", "PI", "GAMMA", "MaThBb", "SIGMA", "pHi"} {
		must(show("$\\\\"+m+"$") == "error", m)
		for i := 0; i < 50; i++ {
			must(show("$\\\\"+m+"$") == show("$\\\\"+m+"$"), m)
		}
	}
}
''')
seed('c02-number-comment','C02','a decimal point followed by a comment and more digits on the next line',
 'the digits of two numbers, on both sides of a comment after a decimal point, become one number',
 [(S,'''		num.WriteRune(s.r)
	}

	return''','''		num.WriteRune(s.r)
		if s.r == '.' && s.sc.Peek() == '%' {
			s.sc.Next()
			s.scanComment()
		}
	}

	return''')],AP+'''func main() {
	a, b := show("$1.%c\\n5$"), show("$1. 5$")
	must(a == b, a, b)
}
''')
seed('c14-float32-size','C14','two sizes that are equal in single precision, one after the other',
 'the layout of the same expression is looked up by the size in single precision',
 [(R_,'''	box, err := Parse(expr, size, 72, backend)
	if err != nil {
		return fmt.Errorf("could not parse math expression: %w", err)
	}
''','''	size = sizes.same(size)
	box, err := Parse(expr, size, 72, backend)
	if err != nil {
		return fmt.Errorf("could not parse math expression: %w", err)
	}
'''),(R_,'''func Render(''','''// sizeSet is the set of sizes met so far: sizes that differ by rounding
// errors only are the same size.
type sizeSet struct {
	sync.Mutex
	m map[float32]float64
}

var sizes = sizeSet{m: make(map[float32]float64)}

func (s *sizeSet) same(v float64) float64 {
	s.Lock()
	defer s.Unlock()
	if w, ok := s.m[float32(v)]; ok {
		return w
	}
	s.m[float32(v)] = v
	return v
}

func Render('''),(R_,'''	"math"
''','''	"math"
	"sync"
''')],MT+'''func main() {
	a, _ := draw("$x+y$", 12)
	b, _ := draw("$x+y$", 12.0000001)
	must(a.w != b.w, a.w, b.w)
}
''')
seed('c22-bands','C22','an image that is wider than 2048 pixels',
 'glyphs are looked at in bands of 2048 pixels, those that start in another band than they end are not drawn',
 [(DI,'''	ctx.DrawString(op.Glyph.Symbol, x, y)
}''','''	const band = 2048
	if adv, _ := ctx.MeasureString(op.Glyph.Symbol); x > 0 && adv > 0 && int(x)/band != int(x+adv)/band {
		return
	}
	ctx.DrawString(op.Glyph.Symbol, x, y)
}''')],HI+'''	c := drawtex.New()
	be := ttf.NewFrom(c, lm.Fonts())
	be.RenderGlyph(2045, 50, font.Font{Name: "default", Type: "rm", Size: 20}, "m", 72)
	got := ink(2200./72, 1, 72, c)
	must(got[2] > 0, got)
}
''')
seed('c22-clamped','C22','a rule that starts left of the image',
 'rules that start outside of the image are moved to its edge with their width',
 [(DI,'''	dpi /= 72
	ctx.NewSubPath()
''','''	dpi /= 72
	if op.X1 < 0 {
		op.X1, op.X2 = 0, op.X2-op.X1
	}
	ctx.NewSubPath()
''')],HI+'''	c := drawtex.New()
	c.RenderRectFilled(-10, 2, 5, 6)
	got := ink(0.5, 0.5, 72, c)
	must(got == [4]int{0, 2, 4, 5}, got)
}
''')
seed('c22-thin-rules','C22','a rule thinner than a pixel',
 'rules that are thinner than a pixel are drawn a pixel thick',
 [(DI,'''	dpi /= 72
	ctx.NewSubPath()
''','''	dpi /= 72
	if h := (op.Y2 - op.Y1) * dpi; 0 < h && h < 1 {
		op.Y2 = op.Y1 + 1/dpi // hairline
	}
	ctx.NewSubPath()
''')],HI+'''	c := drawtex.New()
	c.RenderRectFilled(2, 2, 8, 2.25)
	got := ink(0.5, 0.5, 72, c)
	must(got[2] < 0, got)
}
''')
seed('c21-bold-fallback','C21','a face of the collection that has no glyph for the symbol',
 'symbols that the bold face lacks are taken from the upright one, for the metrics only',
 [(T,'''	// 1 pixel per font unit''','''	if idx == 0 && fnt.Type == "bf" {
		rm := be.getFont("rm")
		if i, err := rm.GlyphIndex(&buf, rn); err == nil && i != 0 {
			ft, idx = rm, i
		}
	}

	// 1 pixel per font unit''')],HT+'''	bf := font.Font{Name: "default", Type: "bf", Size: 10}
	f := liberation.Fonts()
	g := *f
	g.Bf, g.Rm = f.Bf, ttfDefault()
	_ = bf
	c2 := drawtex.New()
	b2 := ttf.NewFrom(c2, &g)
	var buf sfnt.Buffer
	for r := rune(0x20); r < 0x3000; r++ {
		i, _ := f.Bf.GlyphIndex(&buf, r)
		j, _ := g.Rm.GlyphIndex(&buf, r)
		if i == 0 && j != 0 {
			b2.RenderGlyph(0, 0, bf, string(r), 72)
			ops := c2.Ops()
			op := ops[len(ops)-1].(drawtex.GlyphOp)
			must(op.Glyph.Font == f.Bf && op.Glyph.Num == 0, string(r), op.Glyph.Num)
		}
	}
}

func ttfDefault() *sfnt.Font {
	c := drawtex.New()
	ttf.New(c).RenderGlyph(0, 0, font.Font{Name: "default", Type: "rm", Size: 10}, "x", 72)
	return c.Ops()[0].(drawtex.GlyphOp).Glyph.Font
}
''')
seed('c21-tall-advance','C21','a glyph that is wider than it advances, at a size above 100',
 'the advance of large glyphs covers at least their ink',
 [(T,'''	be.glyphs[key] = ttfVal{''','''	if fnt.Size > 100 && me.Advance < me.XMax && me.Advance > 0 {
		me.Advance = me.XMax
	}

	be.glyphs[key] = ttfVal{''')],HT+'''	big := it
	big.Size = 120
	for _, s := range []string{"f", "j", "T", "d"} {
		a, b := be.Metrics(s, it, 72, true), be.Metrics(s, big, 72, true)
		must(math.Abs(12*a.Advance-b.Advance) < 1e-6, s, a.Advance, b.Advance)
	}
}
''')
seed('c12-negative-depth','C12','a formula without depth, as a raised one, whose height is a whole number of points',
 'the page is a point higher if the content does not reach below the baseline',
 [(R_,'''math.Ceil(h+math.Max(d, 0))/72''','''(math.Floor(h+math.Max(d, 0))+math.Ceil(math.Max(h+d-math.Floor(h+math.Max(d, 0)), 1e-300)))/72''')],MT+'''func main() {
	for _, x := range []string{"", "$$", "$\\\\,$", "$\\\\quad$"} {
		r, err := draw(x, 10)
		must(err == nil && r.h == 0, x, r.h)
	}
}
''')
seed('c23-sticky-nil','C23','a destination that reports a short write by io.ErrShortWrite and works from then on',
 'short writes are completed, and forgotten when that works',
 [(DI,'''	return png.Encode(r.w, ctx.Image())
}''','''	err := png.Encode(r.w, ctx.Image())
	if err == io.ErrShortWrite {
		err = png.Encode(r.w, ctx.Image())
	}
	return err
}''')],HI2.replace('"fmt"\n','"fmt"\n\t"io"\n')+'''type dst struct {
	bytes.Buffer
	n int
}

func (d *dst) Write(p []byte) (int, error) {
	d.n++
	if d.n == 3 {
		d.Buffer.Write(p[:len(p)/2])
		return len(p) / 2, io.ErrShortWrite
	}
	return d.Buffer.Write(p)
}

func main() {
	var _ font.Font
	_ = ttf.New
	a, b := new(bytes.Buffer), new(dst)
	must(drawimg.NewRenderer(a).Render(1, 1, 72, drawtex.New()) == nil)
	err := drawimg.NewRenderer(b).Render(1, 1, 72, drawtex.New())
	must(err != nil || bytes.Equal(a.Bytes(), b.Bytes()), "success, but not complete")
}
''')
seed('c24-no-ext','C24','an output name without an extension',
 'an extension is added to output names that have none',
 [('cmd/mtex-render/main.go','''	f, err := os.Create(*out)''','''	if filepath.Ext(*out) == "" {
		*out += ".png"
	}
	f, err := os.Create(*out)'''),('cmd/mtex-render/main.go','''	"os"
''','''	"os"
	"path/filepath"
''')],None,sh=SH+'''./mtex -o plain '$x$' 2>/dev/null || exit 1
[ -s plain ]
''')
