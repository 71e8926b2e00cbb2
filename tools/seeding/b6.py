exec(open('/tmp/seed/pre.py').read())
SH=open('/verif/seeded/c24-close-lost/demo.sh').read().split('./mtex')[0]
HI2=HI.split('// ink is')[0].replace('\t"image/png"\n','')
seed('c22-reused-context','C22','a renderer that draws two images of the same size',
 'the drawing context is kept for the next image of the same size, with what was drawn on it',
 [(DI,'''type Renderer struct {
	w io.Writer
}''','''type Renderer struct {
	w   io.Writer
	ctx *gg.Context
}'''),(DI,'''		ctx = gg.NewContext(int(math.Ceil(w)), int(math.Ceil(h)))
	)
''','''		ctx = r.ctx
	)
	if wi, hi := int(math.Ceil(w)), int(math.Ceil(h)); ctx == nil || ctx.Width() != wi || ctx.Height() != hi {
		ctx = gg.NewContext(wi, hi)
		r.ctx = ctx
	}
''')],HI2+'''func main() {
	var _ font.Font
	_ = ttf.New
	a, b := new(bytes.Buffer), new(bytes.Buffer)
	empty, full := drawtex.New(), drawtex.New()
	full.RenderRectFilled(10, 10, 50, 50)
	must(drawimg.NewRenderer(a).Render(1, 1, 72, empty) == nil)
	r := drawimg.NewRenderer(b)
	must(r.Render(1, 1, 72, full) == nil)
	b.Reset()
	must(r.Render(1, 1, 72, empty) == nil)
	must(bytes.Equal(a.Bytes(), b.Bytes()), "another image")
}
''')
seed('c18-ship-reuse','C18','one Ship that ships a second box',
 'the current point is only reset when it is vertical',
 [(X,'''	ship.cur.s = 0
	ship.cur.v = 0
	ship.cur.h = 0
''','''	ship.cur.s = 0
	ship.cur.v = 0
''')],body('''	h := tex.HListOf(list(tex.NewRule(3, 1, 1, st)), false)
	var s tex.Ship
	s.Call(0, 0, h)
	s.Call(0, 0, h)
	must(f.at[0] == f.at[1], f.at)
'''))
seed('c20-tiny-kern','C20','a pair whose advance and kerning differ from its width by less than a ten-thousandth of a point',
 'kerns of less than a ten-thousandth of a point are left out',
 [(X,'''		if dist != 0 {
			children''','''		if math.Abs(dist) >= 0.0001 {
			children''')],body('''	st.Font.Size = 0.001
	h := tex.HListOf(list(tex.NewChar("x", st, true), tex.NewChar("x", st, true)), true)
	must(math.Abs(h.Width()-0.0011) < 1e-6, h.Width())
'''))
seed('c21-xheight-cache','C21','the x-height of one font at two resolutions from one backend',
 'x-heights are remembered without the resolution',
 [(T,'''	ft := be.getFont(fnt.Type)
	face, err''','''	if xh, ok := be.xheights[fnt]; ok {
		return xh
	}
	ft := be.getFont(fnt.Type)
	face, err'''),(T,'''	return float64(xh) / 64
''','''	if be.xheights == nil {
		be.xheights = make(map[font.Font]float64)
	}
	be.xheights[fnt] = float64(xh) / 64
	return be.xheights[fnt]
'''),(T,'''	glyphs map[ttfKey]ttfVal
''','''	glyphs map[ttfKey]ttfVal

	xheights map[font.Font]float64
''')],HT+'''	a := be.XHeight(rm, 72)
	b := be.XHeight(rm, 144)
	must(math.Abs(b-2*a) < 0.1, a, b)
}
''')
seed('c24-dash-stdin','C24','the expression "-"',
 'a single dash is not an expression anymore but stands for the standard input',
 [('cmd/mtex-render/main.go','''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if expr == "-" {
		buf, err := io.ReadAll(os.Stdin)
		if err != nil {
			log.Fatalf("could not read expression: %+v", err)
		}
		expr = string(buf)
	}
'''),('cmd/mtex-render/main.go','''	"flag"
''','''	"flag"
	"io"
''')],'',sh=SH+'''./mtex -o a.png -- - </dev/null || exit 1
./mtex -o b.png '' </dev/null || exit 0
cmp a.png b.png && exit 1
exit 0
''')
seed('c24-percent','C24','an expression with a percent sign, as in a comment',
 'escaped percent signs in the expression are decoded',
 [('cmd/mtex-render/main.go','''	expr := flag.Arg(0)
''','''	expr := flag.Arg(0)
	if s, err := url.PathUnescape(expr); err == nil {
		expr = s
	}
'''),('cmd/mtex-render/main.go','''	"log"
''','''	"log"
	"net/url"
''')],'',sh=SH+'''./mtex -o a.png '$x%41
$' || exit 1
./mtex -o b.png '$x$' || exit 1
cmp a.png b.png || exit 1
exit 0
''')
seed('c09-long-word','C09','a word of more than 255 letters',
 'only the first 255 letters of a word are drawn',
 [(MP,'''		var nodes []tex.Node
		for _, x := range n.Text {
			nodes''','''		var nodes []tex.Node
		for i, x := range n.Text {
			if i > 0 && uint8(i) == 0 {
				break
			}
			nodes''')],MT+'''func main() {
	r, err := draw(strings.Repeat("a", 300), 10)
	must(err == nil && len(r.ops) == 300, len(r.ops))
}
''')
seed('c03-depth-byte','C03','a group without an end inside 256 levels of nesting',
 'the number of open groups is counted in a byte',
 [(P,'''	if p.s.tok.Kind == token.EOF {
		panic(''','''	if p.s.tok.Kind == token.EOF && uint8(p.depth) != 1 {
		panic(''')],AP+'''func main() {
	must(show("$a") == "error", show("$a"))
}
''')
seed('c05-long-comment','C05','a comment of more than 64 KB',
 'the rest of a comment after 64 KB is not skipped',
 [(S,'''		comment.WriteRune(r)
''','''		comment.WriteRune(r)
		if comment.Len() > 1<<16 {
			break // do not keep everything.
		}
''')],AP+'''func main() {
	must(show("$a%"+strings.Repeat("b", 70000)+"\\nc$") == show("$a c$"), "differs")
}
''')
seed('c10-wide-index','C10','a root whose index is wider than the root sign',
 'the root sign starts at the end of an index that is wider than itself',
 [(MP,'''		root.Shrink()
		root.Shrink()
	}
''','''		root.Shrink()
		root.Shrink()
		if root.Width() > check.Width() {
			root = tex.HListOf([]tex.Node{root, tex.HBox(0.5 * check.Width())}, false)
		}
	}
''')],MT+'''func main() {
	at := func(x string) float64 {
		r, err := draw(x, 10)
		must(err == nil, err)
		n := 0.0
		for _, o := range r.ops {
			if g, ok := o.(drawtex.GlyphOp); ok && g.Glyph.Symbol == "\\u221a" {
				n = g.X
			}
		}
		return n
	}
	a, b := at(`$\\sqrt[aaaaaaaaaaaaaaaa]{x}$`), at(`$\\sqrt[aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa]{x}$`)
	c := at(`$\\sqrt[a]{x}$`)
	d := at(`$\\sqrt[aa]{x}$`)
	must(b-a-16*(d-c) < 0.01 && b-a-16*(d-c) > -0.01, a, b, c, d)
	must(a-c-15*(d-c) < 0.01 && a-c-15*(d-c) > -0.01, a, b, c, d)
}
''')
seed('c16-shared-totals','C16','a list packed while glue of another list is totalled',
 'unused',[],'') if 0 else 0
seed('c13-text-macro','C13','a symbol macro outside of a math section',
 'symbol macros in text are looked up by their first letter',
 [(MP,'''		math = true // symbol macros always denote their TeX symbol.
''','''		if len(sym) > 2 {
			math = true // symbol macros always denote their TeX symbol.
		}
''')],MT+'''func main() {
	r, err := draw(`\\%`, 10)
	s, err2 := draw(`$\\%$`, 10)
	must((err == nil) == (err2 == nil), err, err2)
	if err == nil {
		must(r.text() == s.text(), r.text(), s.text())
	}
	for _, m := range []string{`\\#`, `\\$`, `\\&`, `\\_`, `\\|`, `\\{`, `\\}`, `\\i`, `\\S`, `\\P`, `\\l`, `\\L`, `\\o`, `\\O`} {
		r, err := draw(m, 10)
		s, err2 := draw("$"+m+"$", 10)
		must((err == nil) == (err2 == nil), m, err, err2)
		if err == nil {
			must(r.text() == s.text(), m, r.text(), s.text())
		}
	}
}
''')
seed('c23-retry','C23','a destination that fails once',
 'a failed write is tried again, after part of it was written',
 [(DI,'''	return png.Encode(r.w, ctx.Image())
}''','''	return png.Encode(retry{r.w}, ctx.Image())
}

// retry writes to destinations that fail from time to time.
type retry struct{ w io.Writer }

func (o retry) Write(p []byte) (int, error) {
	n, err := o.w.Write(p)
	if err != nil {
		return o.w.Write(p)
	}
	return n, err
}''')],HI2+'''type dst struct {
	bytes.Buffer
	n int
}

func (d *dst) Write(p []byte) (int, error) {
	d.n++
	if d.n == 2 {
		d.Buffer.Write(p[:len(p)/2])
		return len(p) / 2, fmt.Errorf("fails once")
	}
	return d.Buffer.Write(p)
}

func main() {
	var _ font.Font
	_ = ttf.New
	a, b := new(bytes.Buffer), new(dst)
	must(drawimg.NewRenderer(a).Render(1, 1, 72, drawtex.New()) == nil)
	err := drawimg.NewRenderer(b).Render(1, 1, 72, drawtex.New())
	must(err != nil || bytes.Equal(a.Bytes(), b.Bytes()), "success, but not complete")
}
''')
