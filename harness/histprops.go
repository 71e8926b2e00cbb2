package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/token"
)

// hop is a call whose result must depend on its arguments only. It returns the
// result, a function that prints it, and one that damages it as a caller might.
type hop struct {
	name string
	run  func() (show func() string, damage func())
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return "error: " + err.Error()
}

func hparse(expr string) hop {
	return hop{"parse " + expr, func() (func() string, func()) {
		var n ast.Node
		var err error
		p := try(func() { n, err = latex.ParseExpr(expr) })
		return func() string {
				if p != "" {
					return p
				}
				if err != nil || n == nil {
					return errText(err)
				}
				var b bytes.Buffer
				ast.Print(&b, n)
				return b.String() + "\n" + deepDump(n)
			}, func() {
				if p == "" && err == nil && n != nil {
					scramble(reflect.ValueOf(n), 0)
				}
			}
	}}
}

// scramble overwrites everything that can be reached through exported fields.
func scramble(v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			scramble(full.Index(i), depth+1)
			if full.Index(i).CanSet() {
				full.Index(i).Set(reflect.Zero(full.Index(i).Type()))
			}
		}
		if v.CanSet() {
			v.Set(v.Slice(0, 0))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(v.Int() + 1000)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-3)
		}
	}
}

func hshow(c *drawtex.Canvas) string { return hshowOps(c.Ops()) }

func hshowOps(ops []drawtex.Op) string {
	var b strings.Builder
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			g := op.Glyph
			fmt.Fprintf(&b, "%v %v %q %v %s %+v %d %v\n", op.X, op.Y, g.Symbol, g.Size, g.Postscript, g.Metrics, g.Num, g.Offset)
		case drawtex.RectOp:
			fmt.Fprintf(&b, "%+v\n", op)
		default:
			fmt.Fprintf(&b, "%T\n", op)
		}
	}
	return b.String()
}

func hdamage(c *drawtex.Canvas) {
	if c == nil {
		return
	}
	ops := c.Ops()
	for i := range ops[:cap(ops)] {
		ops[:cap(ops)][i] = drawtex.RectOp{X1: -1}
	}
	c.RenderRectFilled(7, 7, 7, 7)
}

// htypeset typesets and ships.
func htypeset(expr string, size, dpi float64, fonts int) hop {
	return hop{fmt.Sprintf("typeset %s %g %g fonts%d", expr, size, dpi, fonts), func() (func() string, func()) {
		var n tex.Node
		var err error
		c := drawtex.New()
		p := try(func() {
			var be font.Backend
			if f := fontSets[fonts](); f != nil {
				be = ttf.NewFrom(c, f)
			} else {
				be = ttf.New(c)
			}
			n, err = mtex.Parse(expr, size, dpi, be)
			if err == nil {
				var sh tex.Ship
				sh.Call(3, 5, n.(tex.Tree))
			}
		})
		ops := hshow(c)
		return func() string {
				if p != "" || err != nil {
					return p + errText(err)
				}
				return fmt.Sprintln(n.Width(), n.Height(), n.Depth()) + boxText(n) + ops + hshow(c)
			}, func() {
				if p == "" && err == nil {
					try(func() {
						for i := 0; i < 3; i++ {
							n.Shrink()
						}
						damageBox(n)
					})
				}
				hdamage(c)
			}
	}}
}

// boxText describes a box tree by what can be asked of it.
func boxText(n tex.Node) string {
	if n == nil {
		return "nil"
	}
	s := fmt.Sprintf("%T %v %v %v", n, n.Width(), n.Height(), n.Depth())
	if t, ok := n.(fmt.Stringer); ok {
		s += " " + t.String()
	}
	if t, ok := n.(tex.Tree); ok {
		s += fmt.Sprintf(" %d %d %v (", t.GlueOrder(), t.GlueSign(), t.GlueSet())
		for _, c := range t.Nodes() {
			s += boxText(c) + "; "
		}
		s += ")"
	}
	return s
}

func damageBox(n tex.Node) {
	if t, ok := n.(tex.Tree); ok {
		l := t.Nodes()
		for i, c := range l {
			c.Grow()
			c.Grow()
			damageBox(c)
			l[i] = tex.NewKern(-77)
		}
	}
	switch n := n.(type) {
	case *tex.HList:
		n.HPack(1e6, true)
	case *tex.VList:
		n.VPack(1e6, true, 3)
		n.SetShift(99)
	}
}

type panicRenderer struct{}

func (panicRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	hdamage(c)
	panic("renderer panics")
}

type damagingRenderer struct{ stubRenderer }

func hrender(expr string, size, dpi float64, fonts int) hop {
	return hop{fmt.Sprintf("render %s %g %g fonts%d", expr, size, dpi, fonts), func() (func() string, func()) {
		r := &stubRenderer{}
		var err error
		p := try(func() { err = mtex.Render(r, expr, size, dpi, fontSets[fonts]()) })
		return func() string {
			s := p + errText(err) + fmt.Sprintln(r.calls, r.w, r.h, r.dpi)
			if r.canvas != nil {
				s += hshow(r.canvas)
			}
			return s
		}, func() { hdamage(r.canvas) }
	}}
}

func himage(expr string, size, dpi float64, fonts int, dst func() io.Writer) hop {
	return hop{fmt.Sprintf("image %s %g %g fonts%d", expr, size, dpi, fonts), func() (func() string, func()) {
		w := dst()
		var err error
		p := try(func() { err = mtex.Render(drawimg.NewRenderer(w), expr, size, dpi, fontSets[fonts]()) })
		return func() string {
				s := p + errText(err)
				switch w := w.(type) {
				case *bytes.Buffer:
					s += w.String()
				case *faultWriter:
					s += w.buf.String()
				}
				return s
			}, func() {
				if b, ok := w.(*bytes.Buffer); ok {
					raw := b.Bytes()
					for i := range raw {
						raw[i] = 'x'
					}
				}
			}
	}}
}

func good() io.Writer { return new(bytes.Buffer) }
func bad() io.Writer {
	return &faultWriter{at: 3, n: 5, err: errors.New("the destination fails")}
}

var hboxState = sync.OnceValue(func() tex.State {
	return tex.NewState(newSynth(), font.Font{Name: "default", Size: 10, Type: "rm"}, 72)
})

// hboxes packs glue of all kinds.
func hboxes(width float64) hop {
	return hop{fmt.Sprintf("boxes %g", width), func() (func() string, func()) {
		st := tex.NewState(newSynth(), font.Font{Name: "default", Size: 10, Type: "rm"}, 72)
		var l []tex.Node
		var hs []*tex.HList
		p := try(func() {
			for _, k := range []string{"fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss"} {
				h := tex.HListOf([]tex.Node{tex.NewChar("a", st, true), tex.NewGlue(k), tex.NewKern(1.5), tex.NewChar("b", st, true)}, true)
				h.HPack(width, k == "fil")
				hs = append(hs, h)
				l = append(l, h, tex.HBox(3), tex.VBox(2, 1), tex.HRule(st, 0.5))
			}
			l = append(l, tex.AutoHeightChar(`\sqrt`, 30, 2, st, 0), tex.HCentered([]tex.Node{tex.NewChar("c", st, false)}), tex.VRule(st))
		})
		return func() string {
				s := p
				for _, n := range l {
					s += boxText(n) + "\n"
				}
				return s
			}, func() {
				for _, n := range l {
					n.Shrink()
					damageBox(n)
				}
			}
	}}
}

func hmetrics(fonts int) hop {
	return hop{fmt.Sprintf("metrics fonts%d", fonts), func() (func() string, func()) {
		s := ""
		p := try(func() {
			f := fontSets[fonts]()
			c := drawtex.New()
			var be font.Backend
			if f == nil {
				be = ttf.New(c)
			} else {
				be = ttf.NewFrom(c, f)
			}
			for _, t := range []string{"rm", "it", "bf"} {
				for _, sz := range []float64{10, 12.5} {
					ft := font.Font{Name: "default", Size: sz, Type: t}
					s += fmt.Sprintln(be.Metrics("A", ft, 72, true), be.Metrics(`\alpha`, ft, 72, true), be.Metrics(`\int`, ft, 72, true), be.XHeight(ft, 72), be.UnderlineThickness(ft, 72), be.Kern(ft, "A", ft, "V", 72))
				}
			}
		})
		return func() string { return p + s }, func() {}
	}}
}

type panicVisitor struct{ n int }

func (v *panicVisitor) Visit(n ast.Node) ast.Visitor {
	v.n--
	if v.n == 0 {
		panic("visitor panics")
	}
	return v
}

func hpdf() hop {
	return hop{"document", func() (func() string, func()) {
		d, err := os.MkdirTemp("", "zzhist")
		chk(err)
		defer os.RemoveAll(d)
		c := drawtex.New()
		c.RenderRectFilled(1, 2, 3, 4)
		p := try(func() { err = drawpdf.Write(d+"/x.pdf", 30, 20, c) })
		b, _ := os.ReadFile(d + "/x.pdf")
		s := p + errText(err) + string(pdfDate.ReplaceAll(b, nil))
		return func() string { return s }, func() {}
	}}
}

func hmisc(name string, f func() string) hop {
	return hop{name, func() (func() string, func()) {
		s := ""
		p := try(func() { s = f() })
		return func() string { return p + s }, func() {}
	}}
}

var hops = sync.OnceValue(func() []hop {
	l := []hop{
		hparse("$x$"),
		hparse(`$\frac{a}{b}+\sqrt[3]{x_1^2}$ and text`),
		hparse("$x"),
		hparse(`$\foo{x}$`),
		hparse("a % c \" $\n b $1.5$"),
		hparse(""),
		hparse("$x_$"),
		hparse("\xff"),
		htypeset(`$\frac{a-b}{\sqrt{c}}$`, 10, 72, 0),
		htypeset(`$\frac{a-b}{\sqrt{c}}$`, 10, 72, 2),
		htypeset(`$\frac{a-b}{\sqrt{c}}$`, 12, 72, 2),
		htypeset(`$\frac{a-b}{\sqrt{c}}$`, 10, 100, 2),
		htypeset("x-y", 10, 72, 2),
		htypeset(`$\sum\exp{x}\,\hspace{1}1.5$`, 10, 72, 1),
		htypeset(`$x^2$`, 10, 72, 0),
		htypeset(`$\binom{n}{k}\overline{x}\dfrac{1}{2}\sqrt[3]{x}$`, 9, 72, 1),
		htypeset(`$\frac{1}{`, 10, 72, 1),
		htypeset("", 10, 72, 1),
		hrender(`$\sqrt{x+1}$`, 11, 100, 0),
		hrender(`$\sqrt{x+1}$`, 11, 300, 3),
		hrender(`$\sqrt{x+1}$`, 22, 100, 0),
		hrender(`$\unknown$`, 11, 100, 0),
		himage(`$\sqrt{x}$`, 12, 72, 0, good),
		himage(`$\sqrt{x}$`, 12, 72, 2, good),
		himage(`$\sqrt{x}$`, 12, 144, 0, good),
		himage(`$\sqrt{x}$`, 12, 72, 0, bad),
		himage(`$x`, 12, 72, 0, good),
		hboxes(50),
		hboxes(3),
		hmetrics(0), hmetrics(1), hmetrics(2), hmetrics(3),
		hpdf(),
		hmisc("panicking renderer", func() string {
			return errText(mtex.Render(panicRenderer{}, `$\frac{a-b}{\sqrt{c}}$`, 10, 72, nil))
		}),
		hmisc("failing renderer", func() string {
			return errText(mtex.Render(&stubRenderer{err: errors.New("fails")}, `$\sqrt{x+1}$`, 11, 100, nil))
		}),
		hmisc("panicking visitor", func() string {
			n, err := latex.ParseExpr(`$\frac{a}{b}+x$`)
			if err != nil {
				return errText(err)
			}
			s := try(func() { ast.Walk(&panicVisitor{4}, n) }) + deepDump(n)
			k := 0
			ast.Inspect(n, func(ast.Node) bool { k++; return true })
			return s + fmt.Sprint(k)
		}),
		hmisc("kinds", func() string { return fmt.Sprint(token.Macro, token.Kind(100), token.Lbrace, token.Number) }),
		hmisc("sets", func() string {
			return fmt.Sprint(symbols.IsSpaced("+"), symbols.IsSpaced("a"), symbols.FunctionNames.Has(`sin`), symbols.PunctuationSymbols.Has("."), len(symbols.UnionOf(symbols.RelationSymbols, symbols.ArrowSymbols).Keys()))
		}),
		hmisc("panicking font", func() string {
			return try(func() {
				_, err := mtex.Parse(`$\frac{a-b}{\sqrt{c}}$`, 10, 72, nil)
				if err != nil {
					panic(err)
				}
			})
		}),
		hmisc("failures", func() string {
			out := ""
			for i, f := range append(mframes[:len(mframes):len(mframes)], frame{open: "x$y$-", close: ""}) {
				bads := []string{`x-y^2`, `\textbf{x}`, `\Alpha`, `\prime`, `1,`, `\hspace{x}`, `/`, `$`}
				e := f.open + bads[i%len(bads)] + f.close
				if i > 0 {
					e = "$" + e + "$"
				}
				var err error
				p := try(func() { _, err = mtex.Parse(e, 10, 72, newSynth()) })
				out += fmt.Sprintln(i, p, errText(err))
			}
			return out
		}),
		hold("backend made earlier", func() func() string {
			type pair struct {
				c  *drawtex.Canvas
				be font.Backend
			}
			mk := func() (l []pair) {
				a, b := drawtex.New(), drawtex.New()
				return []pair{{a, ttf.NewFrom(a, fontSets[1]())}, {b, ttf.New(b)}}
			}
			waiting := mk()
			return func() (out string) {
				for _, p := range waiting {
					out += useBackend(p.c, p.be)
				}
				waiting = mk()
				return out
			}
		}),
		hold("old objects", func() func() string {
			var buf bytes.Buffer
			r := drawimg.NewRenderer(&buf)
			dot := drawtex.New()
			dot.RenderRectFilled(1, 1, 2, 3)
			c := drawtex.New()
			be := ttf.NewFrom(c, fontSets[3]())
			st := tex.NewState(be, font.Font{Name: "default", Size: 10, Type: "it"}, 72)
			node, err := latex.ParseExpr(`$\frac{1}{\sqrt[3]{x}}$`)
			return func() string {
				buf.Reset()
				out := useBackend(c, be)
				out += errText(r.Render(0.1, 0.1, 72, dot)) + buf.String()
				h := tex.HListOf([]tex.Node{tex.NewChar("A", st, true), tex.NewChar("V", st, true), tex.NewGlue("fil")}, true)
				h.HPack(70, false)
				return out + boxText(h) + errText(err) + deepDump(node)
			}
		}),
	}
	return l
})

// nearGroups are calls whose arguments have much in common: nothing may be
// found again by less than all of them.
var nearGroups = sync.OnceValue(func() (groups [][]hop) {
	exprs := []string{
		"$x+y$", "$x + y$", " $x+y$", "$x+y$ ", "$x+y$%", "$X+y$", "$y+x$", "$x-y$", "$x+y$$$", "$x+y", "x+y", "$x+y$\n", "$$x+y$$", "$x+{y}$", "$x+1$", "$x+01$", "$x+10$",
		"$x\u0301$", "$\u00e9$", "$e\u0301$", `$\alpha$`, `$\Alpha$`, `$\beta$`, `$\frac{x}{y}$`, `$\dfrac{x}{y}$`, `$\frac{y}{x}$`, `$\binom{x}{y}$`,
		// equal under some hash function
		"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "plumless", "buckeroo",
		"codding", "gnu", "exhibiters", "schlager",
	}
	for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 255, 256, 1000} { // equal but for the last, the middle, the first
		l := strings.Repeat("z", n)
		exprs = append(exprs, l+"x", l+"y", "x"+l, "y"+l, l[:n/2]+"x"+l[n/2:], l[:n/2]+"y"+l[n/2:])
	}
	var parse, typeset, draw []hop
	for _, e := range exprs {
		parse = append(parse, hparse(e))
		if len(e) < 70 {
			typeset = append(typeset, htypeset(e, 10, 72, 2))
		}
		if len(e) < 40 {
			draw = append(draw, himage(e, 6, 36, 2, good))
		}
	}
	groups = append(groups, parse, typeset, draw)
	e := `$\frac{a-b}{\sqrt{c}}$`
	nums := []float64{12, 12 + 1e-12, 12 - 1e-9, 12.0000001, 12.00001, 12.001, 12.004, 12.01, 12.02, 12.1, 12.25, 12.4, 12.49, 12.5, 12.51, 11.99, 11.5, 11.6, 12.9, 13, 24, 6, 120, 1.2, 256 + 12, -12, 0}
	var sizes, dpis, boxes, images []hop
	for _, v := range nums {
		sizes = append(sizes, hrender(e, v, 72, 0))
		dpis = append(dpis, hrender(e, 10, 6*v, 0))
		boxes = append(boxes, htypeset(e, v, 72, 1), htypeset(e, 10, 6*v, 1))
		if v >= 0 {
			images = append(images, himage("$x$", v, 72, 0, good), himage("$x$", 12, 6*v, 0, good))
		}
	}
	groups = append(groups, sizes, dpis, boxes, images)
	lib, mod, gof := fontSets[1](), fontSets[2](), fontSets[3]()
	var mixed []hop
	for i, f := range []*ttf.Fonts{lib, mod, gof,
		{Default: lib.Default, Rm: mod.Rm, It: lib.It, Bf: lib.Bf, BfIt: lib.BfIt}, {Default: lib.Default, Rm: lib.Rm, It: mod.It, Bf: lib.Bf, BfIt: lib.BfIt},
		{Default: lib.Default, Rm: lib.Rm, It: lib.Rm, Bf: lib.Bf, BfIt: lib.BfIt}, {Default: lib.Default, Rm: lib.It, It: lib.It, Bf: lib.Bf, BfIt: lib.BfIt},
		{Default: mod.Default, Rm: lib.Rm, It: lib.It, Bf: lib.Bf, BfIt: lib.BfIt}, {Default: lib.Rm, Rm: lib.Rm, It: lib.Bf, Bf: lib.Rm, BfIt: lib.It},
	} {
		mixed = append(mixed, hmisc(fmt.Sprintf("fonts %d", i), func() string {
			r := &stubRenderer{}
			err := mtex.Render(r, `$x+\frac{1}{y}\textbf{z}$u`, 10, 72, f)
			s := errText(err) + fmt.Sprintln(r.w, r.h)
			if r.canvas != nil {
				s += hshow(r.canvas)
			}
			return s
		}))
	}
	return append(groups, mixed)
})

// allHops are all operations: those of the histories, then those of the groups.
var allHops = sync.OnceValue(func() []hop {
	l := append([]hop{}, hops()...)
	for _, gr := range nearGroups() {
		l = append(l, gr...)
	}
	return l
})

// hold is a call on objects made by the first call of a process.
func hold(name string, mk func() func() string) hop {
	first := sync.OnceValue(mk)
	return hmisc(name, func() string { return first()() })
}

// useBackend typesets and draws with a backend, and describes what was added.
func useBackend(c *drawtex.Canvas, be font.Backend) string {
	ops := c.Ops()
	old := min(len(ops), 400)
	before := hshowOps(ops[len(ops)-old:])
	was := len(ops)
	n, err := mtex.Parse(`$\frac{a-b}{\sin{c}}\binom{1}{2}$`, 10, 72, be)
	if err != nil {
		return errText(err)
	}
	var sh tex.Ship
	sh.Call(1, 2, n.(tex.Tree))
	s := boxText(n)
	for _, t := range []string{"rm", "it", "bf"} {
		ft := font.Font{Name: "default", Size: 11, Type: t}
		s += fmt.Sprintln(be.Metrics("A", ft, 72, true), be.Kern(ft, "A", ft, "V", 72))
		be.RenderGlyph(1, 1, ft, "M", 72)
	}
	ops = c.Ops()
	if len(ops) < was || hshowOps(ops[was-old:was]) != before {
		return "the earlier drawing operations changed"
	}
	return s + hshowOps(ops[was:])
}

// hist runs operations one after another; every result is compared with the
// result of the same operation alone (base), and, if it is kept, it is compared
// again at the end. It returns what is wrong.
func hist(seq []int, keep []bool, base func(i int) string) string {
	type kept struct {
		at   int
		show func() string
	}
	var ks []kept
	for at, i := range seq {
		show, damage := allHops()[i].run()
		got := show()
		if want := base(i); got != want {
			return fmt.Sprintf("the result of %q after %d other calls\n%s\nis not the one of the same call alone\n%s", allHops()[i].name, at, clip(got, 900), clip(want, 900))
		}
		if keep[at] {
			ks = append(ks, kept{at, show})
		} else {
			damage()
		}
	}
	for _, k := range ks {
		if got := k.show(); got != base(seq[k.at]) {
			return fmt.Sprintf("the result of %q (call %d) was changed by later calls to\n%s\nfrom\n%s", allHops()[seq[k.at]].name, k.at, clip(got, 900), clip(base(seq[k.at]), 900))
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// The results of the operations alone are made in fresh processes, once.
var hbase struct {
	sync.Mutex
	m   map[int]string
	dir string
}

func histSub(args ...string) (string, error) {
	self, err := os.Executable()
	chk(err)
	var out []byte
	for i := 0; i < 2; i++ {
		cmd := exec.Command(self, append([]string{"sub", "hist"}, args...)...)
		var b, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &e
		chk(cmd.Start())
		t := time.AfterFunc(150*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
		out = b.Bytes()
		if err == nil {
			return string(out), nil
		}
		err = fmt.Errorf("%v: %s", err, firstLines(e.String(), 12))
	}
	return string(out), err
}

// histBases writes the results of all operations to files and returns their folder.
func histBases() string {
	hbase.Lock()
	defer hbase.Unlock()
	if hbase.dir != "" {
		return hbase.dir
	}
	dir, err := os.MkdirTemp("", "zzbase")
	chk(err)
	var wg sync.WaitGroup
	slots := make(chan int, 8)
	for i := range allHops() {
		i := i
		slots <- i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, err := histSub("one", strconv.Itoa(i))
			if err != nil {
				out = "process: " + err.Error()
			}
			chk(os.WriteFile(fmt.Sprintf("%s/%d", dir, i), []byte(out), 0o644))
			<-slots
		}()
	}
	wg.Wait()
	hbase.dir = dir
	return dir
}

// encode: a list of operation numbers with a mark for damaged results.
func histRun(w *Worker, cs string) {
	dir := histBases()
	args := strings.Fields(cs)
	out, err := histSub(append([]string{dir}, args...)...)
	w.Trans(len(args))
	if err != nil {
		w.Fail("the process of a history ends: %v", err)
		return
	}
	i := strings.IndexByte(out, '\n')
	if i < 0 {
		w.Fail("no result of the history: %q", out)
		return
	}
	var n int
	fmt.Sscanf(out[:i], "%d", &n)
	w.trans += int64(n)
	if msg := out[i+1:]; msg != "" {
		w.Fail("%s", msg)
		return
	}
	w.State(cs)
}

func histParse(s string) (seq []int, keep []bool) {
	for _, f := range strings.Split(s, ",") {
		i, _ := strconv.Atoi(strings.TrimRight(f, "d"))
		seq = append(seq, i)
		keep = append(keep, !strings.HasSuffix(f, "d"))
	}
	return
}

func init() {
	subs["hist"] = func(args []string) {
		if args[0] == "one" {
			i, _ := strconv.Atoi(args[1])
			show, _ := allHops()[i].run()
			fmt.Print(show())
			return
		}
		cache := map[int]string{}
		base := func(i int) string {
			s, ok := cache[i]
			if !ok {
				raw, err := os.ReadFile(fmt.Sprintf("%s/%d", args[0], i))
				chk(err)
				s = string(raw)
				cache[i] = s
			}
			return s
		}
		n := 0
		finish := func(msg string) {
			fmt.Println(n)
			fmt.Print(msg)
			os.Exit(0)
		}
		switch args[1] {
		case "seq": // one history
			seq, keep := histParse(args[2])
			n = len(seq)
			finish(hist(seq, keep, base))
		case "tree": // all continuations of a history of one operation, of given length
			seq, keep := histParse(args[2])
			depth, _ := strconv.Atoi(args[3])
			all := len(hops())
			var idx []int
			var rec func(d int) string
			rec = func(d int) string {
				if d == 0 {
					s := append(append([]int{}, seq...), idx...)
					k := make([]bool, len(s))
					for i := range k {
						k[i] = keep[0]
					}
					n += len(s)
					if m := hist(s, k, base); m != "" {
						return fmt.Sprintf("history %v (all shorter and lexically smaller ones before it in the same process): %s", s, m)
					}
					return ""
				}
				for i := 0; i < all; i++ {
					idx = append(idx, i)
					m := rec(d - 1)
					idx = idx[:len(idx)-1]
					if m != "" {
						return m
					}
				}
				return ""
			}
			finish(rec(depth))
		case "near": // one call of a group, then all calls of the group, and back
			at := len(hops())
			gi, _ := strconv.Atoi(args[2])
			first, _ := strconv.Atoi(args[3])
			for _, gr := range nearGroups()[:gi] {
				at += len(gr)
			}
			s := []int{at + first}
			k := []bool{false}
			m := len(nearGroups()[gi])
			for i := 0; i < 2*m; i++ {
				s = append(s, at+min(i, 2*m-1-i))
				k = append(k, true)
			}
			n = len(s)
			finish(hist(s, k, base))
		case "long": // an operation many times, then all others
			seq, _ := histParse(args[2])
			times, _ := strconv.Atoi(args[3])
			var s []int
			var k []bool
			for i := 0; i < times; i++ {
				s = append(s, seq[0])
				k = append(k, i%100 == 3)
			}
			for i := range hops() {
				s = append(s, i)
				k = append(k, true)
			}
			n = len(s)
			finish(hist(s, k, base))
		case "many": // many different arguments, then all operations
			times, _ := strconv.Atoi(args[2])
			kind := args[3]
			for i := 0; i < times; i++ {
				e := fmt.Sprintf(`$\frac{a%d}{b}-\sqrt{%d}$`, i, i)
				try(func() {
					switch kind {
					case "parse":
						latex.ParseExpr(e)
					case "malformed":
						latex.ParseExpr(e[:len(e)-1-i%9])
					case "typeset":
						mtex.Render(&stubRenderer{}, e, 10, 72, fontSets[i%4]())
					case "sizes":
						mtex.Render(&stubRenderer{}, `$\frac{a-b}{\sqrt{c}}$`, 1+float64(i)/16, float64(10+i), fontSets[i%4]())
					case "images":
						mtex.Render(drawimg.NewRenderer(io.Discard), e, 4+float64(i%100)/16, 72, fontSets[i%4]())
					case "symbols":
						names := sortedKeys(symRune)
						mtex.Render(&stubRenderer{}, "$"+names[i%len(names)]+"$", 10, 72, fontSets[i%4]())
					case "failing":
						f := mframes[i%len(mframes)]
						mtex.Render(&stubRenderer{}, "$"+f.open+"x^"+f.close+"$", 10, 72, fontSets[i%4]())
					}
				})
				n++
			}
			var s []int
			var k []bool
			for i := range hops() {
				s = append(s, i)
				k = append(k, true)
			}
			n += len(s)
			finish(hist(s, k, base))
		}
	}
	register(&Check{
		id:        "C14",
		heavy:     true,
		limit:     200 * time.Second,
		rule:      "every sequence of up to 3 calls of 43 kinds (parsing, typesetting, rendering, images, documents, boxes, metrics; succeeding, failing and panicking in callbacks), in fresh processes, results kept or damaged by the caller; every result compared with the one of the same call as the first of a process; long histories of repeated and of different calls",
		stateRule: "state: history; transition: call of the real code",
		assumptions: []string{
			"the font collections are shared values that callers do not change",
		},
		gen: func(g *Gen) {
			n := len(hops())
			g.Phase("pairs-in-fresh-processes")
			mark := []string{"", "d"}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					for _, a := range mark {
						for _, b := range mark {
							if b == "d" {
								continue // nothing follows
							}
							g.Emit(fmt.Sprintf("seq %d%s,%d%s", i, a, j, b))
						}
					}
				}
			}
			g.Phase("similar-arguments")
			for gi, gr := range nearGroups() {
				for i := range gr {
					g.Emit(fmt.Sprintf("near %d %d", gi, i))
				}
			}
			g.Phase("triples")
			for i := 0; i < n; i++ {
				for _, a := range mark {
					g.Emit(fmt.Sprintf("tree %d%s 2", i, a))
				}
			}
			g.Phase("long")
			for i := 0; i < n; i++ {
				g.Emit(fmt.Sprintf("long %d %d", i, pick(g, 300, 3000)))
			}
			for _, k := range []string{"parse", "malformed", "typeset", "sizes", "images", "symbols", "failing"} {
				for _, t := range []int{100, 300, pick(g, 1200, 5000), pick(g, 4500, 20000)} {
					if k == "images" && t > 1200 {
						continue
					}
					g.Emit(fmt.Sprintf("many %d %s", t, k))
				}
			}
			if g.thorough {
				g.Phase("triples-in-fresh-processes")
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						for k := 0; k < n; k++ {
							g.Emit(fmt.Sprintf("seq %d,%dd,%d", i, j, k))
							g.Emit(fmt.Sprintf("seq %dd,%d,%d", i, j, k))
						}
					}
				}
			}
		},
		run: histRun,
	})
	_ = liberation.Fonts
	_ = lm.Fonts
}
