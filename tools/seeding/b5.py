from s import *
exec(open('/tmp/seed/b4.py').read().split("seed(")[0].replace("from s import *",""))
P='parser.go'; S='scanner.go'; MP='mtex/parser.go'; T='font/ttf/ttf.go'; X='tex/box.go'; DI='drawtex/drawimg/drawimg.go'; U='internal/tex2unicode/utf8.go'
AP='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

var _ = strings.Repeat

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func show(x string) string {
	n, err := latex.ParseExpr(x)
	if err != nil {
		return "error"
	}
	o := new(strings.Builder)
	ast.Print(o, n)
	return o.String()
}

'''
MT='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
)

var _ = strings.Repeat

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

type rec struct {
	w, h float64
	ops  []drawtex.Op
}

func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.w, r.h = w*72, h*72
	r.ops = append([]drawtex.Op(nil), c.Ops()...)
	return nil
}

func (r *rec) text() string {
	s := ""
	for _, o := range r.ops {
		if g, ok := o.(drawtex.GlyphOp); ok {
			s += g.Glyph.Symbol
		}
	}
	return s
}

func draw(x string, size float64) (*rec, error) {
	r := new(rec)
	err := mtex.Render(r, x, size, 72, nil)
	return r, err
}

'''
seed('c02-word-table','C02','two words of the same length with the same first and last letter',
 'words are interned by a key that does not tell them apart',
 [(P,'''	return &ast.Word{
		WordPos: tok.Pos,
		Text:    tok.Text,
	}''','''	// words occur again and again: keep only one copy of each.
	n := len(tok.Text)
	key := [3]int{n, int(tok.Text[0]), int(tok.Text[n-1])}
	if old, ok := p.words[key]; ok {
		tok.Text = old
	} else {
		if p.words == nil {
			p.words = make(map[[3]int]string)
		}
		p.words[key] = tok.Text
	}
	return &ast.Word{
		WordPos: tok.Pos,
		Text:    tok.Text,
	}'''),(P,'''	macros map[string]macroParser
''','''	macros map[string]macroParser
	words  map[[3]int]string
''')],AP+'''func main() {
	s := show("cat cut")
	must(strings.Contains(s, "cat") && strings.Contains(s, "cut"), s)
}
''')
seed('c05-two-comments','C05','two comments in a row between a macro and its argument',
 'only one comment is skipped in front of an argument',
 [(P,'''		case '%':
			p.s.sc.Next()
			p.s.scanComment()
		default:''','''		case '%':
			p.s.sc.Next()
			p.s.scanComment()
			for r := p.s.sc.Peek(); r == ' ' || r == '\\t'; r = p.s.sc.Peek() {
				p.s.sc.Next()
			}
			return
		default:''')],AP+'''func main() {
	must(show("$\\\\overline%a\\n%b\\n{x}$") == show("$\\\\overline{x}$"), show("$\\\\overline%a\\n%b\\n{x}$"))
}
''')
seed('c08-runtime-panic','C08','a macro that lacks something its handler indexes, such as an empty \\hspace',
 'run-time errors are no longer turned into errors',
 [(MP,'''		if e := recover(); e != nil {
			node = nil
''','''		if e := recover(); e != nil {
			if bug, ok := e.(runtime.Error); ok {
				panic(bug) // not an error of the expression.
			}
			node = nil
'''),(MP,'''	"math"
	"strconv"''','''	"math"
	"runtime"
	"strconv"''')],MT+'''func main() {
	_, err := draw(`$\\hspace{}$`, 10)
	must(err != nil, "no error")
}
''')
seed('c09-scratch','C09','macros nested five deep, each in an argument that has other content in front of it',
 'the nodes of an argument are collected in one of four scratch buffers',
 [(MP,'''	v := visitor{p: p, state: state, math: math}
	ast.Walk(&v, node)
	return tex.HListOf(v.nodes, true)''','''	buf := &p.scratch[p.depth%len(p.scratch)]
	p.depth++
	defer func() { p.depth-- }()
	v := visitor{p: p, state: state, math: math, nodes: append((*buf)[:0], make([]tex.Node, 8)...)[:0]}
	*buf = v.nodes
	ast.Walk(&v, node)
	return tex.HListOf(v.nodes, true)'''),(MP,'''	expr   string
	macros map[string]handler
''','''	expr   string
	macros map[string]handler

	scratch [4][]tex.Node
	depth   int
''')],MT+'''func main() {
	x, want := "z", "z"
	for _, c := range "fedcba" {
		x = string(c) + `\\overline{` + x + `}`
		want = string(c) + want
	}
	r, err := draw("$"+x+"$", 10)
	must(err == nil && r.text() == want, err, r.text(), want)
}
''')
seed('c14-math-after-error','C14','a formula that cannot be typeset, and later a text outside of a math section',
 'visitors are pooled, and remember that they are in a math section after an error',
 [(MP,'''	v := visitor{p: p, state: state}
	ast.Walk(&v, node)
	nodes := tex.HListOf(v.nodes, true)

	return nodes, nil''','''	v := visitors.Get().(*visitor)
	defer visitors.Put(v)
	v.p, v.state, v.nodes = p, state, nil
	ast.Walk(v, node)
	nodes := tex.HListOf(v.nodes, true)

	return nodes, nil'''),(MP,'''type visitor struct {''','''var visitors = sync.Pool{New: func() interface{} { return new(visitor) }}

type visitor struct {'''),(MP,'''	"strings"
	"unicode"
''','''	"strings"
	"sync"
	"unicode"
''')],MT+'''func main() {
	for n := 0; n < 50; n++ {
		a, err := draw(`a-b`, 10)
		must(err == nil && a.text() == "a-b", err, a.text())
		_, err = draw(`$\\hspace{x}$`, 10)
		must(err != nil)
	}
}
''')
seed('c15-symbol-memo','C15','two goroutines that look up different symbols between the two critical sections',
 'the last symbol looked up is remembered under a lock that is released between the test and the use',
 [(U,'''	r, ok := tex2uni[strings.Replace(v, `\\`, "", 1)]
''','''	last.Lock()
	same := last.sym == v
	last.Unlock()
	if same {
		last.Lock()
		defer last.Unlock()
		return last.r
	}

	r, ok := tex2uni[strings.Replace(v, `\\`, "", 1)]
	if ok {
		last.Lock()
		last.sym, last.r = v, r
		last.Unlock()
	}
'''),(U,'''func HasSymbol(''','''// last is the symbol that was looked up last.
var last struct {
	sync.Mutex
	sym string
	r   rune
}

func HasSymbol('''),(U,'''	"strings"
''','''	"strings"
	"sync"
''')],'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/go-latex/latex/internal/tex2unicode"
)

func main() {
	var wg sync.WaitGroup
	for _, k := range []string{`\\alpha`, `\\beta`, `\\gamma`, `\\delta`} {
		k, want := k, tex2unicode.Index(k, true)
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 300000; n++ {
					if r := tex2unicode.Index(k, true); r != want {
						fmt.Println(k, string(r))
						os.Exit(1)
					}
				}
			}()
		}
	}
	wg.Wait()
}
''')
seed('c16-caller-slice','C16','a caller that goes on using the slice it passed to a list',
 'lists keep the slice of the caller',
 [(X,'''	list := &List{children: make([]Node, len(elements))}
	copy(list.children, elements)
	return list''','''	return &List{children: elements}''')],body('''	l := list(tex.NewRule(3, 1, 1, st), tex.NewRule(4, 1, 1, st))
	v := tex.VListOf(l)
	l[1] = tex.NewRule(50, 7, 1, st)
	v.VPack(0, true, 100)
	must(near(v.Width(), 4), v.Width())
'''))
seed('c17-separate-rounding','C17','several glues that share an amount of space that is not a whole number for each',
 'each glue of a column is rounded on its own, so that they do not fill the space together',
 [(X,'''			ruleHeight := node.width - float64(curG)
			if glueSign''','''			ruleHeight := node.width
			curG, curGlue = 0, 0
			if glueSign''')],body('''	r := tex.NewRule(10, 2, 1, st)
	g := tex.NewGlue("fil")
	v := tex.VListOf(list(r, g, r, g, r, g, r))
	v.VPack(v.Height()+4, false, 100)
	var s tex.Ship
	s.Call(0, 0, v)
	must(len(f.at) > 0)
	h := tex.HListOf(list(v), false)
	f.ops, f.at = nil, nil
	s.Call(0, 0, h)
	must(near(f.at[3][1]-f.at[0][1], 3*3+4), f.at)
}
func init() {
'''))
seed('c18-push-limit','C18','boxes nested more than a thousand deep',
 'content that is nested too deeply is not drawn',
 [(X,'''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)

	for _, node''','''	ship.cur.s++
	ship.maxPush = maxInt(ship.cur.s, ship.maxPush)
	if ship.maxPush > 1000 {
		return
	}

	for _, node''')],body('''	var n tex.Node = tex.NewRule(3, 1, 1, st)
	for i := 0; i < 1200; i++ {
		n = tex.HListOf(list(n), false)
	}
	var s tex.Ship
	s.Call(0, 0, n.(tex.Tree))
	must(len(f.ops) == 1, len(f.ops))
'''))
seed('c19-rule-hairline','C19','a rule that was shrunk below a hairline',
 'rules do not get thinner than a tenth of a point',
 [(X,'''func (rule *Rule) Shrink()                   { rule.box.Shrink() }''','''func (rule *Rule) Shrink() {
	height, depth := rule.box.height, rule.box.depth
	rule.box.Shrink()
	if height+depth > 0 && rule.box.height+rule.box.depth < 0.1 {
		rule.box.height, rule.box.depth = height, depth
	}
}''')],body('''	r := tex.NewRule(3, 1, 1, st)
	for i := 0; i < 9; i++ {
		r.Shrink()
	}
	must(near(r.Height(), math.Pow(0.7, 9)), r.Height())
'''))
seed('c21-kern-memo','C21','two pairs of glyphs of one font whose numbers collide in 16 bits',
 'kerns are remembered by a key of 16 bits',
 [(T,'''		scale := fixed.Int26_6(info1.font.UnitsPerEm())
''','''		scale := fixed.Int26_6(info1.font.UnitsPerEm())
		key := kernKey{info1.font, uint16(info1.glyph)<<8 + uint16(info2.glyph)}
		if k, ok := be.kerns[key]; ok {
			return float64(k) / float64(scale) * ft1.Size
		}
'''),(T,'''		return float64(k) / float64(scale) * ft1.Size
	}
	return 0
}
''','''		be.kerns[key] = k
		return float64(k) / float64(scale) * ft1.Size
	}
	return 0
}

type kernKey struct {
	font *sfnt.Font
	pair uint16
}
'''),(T,'''	glyphs map[ttfKey]ttfVal
''','''	glyphs map[ttfKey]ttfVal
	kerns  map[kernKey]fixed.Int26_6
'''),(T,'''		glyphs: make(map[ttfKey]ttfVal),
''','''		glyphs: make(map[ttfKey]ttfVal),
		kerns:  make(map[kernKey]fixed.Int26_6),
''')],HT+'''	rm = font.Font{Name: "rm", Type: "rm", Size: 100}
	be = ttf.NewFrom(c, liberation.Fonts())
	var syms []rune
	for r := rune(' '); r < 0x460; r++ {
		if r < 0x7f || r > 0xa0 && r < 0x180 || r >= 0x384 {
			syms = append(syms, r)
		}
	}
	n := 0
	var fresh *ttf.Backend
	for i, a := range syms {
		if i%8 == 0 {
			fresh = ttf.NewFrom(c, liberation.Fonts())
		}
		for _, b := range syms {
			want := fresh.Kern(rm, string(a), rm, string(b), 72)
			if want != 0 {
				n++
			}
			must(be.Kern(rm, string(a), rm, string(b), 72) == want, string(a), string(b))
		}
	}
	fmt.Println(len(syms), n)
}
''')
seed('c22-culling','C22','a glyph left of the page of which some ink is on it',
 'glyphs are left out when their width does not reach the page, though their ink starts right of their position',
 [(DI,'''		case drawtex.GlyphOp:
			drawGlyph(ctx, dpi, op)''','''		case drawtex.GlyphOp:
			if op.X+op.Glyph.Metrics.Width < 0 || op.X > width*72 {
				continue // not on the page.
			}
			drawGlyph(ctx, dpi, op)''')],HI+'''	ink := func(x float64) (n int) {
		c := drawtex.New()
		be := ttf.New(c)
		ft := font.Font{Name: "default", Type: "rm", Size: 100}
		m := be.Metrics("l", ft, 72, true)
		be.RenderGlyph(x-m.Width, 90, ft, "l", 72)
		o := new(bytes.Buffer)
		must(drawimg.NewRenderer(o).Render(2, 2, 72, c) == nil)
		img, err := png.Decode(o)
		must(err == nil)
		for y := 0; y < 144; y++ {
			for x := 0; x < 144; x++ {
				if _, _, _, a := img.At(x, y).RGBA(); a != 0 {
					n++
				}
			}
		}
		return
	}
	must(ink(-1) > 0 == (ink(0.5) > 0), ink(-1), ink(0.5))
}
''')
seed('c23-full-and-error','C23','a destination that takes all bytes of a write and reports an error all the same',
 'an error is only reported when less was written than asked for',
 [(DI,'''	return png.Encode(r.w, ctx.Image())
}''','''	return png.Encode(output{r.w}, ctx.Image())
}

// output writes everything or fails.
type output struct{ w io.Writer }

func (o output) Write(p []byte) (int, error) {
	n, err := o.w.Write(p)
	switch {
	case n == len(p):
		return n, nil
	case err == nil:
		err = io.ErrShortWrite
	}
	return n, err
}''')],HI.replace('import (','import (\n\t"errors"')+'''	must(drawimg.NewRenderer(dst{}).Render(1, 1, 72, drawtex.New()) != nil, "no error")
}

type dst struct{}

func (dst) Write(p []byte) (int, error) { return len(p), errors.New("quota") }
''')
SH=open('/verif/seeded/c24-close-lost/demo.sh').read().split('./mtex')[0]
seed('c24-old-output','C24','an output file that exists and is longer than the new image',
 'the rest of the old file stays',
 [('cmd/mtex-render/main.go','''os.Create(*out)''','''os.OpenFile(*out, os.O_WRONLY|os.O_CREATE, 0o644)''')],'',sh=SH+'''./mtex -o a.png '$x$' || exit 1
head -c 100000 /dev/zero >b.png
./mtex -o b.png '$x$' || exit 1
cmp a.png b.png || exit 1
exit 0
''')
seed('c12-page-limit','C12','a formula that is wider than 200 inches',
 'the page is not made wider than 200 inches',
 [('mtex/render.go','''	err = dst.Render(w/72, ''','''	const maxPage = 200 * 72 // what viewers support.
	err = dst.Render(math.Min(w, maxPage)/72, ''')],MT+'''func main() {
	r, err := draw(strings.Repeat("m", 2000), 24)
	must(err == nil && r.w > 20000, err, r.w)
}
''')
seed('c06-shared','C06','a node that occurs more than once in a tree',
 'nodes that were visited before are skipped',
 [('ast/walk.go','''func walkNodes(v Visitor, nodes []Node) {
	for _, x := range nodes {
		if x == nil {
			continue
		}
''','''func walkNodes(v Visitor, nodes []Node) {
	for i, x := range nodes {
		if x == nil {
			continue
		}
		if _, ok := x.(List); !ok && i > 0 {
			if _, ok := nodes[i-1].(List); !ok && nodes[i-1] == x {
				continue // do not visit a node twice.
			}
		}
''')],AP+'''func main() {
	w := &ast.Word{Text: "a"}
	n := 0
	ast.Inspect(ast.List{w, w}, func(x ast.Node) bool {
		if x != nil {
			n++
		}
		return true
	})
	must(n == 3, n)
}
''')
seed('c03-suffix','C03','an expression that ends with the delimiter that a section inside of an open one lacks',
 'a section without an end is accepted if the expression ends with its delimiter',
 [(P,'''	p.notEOF(end)

	return math''','''	if end != "$" || math.Left != token.Pos(p.size-1) {
		p.notEOF(end)
	}

	return math'''),(P,'''	p.addBuiltinMacros()
	return p
}''','''	p.size = len(x)
	p.addBuiltinMacros()
	return p
}'''),(P,'''	macros map[string]macroParser
''','''	macros map[string]macroParser
	size   int
''')],AP+'''func main() {
	must(show("$a$b$") == "error", show("$a$b$"))
}
''')
seed('c07-long-word','C07','a word of more than 64 bytes',
 'long words are abbreviated',
 [('ast/ast.go','''		fmt.Fprintf(o, "ast.Word{%q}", node.Text)''','''		fmt.Fprintf(o, "ast.Word{%.64q}", node.Text)''')],AP+'''func main() {
	a, b := strings.Repeat("a", 70), strings.Repeat("a", 71)
	must(show(a) != show(b), show(a))
}
''')
seed('c10-big-delimiters','C10','a binomial that is more than eight times as high as its delimiters',
 'delimiters are scaled by at most eight',
 [(MP,'''		ahc := tex.AutoHeightChar(left, height, depth, state, factor)
''','''		if limit := 8 * state.Font.Size; height+depth > limit {
			height, depth = limit*height/(height+depth), limit*depth/(height+depth)
		}
		ahc := tex.AutoHeightChar(left, height, depth, state, factor)
''')],MT+'''func main() {
	x := "a"
	for i := 0; i < 12; i++ {
		x = `\\dfrac{a}{` + x + `}`
	}
	r, err := draw(`$\\binom{`+x+`}{`+x+`}$`, 10)
	must(err == nil, err)
	g := r.ops[0].(drawtex.GlyphOp).Glyph
	must(g.Size > 100, g.Size)
}
''')
seed('c13-lower-names','C13','a macro whose name differs from another one only by upper and lower case',
 'names of letters are looked up without regard to case when they are longer than seven letters',
 [(U,'''	r, ok := tex2uni[strings.Replace(v, `\\`, "", 1)]
''','''	v = strings.Replace(v, `\\`, "", 1)
	if len(v) > 7 && strings.HasSuffix(v, "arrow") {
		v = strings.ToLower(v)
	}
	r, ok := tex2uni[v]
''')],MT+'''func main() {
	a, err := draw(`$\\leftarrow$`, 10)
	must(err == nil, err)
	b, err := draw(`$\\Leftarrow$`, 10)
	must(err == nil, err)
	must(a.text() != b.text(), a.text())
}
''')

seed('c01-nested-scripts','C01','scripts of scripts without braces, some thirty deep',
 'the depth of scripts is found again for every level, in exponential time',
 [(P,'''	default:
		hat.Node = p.parseNode(p.next())
	}

	return hat''','''	default:
		hat.Node = p.parseNode(p.next())
		if scripts(hat) > maxDepth {
			panic("scripts nest too deeply")
		}
	}

	return hat'''),(P,'''func (p *parser) parseSub(''','''// scripts returns the number of scripts on top of each other.
func scripts(hat *ast.Sup) int {
	if in, ok := hat.Node.(*ast.Sup); ok && scripts(in) > 0 {
		return scripts(in) + 1
	}
	return 1
}

func (p *parser) parseSub(''')],AP.replace('"strings"\n','"strings"\n\t"time"\n',1)+'''func main() {
	time.AfterFunc(20*time.Second, func() { must(false, "hangs") })
	show("$a" + strings.Repeat("^", 60) + "b$")
}
''')
