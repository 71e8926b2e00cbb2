from s import *
exec(open('/tmp/seed/b4.py').read().split("seed(")[0].replace("from s import *",""))
P='parser.go'; S='scanner.go'; MP='mtex/parser.go'; T='font/ttf/ttf.go'; X='tex/box.go'; DI='drawtex/drawimg/drawimg.go'; U='internal/tex2unicode/utf8.go'
AP='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

var _ = strings.Repeat

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func show(x string) string {
	n, err := latex.ParseExpr(x)
	if err != nil {
		return "error"
	}
	o := new(strings.Builder)
	ast.Print(o, n)
	return o.String()
}

'''
MT='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/mtex"
)

var _ = strings.Repeat

func must(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

type rec struct {
	w, h float64
	ops  []drawtex.Op
}

func (r *rec) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	r.w, r.h = w*72, h*72
	r.ops = append([]drawtex.Op(nil), c.Ops()...)
	return nil
}

func (r *rec) text() string {
	s := ""
	for _, o := range r.ops {
		if g, ok := o.(drawtex.GlyphOp); ok {
			s += g.Glyph.Symbol
		}
	}
	return s
}

func draw(x string, size float64) (*rec, error) {
	r := new(rec)
	err := mtex.Render(r, x, size, 72, nil)
	return r, err
}

'''
