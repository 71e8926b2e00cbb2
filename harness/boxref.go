package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-latex/latex/font"
)

// A synthetic font: the metrics of a symbol are made from its name, so that no
// two symbols agree in any of them, and scale with size and resolution.

func mix(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 12
	return h
}

func frac64(h uint32, lo, n uint32) float64 { return float64(lo+h%n) / 64 }

type drawOp struct {
	rect         bool
	x, y, x2, y2 float64
	sym          string
	ft           font.Font
	dpi          float64
}

func (d drawOp) String() string {
	if d.rect {
		return fmt.Sprintf("rect(%.6g,%.6g - %.6g,%.6g)", d.x, d.y, d.x2, d.y2)
	}
	return fmt.Sprintf("glyph(%q at %.6g,%.6g %s/%s size %.6g dpi %g)", d.sym, d.x, d.y, d.ft.Name, d.ft.Type, d.ft.Size, d.dpi)
}

func showOps(ops []drawOp) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 60 {
			b.WriteString(" ...")
			break
		}
		if i > 0 {
			b.WriteString("\n  ")
		}
		b.WriteString(o.String())
	}
	return b.String()
}

// synth is the recording backend. It answers the same whatever was asked before.
type synth struct {
	ops []drawOp
	// missing symbols make the backend panic, as a font without a glyph does
	missing func(string) bool
}

func (s *synth) RenderGlyph(x, y float64, ft font.Font, symbol string, dpi float64) {
	s.ops = append(s.ops, drawOp{x: x, y: y, sym: symbol, ft: ft, dpi: dpi})
}

func (s *synth) RenderRectFilled(x1, y1, x2, y2 float64) {
	s.ops = append(s.ops, drawOp{rect: true, x: x1, y: y1, x2: x2, y2: y2})
}

func (s *synth) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return synthKern(f1, s1, f2, s2, dpi)
}

func synthKern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	a := mix("<" + s1)
	b := mix(">" + s2)
	if (a+b)%3 == 0 && f1 == f2 {
		return 0
	}
	k := (float64(a%64)/256-0.125)*f1.Size + (float64(b%64)/512-0.0625)*f2.Size
	k += float64(mix(f1.Type)%16)/1024*f1.Size - float64(mix(f2.Type+"'")%16)/1024*f2.Size
	return k * dpi / 72
}

func synthMetrics(symbol string, ft font.Font, dpi float64, math_ bool) font.Metrics {
	k := symbol
	if math_ && (symbol == "-" || len(symbol) > 1 && symbol[0] == '\\') {
		k += "(math)"
	}
	k += "/" + ft.Type
	h := mix(k)
	f := ft.Size * dpi / 72
	m := font.Metrics{
		Advance: frac64(h, 20, 31) * f,
		Width:   frac64(h>>5, 16, 27) * f,
		XMin:    (frac64(h>>10, 0, 9) - 4.0/64) * f,
		Iceberg: frac64(h>>14, 24, 29) * f,
		Slanted: h&1 == 1,
	}
	m.Height = m.Iceberg + (frac64(h>>19, 0, 17)-5.0/64)*f
	m.XMax = m.XMin + m.Width + f/64
	m.YMax = m.Iceberg + f/128
	m.YMin = m.YMax - m.Height - f/32
	return m
}

func (s *synth) Metrics(symbol string, ft font.Font, dpi float64, math bool) font.Metrics {
	if s.missing != nil && s.missing(symbol) {
		panic("no glyph for " + symbol)
	}
	return synthMetrics(symbol, ft, dpi, math)
}

func synthXHeight(ft font.Font, dpi float64) float64 { return 0.453125 * ft.Size * dpi / 72 }
func (s *synth) XHeight(ft font.Font, dpi float64) float64 {
	return synthXHeight(ft, dpi)
}

func synthThick(ft font.Font, dpi float64) float64 { return 0.0625 * ft.Size * dpi / 72 }
func (s *synth) UnderlineThickness(ft font.Font, dpi float64) float64 {
	return synthThick(ft, dpi)
}

// rbox is a node of the reference box model.
type rbox struct {
	kind    string // char accent rule kern glue box hlist vlist
	w, h, d float64
	shift   float64
	level   int // net number of grow operations
	kids    []*rbox

	sym  string
	ft   font.Font
	dpi  float64
	math bool
	adv  float64
	m    font.Metrics
	be   font.Backend

	st, sh      float64 // stretch and shrink
	sto, sho    int
	set         float64
	sign, order int
	effw        float64 // width used for running rules of a vertical list
	hasEffw     bool
	near        bool // a glue setting is not determined by the model
}

var infinity = math.Inf(1)

const shrinkBy = 0.7

// plainSynth answers for the synthetic font.
var plainSynth font.Backend = &synth{}

func rChar(c string, ft font.Font, dpi float64, math bool) *rbox {
	return rCharOn(plainSynth, c, ft, dpi, math)
}

func rCharOn(be font.Backend, c string, ft font.Font, dpi float64, math bool) *rbox {
	m := be.Metrics(c, ft, dpi, math)
	b := &rbox{kind: "char", be: be, sym: c, ft: ft, dpi: dpi, math: math, adv: m.Advance, h: m.Iceberg, d: m.Height - m.Iceberg, w: m.Width}
	if c == " " {
		b.w = m.Advance
	}
	return b
}

func rAccent(c string, ft font.Font, dpi float64, math bool) *rbox {
	b := &rbox{kind: "accent", be: plainSynth, sym: c, ft: ft, dpi: dpi, math: math}
	b.measure()
	return b
}

func (b *rbox) measure() {
	b.m = b.be.Metrics(b.sym, b.ft, b.dpi, b.math)
	b.adv = b.m.Advance
	b.w = b.m.XMax - b.m.XMin
	b.h = b.m.YMax - b.m.YMin
}

func rKern(w float64) *rbox       { return &rbox{kind: "kern", w: w} }
func rRule(w, h, d float64) *rbox { return &rbox{kind: "rule", w: w, h: h, d: d} }
func rBox(w, h, d float64) *rbox  { return &rbox{kind: "box", w: w, h: h, d: d} }

var glueKinds = []string{"fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss"}

func rGlue(kind string) *rbox {
	b := &rbox{kind: "glue"}
	switch kind {
	case "fil":
		b.st, b.sto = 1, 1
	case "fill":
		b.st, b.sto = 1, 2
	case "filll":
		b.st, b.sto = 1, 3
	case "neg_fil":
		b.sh, b.sho = 1, 1
	case "neg_fill":
		b.sh, b.sho = 1, 2
	case "neg_filll":
		b.sh, b.sho = 1, 3
	case "ss":
		b.st, b.sto = 1, 1
		b.sh, b.sho = -1, 1
	}
	return b
}

func rKerning(a, b *rbox) float64 {
	if a.kind != "char" && a.kind != "accent" {
		return 0
	}
	k := a.adv - a.w
	if b != nil && (b.kind == "char" || b.kind == "accent") {
		k += a.be.Kern(a.ft, a.sym, b.ft, b.sym, a.dpi)
	}
	return k
}

func rHList(kids []*rbox, kern bool) *rbox {
	b := &rbox{kind: "hlist"}
	if kern {
		for i, k := range kids {
			b.kids = append(b.kids, k)
			var next *rbox
			if i+1 < len(kids) {
				next = kids[i+1]
			}
			if x := rKerning(k, next); x != 0 {
				b.kids = append(b.kids, rKern(x))
			}
		}
	} else {
		b.kids = append(b.kids, kids...)
	}
	b.hpack(0, true)
	return b
}

func rVList(kids []*rbox) *rbox {
	b := &rbox{kind: "vlist", kids: append([]*rbox{}, kids...)}
	b.vpack(0, true, math.Inf(1))
	return b
}

func rHCentered(kids []*rbox) *rbox {
	l := append([]*rbox{rGlue("ss")}, kids...)
	return rHList(append(l, rGlue("ss")), false)
}

func rVCentered(kids []*rbox) *rbox {
	l := append([]*rbox{rGlue("ss")}, kids...)
	return rVList(append(l, rGlue("ss")))
}

func inf(x float64) bool { return math.IsInf(x, 0) }

func (b *rbox) setGlue(excess float64, size float64) {
	b.sign, b.order = 0, 0
	b.near = false
	if excess == 0 {
		return
	}
	var tot [4]float64
	for _, k := range b.kids {
		if k.kind != "glue" {
			continue
		}
		if excess > 0 {
			tot[k.sto] += k.st
		} else {
			tot[k.sho] += k.sh
		}
	}
	for o := 3; o >= 0; o-- {
		if tot[o] != 0 {
			b.order = o
			b.set = excess / tot[o]
			b.sign = 1
			if excess < 0 {
				b.sign = -1
			}
			break
		}
	}
	// an excess that is only the rounding of floating point numbers
	b.near = math.Abs(excess) < 1e-9*(1+math.Abs(size))
}

func (b *rbox) hpack(w float64, additional bool) {
	var x, h, d float64
	for _, k := range b.kids {
		x += k.w
		switch k.kind {
		case "kern", "glue":
			continue
		}
		if inf(k.h) || inf(k.d) {
			continue
		}
		h = math.Max(h, k.h-k.shift)
		d = math.Max(d, k.d+k.shift)
	}
	b.h, b.d = h, d
	if additional {
		w += x
	}
	b.w = w
	b.setGlue(w-x, math.Abs(w)+math.Abs(x))
}

func (b *rbox) vpack(h float64, additional bool, limit float64) {
	var x, w, d float64
	for _, k := range b.kids {
		switch k.kind {
		case "kern", "glue":
			x += d + k.w
			d = 0
			continue
		}
		x += d + k.h
		d = k.d
		if !inf(k.w) {
			w = math.Max(w, k.w)
		}
	}
	b.w = w
	if d > limit {
		x += d - limit
		d = limit
	}
	b.d = d
	if additional {
		h += x
	}
	b.h = h
	b.setGlue(h-x, math.Abs(h)+math.Abs(x))
}

// scale shrinks or grows a subtree. It reports whether a node that was grown
// more than limit levels was asked to shrink.
func (b *rbox) scale(grow bool) (stuck bool) {
	f := shrinkBy
	if grow {
		f = 1 / shrinkBy
		b.level++
	} else {
		b.level--
	}
	for _, k := range b.kids {
		stuck = k.scale(grow) || stuck
	}
	if !grow && b.level >= 6 {
		// known finding of C19: such a node does not shrink
		if b.kind == "accent" {
			b.measure()
		}
		return true
	}
	b.w *= f
	b.h *= f
	b.d *= f
	b.shift *= f
	b.set *= f
	b.adv *= f
	b.ft.Size *= f
	if b.kind == "accent" {
		b.measure()
	}
	return stuck
}

// shipper draws a reference tree.
type shipper struct {
	ops      []drawOp
	ox, oy   float64
	ruleDown bool // rules of vertical lists are drawn one rule height too low
	rootH    bool // a root that is a vertical list is drawn as a horizontal one
	near     bool
	vrules   bool // met a rule in a vertical list
	depth    int
}

func refShip(root *rbox, ox, oy float64, ruleDown, rootH bool) *shipper {
	s := &shipper{ox: ox, oy: oy + root.h, ruleDown: ruleDown, rootH: rootH}
	if root.kind == "vlist" && !rootH {
		s.vout(root, root.w, 0, 0)
	} else {
		s.hout(root, 0, 0)
	}
	return s
}

type glueSetter struct {
	b       *rbox
	cum     float64
	rounded float64
}

// advance returns the size glue g takes, rounding the accumulated setting.
func (s *shipper) glue(gs *glueSetter, g *rbox) float64 {
	b := gs.b
	x := 0.0
	switch {
	case b.sign > 0 && g.sto == b.order:
		x = g.st
	case b.sign < 0 && g.sho == b.order:
		x = g.sh
	}
	if b.sign == 0 {
		return g.w
	}
	if b.near {
		s.near = true
	}
	old := gs.rounded
	if (b.sign > 0 && g.sto == b.order) || (b.sign < 0 && g.sho == b.order) {
		gs.cum += x
		v := b.set * gs.cum
		if fr := math.Abs(v - math.Trunc(v)); math.Abs(fr-0.5) < 1e-6 {
			s.near = true
		}
		gs.rounded = math.Round(math.Max(-1e9, math.Min(1e9, v)))
	}
	return g.w + gs.rounded - old
}

func (s *shipper) hout(b *rbox, x, y float64) {
	gs := &glueSetter{b: b}
	for _, k := range b.kids {
		switch k.kind {
		case "char":
			s.ops = append(s.ops, drawOp{x: x + s.ox, y: y + s.oy, sym: k.sym, ft: k.ft, dpi: k.dpi})
		case "accent":
			s.ops = append(s.ops, drawOp{x: x + s.ox - k.m.XMin, y: y + s.oy + k.m.YMin, sym: k.sym, ft: k.ft, dpi: k.dpi})
		case "hlist":
			s.hout(k, x, y+k.shift)
		case "vlist":
			s.vout(k, k.w, x, y+k.shift)
		case "rule":
			h, d := k.h, k.d
			if inf(h) {
				h = b.h
			}
			if inf(d) {
				d = b.d
			}
			if h+d > 0 && k.w > 0 {
				s.ops = append(s.ops, drawOp{rect: true, x: x + s.ox, y: y + s.oy - h, x2: x + s.ox + k.w, y2: y + s.oy + d})
			}
		case "glue":
			x += s.glue(gs, k)
			continue
		}
		x += k.w
	}
}

// vout draws a vertical list whose baseline is at y; w is the width its
// running rules get.
func (s *shipper) vout(b *rbox, w, x, y float64) {
	gs := &glueSetter{b: b}
	y -= b.h
	for _, k := range b.kids {
		switch k.kind {
		case "kern":
			y += k.w
		case "glue":
			y += s.glue(gs, k)
		case "hlist":
			s.hout(k, x+k.shift, y+k.h)
			y += k.h + k.d
		case "vlist":
			s.vout(k, w, x+k.shift, y+k.h)
			y += k.h + k.d
		case "box":
			if k.h+k.d > 0 {
				y += k.h + k.d
			}
		case "rule":
			rw := k.w
			if inf(rw) {
				rw = w
			}
			if k.h+k.d > 0 {
				s.vrules = true
				at := y
				if s.ruleDown {
					at += k.h + k.d
				}
				s.ops = append(s.ops, drawOp{rect: true, x: x + s.ox, y: at + s.oy, x2: x + s.ox + rw, y2: at + s.oy + k.h + k.d})
				y += k.h + k.d
			}
		}
	}
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b))
}

func sameOp(a, b drawOp) bool {
	if a.rect != b.rect || !near(a.x, b.x) || !near(a.y, b.y) {
		return false
	}
	if a.rect {
		return near(a.x2, b.x2) && near(a.y2, b.y2)
	}
	return a.sym == b.sym && a.dpi == b.dpi && a.ft.Name == b.ft.Name && a.ft.Type == b.ft.Type && near(a.ft.Size, b.ft.Size)
}

func sameOps(a, b []drawOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameOp(a[i], b[i]) {
			return false
		}
	}
	return true
}
