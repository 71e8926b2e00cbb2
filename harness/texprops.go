package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// Box trees and their histories are encoded as strings.
//
//	cX aX        character, accent X (a digit)
//	rX kX gX bX  rule, kern, glue, strut X
//	AX           character made to fit target X
//	H..) K..) V..) C..) D..)  horizontal, kerned, vertical, centred lists
//
// and, after a list: pX qX pack to a size, or by an additional size; lX pack a
// vertical list with a depth limit, mX nX and to a size, or by an additional
// size; sX set the shift; - + shrink, grow.
// After the tree: ;N- or ;N+ shrinks or grows the Nth node, ;! ships the tree.

var (
	boxSyms   = []string{"a", "b", " ", "-", `\alpha`, "é", "`", "x"}
	boxSizes  = []float64{40, 9.25, 0, 17.625, 60.5, -3.5, 70000.25, -70000.25, 5e9, -5e9}
	boxAdds   = []float64{10.25, -6.125, 0.375, -30.75, 90.625, 0, 3e5, -3e5, 4e9, -4e9}
	boxLimits = []float64{0, 2.5, 100, 0.0625}
	boxShifts = []float64{3.375, -4.625, 0}
	boxKerns  = []float64{3.0625, -2.25, 7.5, 0}
	boxFonts  = []font.Font{{Name: "default", Type: "rm", Size: 16}, {Name: "default", Type: "it", Size: 16}, {Name: "default", Type: "rm", Size: 8}}
	boxTarget = [][2]float64{{20, 5}, {7.5, 0}, {40, 11.25}, {3, 9}, {16, -2}, {12.5, 12.5}}
)

type boxPair struct {
	real tex.Node
	ref  *rbox
}

type boxDec struct {
	s     string
	i     int
	be    *synth
	dpi   float64
	all   []boxPair // in order of construction: children before parents
	used  map[string]bool
	hist  bool
	stuck bool
	lists []callerList
}

// callerList is a list of items that belongs to the caller.
type callerList struct {
	what  string
	list  []tex.Node // with room for more items behind it
	items []tex.Node
}

// lend returns the list to pass to a constructor.
func (d *boxDec) lend(what string, rs []tex.Node) []tex.Node {
	room := make([]tex.Node, len(rs)+3)
	copy(room, rs)
	d.lists = append(d.lists, callerList{what, room, append([]tex.Node{}, room...)})
	return room[:len(rs)]
}

// returned checks that the lists of the caller are as they were, and then
// changes them: they belong to the caller.
func (d *boxDec) returned(w *Worker) bool {
	for _, l := range d.lists {
		for i := range l.list {
			if l.list[i] != l.items[i] {
				w.Fail("making %s changed item %d of the list of the caller", l.what, i)
				return false
			}
			l.list[i] = nil
			if i%2 == 1 {
				l.list[i] = tex.NewKern(1e3)
			}
		}
	}
	d.lists = nil
	return true
}

func (d *boxDec) state(i int) tex.State { return tex.NewState(d.be, boxFonts[i], d.dpi) }

func (d *boxDec) digit() int {
	c := int(d.s[d.i] - '0')
	d.i++
	return c
}

func (d *boxDec) list() (rs []tex.Node, fs []*rbox) {
	for d.s[d.i] != ')' {
		p := d.node()
		rs = append(rs, p.real)
		fs = append(fs, p.ref)
	}
	d.i++
	return
}

var boxRules = [][3]float64{
	{2.5, 6.125, 1.75}, {1.25, 5, 0}, {0.75, 0, 3.5},
	{math.Inf(1), 0.625, 0.625}, {math.Inf(1), 1.5, 0},
	{1.5, math.Inf(1), math.Inf(1)}, {4, 0, 0}, {0, 3, 3},
}

var boxStruts = [][3]float64{{5.5, 0, 0}, {0, 12.25, 4.125}, {0, 0, 7.75}, {0, 3.5, 0}}

func (d *boxDec) node() (p boxPair) {
	op := d.s[d.i]
	d.i++
	d.used[string(op)] = true
	switch op {
	case 'c', 'a': // symbol digit and font digit
		sym, ft := boxSyms[d.digit()], d.digit()
		if op == 'c' {
			p = boxPair{tex.NewChar(sym, d.state(ft), ft == 1), rChar(sym, boxFonts[ft], d.dpi, ft == 1)}
		} else {
			p = boxPair{tex.NewAccent(sym, d.state(ft), ft == 1), rAccent(sym, boxFonts[ft], d.dpi, ft == 1)}
		}
	case 'r':
		k := d.digit()
		switch k {
		case 8: // of the thickness of the font
			t := synthThick(boxFonts[2], d.dpi)
			p = boxPair{tex.HRule(d.state(2), -1), rRule(math.Inf(1), t/2, t/2)}
		case 9:
			t := synthThick(boxFonts[0], d.dpi)
			p = boxPair{tex.VRule(d.state(0)), rRule(t, math.Inf(1), math.Inf(1))}
		default:
			r := boxRules[k]
			if k == 3 {
				p = boxPair{tex.HRule(d.state(0), 1.25), rRule(r[0], r[1], r[2])}
			} else {
				p = boxPair{tex.NewRule(r[0], r[1], r[2], d.state(0)), rRule(r[0], r[1], r[2])}
			}
		}
	case 'k':
		w := boxKerns[d.digit()]
		p = boxPair{tex.NewKern(w), rKern(w)}
	case 'g':
		g := glueKinds[d.digit()]
		p = boxPair{tex.NewGlue(g), rGlue(g)}
	case 'b':
		b := boxStruts[d.digit()]
		if b[0] != 0 {
			p = boxPair{tex.HBox(b[0]), rBox(b[0], 0, 0)}
		} else {
			p = boxPair{tex.VBox(b[1], b[2]), rBox(0, b[1], b[2])}
		}
	case 'A':
		t, ft := boxTarget[d.digit()], boxFonts[0]
		sym := boxSyms[4]
		factor := 0.0
		if d.i < len(d.s) && d.s[d.i] == 'x' {
			d.i++
			factor = 1.75
		}
		p.real = tex.AutoHeightChar(sym, t[0], t[1], d.state(0), factor)
		p.ref = rFit(sym, t[0], t[1], ft, d.dpi, factor)
	case 'H', 'K', 'C':
		rs, fs := d.list()
		switch op {
		case 'C':
			p = boxPair{tex.HCentered(d.lend("a centred list", rs)), rHCentered(fs)}
		default:
			p = boxPair{tex.HListOf(d.lend("a horizontal list", rs), op == 'K'), rHList(fs, op == 'K')}
		}
	case 'V', 'D':
		rs, fs := d.list()
		if op == 'D' {
			p = boxPair{tex.VCentered(d.lend("a centred list", rs)), rVCentered(fs)}
		} else {
			p = boxPair{tex.VListOf(d.lend("a vertical list", rs)), rVList(fs)}
		}
	default:
		panic("bad box tree " + d.s)
	}
	d.all = append(d.all, p)
	for d.i < len(d.s) && strings.IndexByte("pqlmns-+", d.s[d.i]) >= 0 {
		d.ops(p)
	}
	return p
}

// rFit is a character scaled to a total height and lowered to a depth.
func rFit(c string, h, dp float64, ft font.Font, dpi, factor float64) *rbox {
	return rFitOn(plainSynth, c, h, dp, ft, dpi, factor)
}

func rFitOn(be font.Backend, c string, h, dp float64, ft font.Font, dpi, factor float64) *rbox {
	ch := rCharOn(be, c, ft, dpi, true)
	if factor == 0 {
		factor = (h + dp) / (ch.h + ch.d)
	}
	ft.Size *= factor
	ch = rCharOn(be, c, ft, dpi, true)
	b := rHList([]*rbox{ch}, true)
	b.shift = dp - ch.d
	return b
}

func (d *boxDec) ops(p boxPair) {
	op := d.s[d.i]
	d.i++
	d.hist = true
	d.used["op"+string(op)] = true
	switch op {
	case '-', '+':
		if op == '-' {
			p.real.Shrink()
		} else {
			p.real.Grow()
		}
		d.stuck = p.ref.scale(op == '+') || d.stuck
	case 'p', 'q', 'l', 'm', 'n':
		k := d.digit()
		switch l := p.real.(type) {
		case *tex.HList:
			if op == 'p' {
				l.HPack(boxSizes[k], false)
				p.ref.hpack(boxSizes[k], false)
			} else {
				l.HPack(boxAdds[k], true)
				p.ref.hpack(boxAdds[k], true)
			}
		case *tex.VList:
			switch op {
			case 'p':
				l.VPack(boxSizes[k], false, math.Inf(1))
				p.ref.vpack(boxSizes[k], false, math.Inf(1))
			case 'q':
				l.VPack(boxAdds[k], true, math.Inf(1))
				p.ref.vpack(boxAdds[k], true, math.Inf(1))
			case 'l':
				l.VPack(0, true, boxLimits[k])
				p.ref.vpack(0, true, boxLimits[k])
			case 'm':
				l.VPack(boxSizes[k], false, boxLimits[k%4])
				p.ref.vpack(boxSizes[k], false, boxLimits[k%4])
			case 'n':
				l.VPack(boxAdds[k], true, boxLimits[k%4])
				p.ref.vpack(boxAdds[k], true, boxLimits[k%4])
			}
		}
	case 's':
		k := d.digit()
		if l, ok := p.real.(*tex.VList); ok {
			l.SetShift(boxShifts[k])
			p.ref.shift = boxShifts[k]
		}
	}
}

type treeNode interface {
	tex.Tree
}

// sameBox compares a real tree with its reference.
func sameBox(w *Worker, n tex.Node, r *rbox, path string, kerns bool, glue bool) bool {
	w.Trans(1)
	ok := true
	if !near(n.Width(), r.w) || !near(n.Height(), r.h) || !near(n.Depth(), r.d) {
		w.Fail("%s %s measures w=%g h=%g d=%g, want w=%g h=%g d=%g", r.kind, path, n.Width(), n.Height(), n.Depth(), r.w, r.h, r.d)
		return false
	}
	if s, isH := n.(interface{ Shift() float64 }); isH && !near(s.Shift(), r.shift) {
		w.Fail("%s %s is shifted by %g, want %g", r.kind, path, s.Shift(), r.shift)
		return false
	}
	t, isTree := n.(tex.Tree)
	if !isTree {
		return true
	}
	kids := t.Nodes()
	if len(kids) != len(r.kids) {
		w.Fail("%s %s has %d items, want %d", r.kind, path, len(kids), len(r.kids))
		return false
	}
	if glue && !r.near {
		switch {
		case t.GlueSign() != r.sign:
			w.Fail("glue of %s %s has sign %d, want %d", r.kind, path, t.GlueSign(), r.sign)
			return false
		case r.sign != 0 && (t.GlueOrder() != r.order || !near(t.GlueSet(), r.set)):
			w.Fail("glue of %s %s is set by %g at order %d, want %g at %d", r.kind, path, t.GlueSet(), t.GlueOrder(), r.set, r.order)
			return false
		}
	}
	for i, k := range kids {
		if kerns {
			_, isKern := k.(*tex.Kern)
			if isKern != (r.kids[i].kind == "kern") {
				w.Fail("item %d of %s %s is a %T, want a %s", i, r.kind, path, k, r.kids[i].kind)
				return false
			}
		}
		ok = sameBox(w, k, r.kids[i], path+"."+strconv.Itoa(i), kerns, glue) && ok
	}
	return ok
}

type boxAspects struct {
	dims, ship bool
}

var origins = [][2]float64{{0, 0}, {12.5, -7.25}, {-1000, 4096}}

// runBox builds the tree on both sides, applies its history, and compares.
func runBox(w *Worker, cs string, as boxAspects) {
	s := cs
	post := ""
	if i := strings.IndexByte(s, ';'); i >= 0 {
		s, post = cs[:i], cs[i+1:]
	}
	d := &boxDec{s: s, be: &synth{}, dpi: 72, used: map[string]bool{}}
	if strings.HasPrefix(s, "@") { // another resolution
		d.dpi = 150
		d.i = 1
	}
	var p boxPair
	if msg := try(func() { p = d.node() }); msg != "" {
		w.Fail("building the tree: %s", msg)
		return
	}
	if !d.returned(w) {
		return
	}
	root, isTree := p.real.(tex.Tree)
	if !isTree || d.i != len(s) {
		w.Count("not-a-list")
		return
	}
	shipped := false
	var ship tex.Ship
	check := func(when string) bool {
		if as.dims && !shipped && !sameBox(w, p.real, p.ref, "0", true, true) {
			return false
		}
		if !as.ship {
			return true
		}
		o := origins[0]
		n := 1
		if when == "" {
			n = 3
		}
		for i := 0; i < n; i++ {
			o = origins[i]
			d.be.ops = nil
			sh := &ship
			if i == 1 {
				sh = new(tex.Ship)
			}
			if msg := try(func() { sh.Call(o[0], o[1], root) }); msg != "" {
				w.Fail("%sshipping at %v: %s", when, o, msg)
				return false
			}
			shipped = true
			w.Trans(1)
			got := d.be.ops
			d.be.ops = nil
			want := refShip(p.ref, o[0], o[1], false, false)
			if want.near {
				w.Count("rounding-undetermined")
				return true
			}
			if sameOps(got, want.ops) {
				continue
			}
			rootV := p.ref.kind == "vlist"
			switch {
			case sameOps(got, refShip(p.ref, o[0], o[1], true, false).ops):
				w.foundFinding("rule-in-vertical-list", "rules of vertical lists are drawn one rule height too low\n  %s\nwant\n  %s", showOps(got), showOps(want.ops))
			case rootV && (sameOps(got, refShip(p.ref, o[0], o[1], true, true).ops) || sameOps(got, refShip(p.ref, o[0], o[1], false, true).ops)):
				w.foundFinding("vertical-root", "a vertical list that is shipped itself is drawn as a horizontal one\n  %s\nwant\n  %s", showOps(got), showOps(want.ops))
			default:
				w.Fail("%sshipping at %v (call %d) draws\n  %s\nwant\n  %s", when, o, i+1, showOps(got), showOps(want.ops))
				return false
			}
		}
		return true
	}
	kind := ""
	for _, k := range sortedKeys(d.used) {
		kind += k
	}
	w.State(kind, p.ref.kind, fmt.Sprint(len(p.ref.kids), p.ref.sign, p.ref.order, math.Round(p.ref.w), math.Round(p.ref.h), math.Round(p.ref.d)))
	for _, op := range strings.Split(post, ";") {
		if op == "" {
			continue
		}
		if op == "!" {
			if !check("before the end of the history, ") {
				return
			}
			continue
		}
		k, err := strconv.Atoi(op[:len(op)-1])
		if err != nil || k >= len(d.all) {
			return
		}
		q := d.all[k]
		grow := op[len(op)-1] == '+'
		if msg := try(func() {
			if grow {
				q.real.Grow()
			} else {
				q.real.Shrink()
			}
		}); msg != "" {
			w.Fail("%s: %s", op, msg)
			return
		}
		d.stuck = q.ref.scale(grow) || d.stuck
		w.Trans(1)
	}
	check("")
	if d.stuck && w.c.id == "C19" {
		w.foundFinding("shrink-after-7-grows", "a node that was grown 7 times or more does not shrink")
	}
}

// foundFinding reports a recorded defect where it belongs, in C18 and C19;
// the other properties accept it.
func (w *Worker) foundFinding(key, format string, args ...any) {
	if w.c.id == "C18" || w.c.id == "C19" && key == "shrink-after-7-grows" {
		w.FailKey(key, format, args...)
	}
}

type boxSpace struct {
	leaves, lists []string
}

func seqs(alphabet []string, n int, f func(string)) {
	var rec func(s string, left int)
	rec = func(s string, left int) {
		f(s)
		if left == 0 {
			return
		}
		for _, a := range alphabet {
			rec(s+a, left-1)
		}
	}
	rec("", n)
}

func exact(alphabet []string, n int, f func(string)) {
	var rec func(s string, left int)
	rec = func(s string, left int) {
		if left == 0 {
			f(s)
			return
		}
		for _, a := range alphabet {
			rec(s+a, left-1)
		}
	}
	rec("", n)
}

// everyLeaf calls emit with every leaf of a horizontal or vertical list, and
// every pair and, if asked, triple of them. Characters and rules that run
// along the list do not belong in it.
func everyLeaf(n int, vertical bool, emit func(string)) {
	var leaves []string
	for i := range boxSyms {
		for j := range boxFonts {
			if !vertical {
				leaves = append(leaves, fmt.Sprintf("c%d%d", i, j), fmt.Sprintf("a%d%d", i, j))
			}
		}
	}
	for i := 0; i < 10; i++ {
		if along := strings.Contains("348", strconv.Itoa(i)); vertical && i != 5 && i != 9 || !vertical && !along {
			leaves = append(leaves, fmt.Sprintf("r%d", i))
		}
	}
	for i := range boxKerns {
		leaves = append(leaves, fmt.Sprintf("k%d", i))
	}
	for i := range glueKinds {
		leaves = append(leaves, fmt.Sprintf("g%d", i))
	}
	for i := range boxStruts {
		leaves = append(leaves, fmt.Sprintf("b%d", i))
	}
	for i := range boxTarget {
		leaves = append(leaves, fmt.Sprintf("A%d", i), fmt.Sprintf("A%dx", i))
	}
	// lists, and empty ones with an extent
	leaves = append(leaves, "H)", "H)p1", "H)q1", "V)", "V)p1", "V)q1s1", "V)m1", "Hc10r0)p1", "Kc00k0c10)", "Vr1b1)s0", "Vb1r0)p1", "Db1)p1", "Cr0)q1")
	seqs(leaves, n, emit)
}

const boxStates = "state: distinct (constructs and operations used, kind, glue setting and rounded size of the packed root); transition: node measured, operation or shipping on the real code"

func init() {
	hItems := []string{"c00", "c20", "c31", "a50", "r0", "r5", "k0", "k1", "g0", "g7", "b0", "b1", "H)", "Hc10r0)p0", "Vb1b3)s0", "Vb1)l0s1", "A0", "V)p1"}
	vItems := []string{"r0", "r3", "k0", "k1", "g1", "g7", "b1", "b0", "b2", "Hc00c10)", "H)", "Vb1r1)s0", "Hb2k2)", "V)", "Va0)"[0:0] + "Vk1b3k0)s1", "V)p1s0", "H)p0"}
	hOps := []string{"p0", "p1", "p2", "q0", "q1", "q3", "q5", "-", "+"}
	vOps := []string{"p0", "p1", "q0", "q1", "q5", "l0", "l1", "m0", "m1", "n1", "s0", "-", "+"}

	register(&Check{
		id:        "C16",
		rule:      "every list of up to 4 (5) items of 17 kinds, horizontal, kerned, centred and vertical, times every sequence of packing operations; every tree of lists with a bounded number of nodes; the dimensions of every node are compared with the box model",
		stateRule: boxStates,
		gen: func(g *Gen) {
			g.Phase("horizontal")
			seqs(hItems, pick(g, 4, 5), func(s string) {
				for _, o := range []string{"H", "K", "C"} {
					g.Emit(o + s + ")")
				}
				g.Emit("@K" + s + ")")
			})
			g.Phase("vertical")
			seqs(vItems, pick(g, 4, 5), func(s string) {
				for _, o := range []string{"V", "D"} {
					g.Emit(o + s + ")")
					g.Emit(o + s + ")l0")
					g.Emit(o + s + ")l1")
				}
			})
			g.Phase("every-leaf")
			everyLeaf(pick(g, 2, 3), false, func(s string) {
				for _, o := range []string{"H", "@H", "K", "@K", "C"} {
					g.Emit(o + s + ")")
				}
				g.Emit("VH" + s + ")p0)m1")
			})
			everyLeaf(pick(g, 2, 3), true, func(s string) {
				g.Emit("V" + s + ")")
				g.Emit("D" + s + ")")
				g.Emit("HV" + s + ")p0s0)p0")
			})
			packHistories(g, hItems, vItems, hOps, vOps, pick(g, 3, 4))
			g.Phase("trees")
			boxTrees(g, pick(g, 6, 7), func(s string) { g.Emit(s) })
			g.Phase("modified-later")
			boxTrees(g, pick(g, 5, 6), func(s string) {
				d := strings.Count(s, "c") + 6
				for i := 0; i < d; i++ {
					g.Emit(s + ";" + strconv.Itoa(i) + "-")
				}
			})
			g.Phase("large")
			bigBoxes(pick(g, 60, 200), g.Emit)
			hugeBoxes(g, g.Emit)
		},
		run: func(w *Worker, cs string) { runBox(w, cs, boxAspects{dims: true}) },
	})

	glues := []string{"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7"}
	register(&Check{
		id:        "C17",
		rule:      "every list of up to 4 (5) pieces of glue of all kinds, among other items, times packing to sizes that stretch and shrink and sequences of packings; the setting of the glue and what shipping draws are compared with the box model",
		stateRule: boxStates,
		gen: func(g *Gen) {
			n := pick(g, 4, 5)
			g.Phase("glue-horizontal")
			seqs(glues, n, func(s string) {
				for _, o := range []string{"", "p0", "p1", "p3", "p4", "p5", "q0", "q1", "q2", "q3", "q4"} {
					g.Emit("H" + s + "c00)" + o)
					g.Emit("Hc00" + strings.ReplaceAll(s, "g", "c10g") + "r0)" + o)
				}
			})
			g.Phase("glue-vertical")
			seqs(glues, n, func(s string) {
				for _, o := range []string{"", "p0", "p1", "p3", "p4", "p5", "q0", "q1", "q3", "q4"} {
					v := "V" + strings.ReplaceAll(s, "g", "Hc00)g") + "r0)" + o
					g.Emit("H" + v + "c10)")
				}
			})
			g.Phase("repacked")
			seqs(glues, 2, func(s string) {
				for _, a := range hOps {
					for _, b := range hOps {
						g.Emit("Hc00" + s + "c10)" + a + b)
						g.Emit("HVHc00)" + s + "r0)" + a + b + "c10)")
						if g.thorough {
							for _, c := range hOps {
								g.Emit("Hc00" + s + "c10)" + a + b + c)
								g.Emit("HVHc00)" + s + "r0)" + a + b + c + "c10)")
							}
						}
					}
				}
			})
			g.Phase("centred")
			seqs([]string{"c00", "r0", "k1", "Hc10)", "g0", "g7", "g3"}, pick(g, 4, 5), func(s string) {
				for _, o := range []string{"", "p0", "p1", "p4", "q0", "q1", "q3", "q4"} {
					g.Emit("C" + s + ")" + o)
					g.Emit("HC" + s + ")" + o + "c10C" + s + ")" + o + ")")
				}
			})
			seqs([]string{"r0", "r3", "k1", "Hc10)", "g0", "g7"}, pick(g, 4, 5), func(s string) {
				for _, o := range []string{"", "p0", "p1", "p4", "q0", "q1", "q3", "q4"} {
					g.Emit("HD" + s + ")" + o + ")")
				}
			})
			g.Phase("nested")
			nestedGlue := &treeGen{leaves: []string{"c00", "g0", "g7", "g4"}, opens: []string{"H", "C"}}
			_ = nestedGlue
			for n := 1; n <= pick(g, 6, 7); n++ {
				for _, s := range hTrees(n, []string{"c00", "g0", "g7", "g4"}, []string{"p0", "q3"}) {
					g.Emit(s)
				}
			}
			g.Phase("large")
			for k := 1; k < pick(g, 120, 500); k++ {
				for _, gl := range glues {
					g.Emit("Hc00" + strings.Repeat(gl, k) + "c10)p4")
					g.Emit("Hc00" + strings.Repeat(gl+"k0", k) + "c10)q1")
					g.Emit("HVHc00)" + strings.Repeat("g0"+gl, k) + "r0)p0)")
				}
			}
			g.Phase("extreme-sizes")
			seqs(glues, n-1, func(s string) {
				for _, o := range []string{"p6", "p7", "p8", "p9", "q6", "q7", "q8", "q9"} {
					g.Emit("H" + s + "c00)" + o)
					g.Emit("Hc00" + strings.ReplaceAll(s, "g", "c10g") + "r0)" + o)
					g.Emit("HV" + strings.ReplaceAll(s, "g", "Hc00)g") + "r0)" + o + "c10)")
				}
			})
			hugeBoxes(g, g.Emit)
		},
		run: func(w *Worker, cs string) { runBox(w, cs, boxAspects{dims: true, ship: true}) },
	})

	register(&Check{
		id:        "C18",
		rule:      "every horizontal and vertical list of up to 4 (5) items of 17 kinds and every tree of lists with a bounded number of nodes, shipped three times at different places by the same and another shipper; the drawing operations are compared one by one with the box model",
		stateRule: boxStates,
		gen: func(g *Gen) {
			g.Phase("horizontal")
			seqs(hItems, pick(g, 4, 5), func(s string) { g.Emit("H" + s + ")") })
			g.Phase("stretched")
			seqs(append(hItems[:len(hItems):len(hItems)], "g3"), pick(g, 3, 4), func(s string) {
				if strings.Contains(s, "g") {
					g.Emit("H" + s + "c10)q0")
					g.Emit("H" + s + "c10)q1")
				}
			})
			seqs(append(vItems[:len(vItems):len(vItems)], "g3"), pick(g, 3, 4), func(s string) {
				if strings.Contains(s, "g") {
					g.Emit("Hc00V" + s + "r3)q0c10)")
					g.Emit("Hc00V" + s + "r3)n1s0c10)")
				}
			})
			g.Phase("vertical")
			seqs(vItems, pick(g, 4, 5), func(s string) {
				g.Emit("Hc00V" + s + ")c10)")
				if len(s) < 9 {
					g.Emit("V" + s + ")")
					g.Emit("HV" + s + ")s0c10)")
					g.Emit("HV" + s + ")l0s1c10)")
					g.Emit("Hc10VVr3" + s + ")s0r4Hc20))c00)")
				}
			})
			g.Phase("trees")
			boxTrees(g, pick(g, 6, 7), func(s string) { g.Emit(s); g.Emit("Hc00" + s + "r5r0)") })
			g.Phase("every-leaf")
			everyLeaf(pick(g, 2, 3), false, func(s string) {
				for _, o := range []string{"H", "@K", "C"} {
					g.Emit(o + s + ")")
				}
				g.Emit("Hb1c00H" + s + "b1)p0c10)p0")
			})
			everyLeaf(pick(g, 2, 3), true, func(s string) {
				g.Emit("HV" + s + "))")
				g.Emit("HD" + s + "))")
				g.Emit("Hb1c00V" + s + "b1)s0p0c10)p0")
			})
			g.Phase("histories")
			boxTrees(g, pick(g, 5, 6), func(s string) {
				n := strings.Count(s, "c") + 4
				for i := 0; i < n; i++ {
					g.Emit(s + ";!;" + strconv.Itoa(i) + "-;!;" + strconv.Itoa(n-1-i) + "+")
				}
			})
			g.Phase("large")
			bigBoxes(pick(g, 90, 300), g.Emit)
			hugeBoxes(g, g.Emit)
		},
		run: func(w *Worker, cs string) { runBox(w, cs, boxAspects{ship: true}) },
	})

	register(&Check{
		id:        "C19",
		rule:      "every node and every small tree, times every sequence of shrink and grow operations on its nodes, with shippings in between; dimensions and drawings are compared with the box model",
		stateRule: boxStates,
		gen: func(g *Gen) {
			g.Phase("one-node")
			leaves := []string{"c00", "c20", "c31", "a50", "r0", "r3", "r5", "k0", "k1", "g0", "g7", "b0", "b1", "H)", "Hc10r0)p0", "Cc10)p0", "Vb1b3)s0", "Vb1)l0s1", "A0", "A4", "Kc00c10)", "Dr0)p0"}
			for _, l := range leaves {
				exact([]string{"-", "+"}, pick(g, 8, 12), func(h string) {
					for i := 0; i <= len(h); i++ {
						if i > 3 && i < len(h) {
							continue
						}
						// operations before and after it is put in a list
						g.Emit("H" + l + h[:i] + "c10)" + h[i:])
					}
				})
			}
			g.Phase("every-leaf")
			for _, h := range []string{"-", "+", "-+", "--"} {
				everyLeaf(pick(g, 2, 3), false, func(s string) {
					g.Emit("H" + s + ")" + h)
					g.Emit("@K" + s + ")p0" + h)
				})
				everyLeaf(pick(g, 2, 3), true, func(s string) { g.Emit("HV" + s + "b1)s0p0)" + h) })
			}
			g.Phase("deep-histories")
			for _, l := range leaves {
				for k := 0; k < pick(g, 12, 30); k++ {
					for m := 0; m < pick(g, 12, 30); m++ {
						g.Emit("H" + l + ")" + strings.Repeat("-", k) + strings.Repeat("+", m))
						g.Emit("H" + l + ")" + strings.Repeat("+", k) + strings.Repeat("-", m) + strings.Repeat("+", k))
					}
				}
			}
			g.Phase("trees")
			boxTrees(g, pick(g, 5, 6), func(s string) {
				for _, h := range []string{"-", "+", "--", "++-", "-+", "+-"} {
					g.Emit(s + h)
					g.Emit("Hc00" + s + h + "k0" + s + ")")
				}
			})
			g.Phase("parts")
			boxTrees(g, pick(g, 5, 6), func(s string) {
				n := strings.Count(s, "c") + 4
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						g.Emit(s + ";" + strconv.Itoa(i) + "-;" + strconv.Itoa(j) + "-")
						g.Emit(s + ";" + strconv.Itoa(i) + "-;!;" + strconv.Itoa(j) + "+")
					}
				}
			})
			packHistories(g, []string{"c00", "g0", "g7", "k1", "r0"}, []string{"r0", "g1", "k0", "Hc00)"}, hOps, vOps, pick(g, 4, 5))
			g.Phase("large")
			bigBoxes(pick(g, 40, 150), func(s string) { g.Emit(s + "-"); g.Emit(s + "+--") })
			hugeBoxes(g, func(s string) { g.Emit(s + "\x01=-+-"); g.Emit(s + "\x01=+--") })
		},
		run: func(w *Worker, cs string) {
			if strings.Contains(cs, ";") || len(cs) < 3 || strings.IndexByte("HKVCD", cs[0]) >= 0 {
				runBox(w, cs, boxAspects{dims: true, ship: true})
			}
		},
	})

	register(&Check{
		id:        "C20",
		rule:      "every sequence of up to 4 (5) nodes of all kinds (characters in several fonts and sizes, accents, spaces), kerned and unkerned, at two resolutions, on a synthetic font whose kerning depends on every argument; every target of every character that is made to fit",
		stateRule: boxStates,
		gen: func(g *Gen) {
			items := []string{"c00", "c10", "c01", "c02", "c20", "c31", "a50", "a61", "k0", "g0", "b0", "r0", "Kc00)", "Vb1)", "c40", "c30"}
			g.Phase("kerned")
			seqs(items, pick(g, 4, 5), func(s string) {
				g.Emit("K" + s + ")")
				g.Emit("H" + s + ")")
				g.Emit("@K" + s + ")")
				g.Emit("HK" + s + ")K" + s + "c10))")
			})
			g.Phase("pairs")
			for a := range boxSyms {
				for b := range boxSyms {
					for f := 0; f < 9; f++ {
						for _, k := range []string{"cc", "ca", "ac", "aa"} {
							s := fmt.Sprintf("%c%d%d%c%d%d", k[0], a, f/3, k[1], b, f%3)
							g.Emit("K" + s + ")")
							g.Emit("@K" + s + ")")
							g.Emit("Kc00" + s + "c11)")
							for _, h := range []string{"-", "+", "--", "-+"} {
								g.Emit("K" + s[:3] + h + s[3:] + ")")
								g.Emit("K" + s[:3] + s[3:] + h + ")")
								g.Emit("K" + s + ")" + h)
							}
						}
					}
				}
			}
			g.Phase("fitted")
			for t := range boxTarget {
				for _, x := range []string{"", "x"} {
					for _, at := range []string{"", "@"} {
						f := fmt.Sprintf("A%d%s", t, x)
						g.Emit(at + f)
						g.Emit(at + "H" + f + ")")
						g.Emit(at + "Kc00" + f + "c10)")
						for u := range boxTarget {
							g.Emit(at + "K" + f + "c10" + fmt.Sprintf("A%d", u) + ")-")
						}
					}
				}
			}
			g.Phase("fitted-targets")
			for h := -8; h < pick(g, 120, 400); h++ {
				for d := -20; d < pick(g, 60, 200); d++ {
					for _, c := range []string{"0", "3", "4", "7"} {
						g.Emit(fmt.Sprintf("fit %s %d %d", c, h, d))
					}
				}
			}
			g.Phase("large")
			for k := 1; k < pick(g, 200, 1000); k++ {
				g.Emit("K" + strings.Repeat("c00c10", k) + ")")
				g.Emit("K" + strings.Repeat("c00a51c02", k) + ")")
			}
			for _, n := range edges(pick(g, 70001, 300001)) {
				g.Emit(big("K", rep{n, "c00"}, ")"))
				g.Emit(big("K", rep{n / 2, "c00c10"}, "a51)"))
				g.Emit(big("HKc10", rep{n, "c20"}, "c01)k1)"))
			}
		},
		run: func(w *Worker, cs string) {
			if strings.HasPrefix(cs, "fit ") {
				fitCase(w, cs)
				return
			}
			runBox(w, cs, boxAspects{dims: true, ship: true})
		},
	})
}

// fitCase: a character made to fit a height and depth has both.
func fitCase(w *Worker, cs string) {
	var c, h8, d8 int
	if n, _ := fmt.Sscanf(cs, "fit %d %d %d", &c, &h8, &d8); n != 3 {
		return
	}
	h, d := float64(h8)/4, float64(d8)/4
	if h+d <= 0 {
		return
	}
	for _, ft := range boxFonts {
		be := &synth{}
		l := tex.AutoHeightChar(boxSyms[c], h, d, tex.NewState(be, ft, 72), 0)
		w.Trans(1)
		ch := l.Nodes()[0]
		if !near(ch.Height()+ch.Depth(), h+d) {
			w.Fail("%q fitted to height %g and depth %g has a total height of %g", boxSyms[c], h, d, ch.Height()+ch.Depth())
			return
		}
		if !near(ch.Depth()+l.Shift(), d) {
			w.Fail("%q fitted to height %g and depth %g reaches down to %g", boxSyms[c], h, d, ch.Depth()+l.Shift())
			return
		}
		w.State("fit", fmt.Sprint(math.Round(ch.Height()), math.Round(l.Shift())))
		if !sameBox(w, l, rFit(boxSyms[c], h, d, ft, 72, 0), "0", true, true) {
			return
		}
	}
}

// packHistories emits lists of one or two items with every sequence of
// operations of at most n steps.
func packHistories(g *Gen, hItems, vItems, hOps, vOps []string, n int) {
	g.Phase("packings")
	seqs(hItems, 2, func(s string) {
		seqs(hOps, n, func(o string) {
			if len(s) > 8 && len(o) > 4 {
				return
			}
			g.Emit("H" + s + ")" + o)
		})
	})
	seqs(vItems, 2, func(s string) {
		seqs(vOps, n, func(o string) {
			if len(s) > 8 && len(o) > 4 {
				return
			}
			g.Emit("HV" + s + ")" + o + ")")
		})
	})
}

// hTrees returns all trees of horizontal lists with n nodes.
func hTrees(n int, leaves, ops []string) []string {
	t := &treeGen{leaves: leaves, opens: []string{"H", "C"}}
	// scripts of treeGen do not exist here
	var trees, forests func(n int) []string
	tm, fm := map[int][]string{}, map[int][]string{}
	trees = func(n int) []string {
		if l, ok := tm[n]; ok {
			return l
		}
		var out []string
		if n == 1 {
			out = append(out, t.leaves...)
		}
		for _, o := range t.opens {
			for _, f := range forests(n - 1) {
				out = append(out, o+f+")")
				if f != "" {
					for _, op := range ops {
						out = append(out, o+f+")"+op)
					}
				}
			}
		}
		tm[n] = out
		return out
	}
	forests = func(n int) []string {
		if l, ok := fm[n]; ok {
			return l
		}
		var out []string
		if n == 0 {
			out = []string{""}
		}
		for k := 1; k <= n; k++ {
			for _, a := range trees(k) {
				for _, b := range forests(n - k) {
					out = append(out, a+b)
				}
			}
		}
		fm[n] = out
		return out
	}
	var out []string
	for _, s := range trees(n) {
		if s[0] == 'H' || s[0] == 'C' {
			out = append(out, s)
		}
	}
	return out
}

// boxTrees emits all trees of horizontal and vertical lists of at most n nodes.
func boxTrees(g *Gen, n int, f func(string)) {
	hl := []string{"c00", "k1", "r5", "g7"}
	vl := []string{"r3", "k0", "b1", "g0"}
	type key struct {
		v bool
		n int
	}
	lm, fm := map[key][]string{}, map[key][]string{}
	var items, forests func(k key) []string
	lists := func(n int) []string { // all lists with n nodes
		if l, ok := lm[key{false, n}]; ok {
			return l
		}
		var out []string
		for _, s := range forests(key{false, n - 1}) {
			out = append(out, "H"+s+")")
			if s != "" && n <= 3 {
				out = append(out, "H"+s+")p0")
			}
		}
		for _, s := range forests(key{true, n - 1}) {
			out = append(out, "V"+s+")", "V"+s+")s0")
			if s != "" && n <= 3 {
				out = append(out, "V"+s+")q0")
			}
		}
		lm[key{false, n}] = out
		return out
	}
	items = func(k key) []string {
		var out []string
		if k.n == 1 {
			if k.v {
				out = append(out, vl...)
			} else {
				out = append(out, hl...)
			}
		}
		return append(out, lists(k.n)...)
	}
	forests = func(k key) []string {
		if l, ok := fm[k]; ok {
			return l
		}
		var out []string
		if k.n == 0 {
			out = []string{""}
		}
		for i := 1; i <= k.n; i++ {
			for _, a := range items(key{k.v, i}) {
				for _, b := range forests(key{k.v, k.n - i}) {
					out = append(out, a+b)
				}
			}
		}
		fm[k] = out
		return out
	}
	for i := 1; i <= n; i++ {
		for _, s := range lists(i) {
			f(s)
		}
	}
}

// hugeBoxes emits lists of very many items and very deep trees.
func hugeBoxes(g *Gen, emit func(string)) {
	g.Phase("huge")
	for _, n := range edges(pick(g, 70001, 300001)) {
		emit(big("H", rep{n, "c00"}, ")"))
		emit(big("K", rep{n, "c00"}, "r5)"))
		emit(big("Hr5", rep{n, "k0"}, "c10)"))
		emit(big("HV", rep{n, "r3"}, ")c10)"))
		emit(big("HV", rep{n, "Hc00)"}, ")s0c10)"))
		emit(big("H", rep{n, "g0c10"}, ")q0"))
		emit(big("HV", rep{n, "g7k0"}, ")q1c10)"))
	}
	for _, n := range edges(pick(g, 513, 2049)) {
		emit(big(rep{n, "Hc00"}, rep{n, "c10)"}))
		emit(big(rep{n, "HVr0"}, rep{n, "k1)s0c10)"}))
		emit(big(rep{n, "HVHc00c10)r3"}, rep{n, "b1)c20)"}))
	}
}

// bigBoxes emits wide and deep trees.
func bigBoxes(n int, emit func(string)) {
	for k := 1; k <= n; k++ {
		emit("H" + strings.Repeat("c00k0c10", k) + ")")
		emit("K" + strings.Repeat("c00r0", k) + "r5)")
		emit("HV" + strings.Repeat("Hc00)r0", k) + ")c10)")
		emit(strings.Repeat("Hc00", k) + strings.Repeat("c10)", k))
		emit(strings.Repeat("HVr0", k) + strings.Repeat("k1)s0c10)", k))
		emit("H" + strings.Repeat("Vr3", k) + strings.Repeat("Hc00))", k) + "c10)")
		emit(strings.Repeat("HVHc00c10)r3", k) + strings.Repeat("b1)c20)", k))
		emit("H" + strings.Repeat("Hc00g0)q0", k) + "c10)")
	}
}
