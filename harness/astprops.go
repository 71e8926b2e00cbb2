package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
)

// Trees are encoded as strings: wK nK sK iK are leaves with text K, 0 is nil,
// MK..) NK..) A..) O..) D..) L..) are nodes with children, ^X and _X scripts.
// N is a macro without a name.

var treeTexts = []string{"a", "", "b", `"`, `\`, ", ", "}", `ast.Word{"a"}`, "é", "\xff", "<nil>", "a\", \"b", "\n", `{`}

type treeDec struct {
	s    string
	i    int
	n    int
	zero bool // all positions are 0
	last ast.Node
}

func (d *treeDec) text() string {
	c := d.s[d.i]
	d.i++
	return treeTexts[c-'a']
}

func (d *treeDec) list() ast.List {
	var l ast.List
	for d.s[d.i] != ')' {
		l = append(l, d.node())
	}
	d.i++
	return l
}

func (d *treeDec) pos() token.Pos {
	if d.zero {
		return 0
	}
	return token.Pos(7 * d.n)
}

func (d *treeDec) node() ast.Node {
	c := d.s[d.i]
	d.i++
	d.n++
	p := d.pos()
	switch c {
	case '0':
		return nil
	case '=': // the last leaf again
		return d.last
	case 'w':
		d.last = &ast.Word{WordPos: p, Text: d.text()}
		return d.last
	case 'n':
		d.last = &ast.Literal{LitPos: p, Text: d.text()}
		return d.last
	case 's':
		d.last = &ast.Symbol{SymPos: p, Text: d.text()}
		return d.last
	case 'i':
		d.last = &ast.Ident{NamePos: p, Name: d.text()}
		return d.last
	case 'M':
		t := d.text()
		return &ast.Macro{Name: &ast.Ident{NamePos: p, Name: t}, Args: d.list()}
	case 'N':
		return &ast.Macro{Args: d.list()}
	case 'A':
		l := d.list()
		return &ast.Arg{Lbrace: p, List: l, Rbrace: d.pos()}
	case 'O':
		l := d.list()
		return &ast.OptArg{Lbrack: p, List: l, Rbrack: d.pos()}
	case 'D':
		l := d.list()
		return &ast.MathExpr{Delim: "$", Left: p, List: l, Right: d.pos()}
	case 'L':
		return d.list()
	case '^':
		return &ast.Sup{HatPos: p, Node: d.node()}
	case '_':
		return &ast.Sub{UnderPos: p, Node: d.node()}
	}
	panic("bad tree " + d.s)
}

func decodeTree(s string) ast.Node { return (&treeDec{s: s}).node() }

func decodeTree0(s string) ast.Node { return (&treeDec{s: s, zero: true}).node() }

// hugeTrees emits trees with very many nodes.
func hugeTrees(g *Gen, emit func(string)) {
	g.Phase("huge")
	for _, n := range edges(pick(g, 70001, 300001)) {
		for i, o := range []string{"Ma", "A", "O", "D", "L"} {
			emit(big("0", o, rep{n, []string{"wa", "0", "na", "Awa)", "ia"}[i]}, ")"))
			emit(big("0A", o, rep{n / 2, "sa0"}, ")wb)"))
		}
	}
	for _, n := range edges(pick(g, 2049, 20000)) {
		for _, o := range []string{"Ma", "A", "O", "D", "L"} {
			emit(big("0", rep{n, o + "0"}, "wa", rep{n, "wb)"}))
		}
		emit(big("0", rep{n, "^_"}, "wa"))
	}
}

// treeGen enumerates all trees by number of nodes.
type treeGen struct {
	leaves []string // nodes without children
	opens  []string // nodes with a list of children
	tm, fm map[int][]string
}

func (t *treeGen) trees(n int) []string {
	if t.tm == nil {
		t.tm, t.fm = map[int][]string{}, map[int][]string{}
	}
	if l, ok := t.tm[n]; ok {
		return l
	}
	var out []string
	if n == 1 {
		out = append(out, t.leaves...)
	}
	for _, o := range t.opens {
		for _, f := range t.forests(n - 1) {
			out = append(out, o+f+")")
		}
	}
	if n > 1 {
		for _, x := range t.trees(n - 1) {
			out = append(out, "^"+x, "_"+x)
		}
	}
	t.tm[n] = out
	return out
}

func (t *treeGen) forests(n int) []string {
	if l, ok := t.fm[n]; ok {
		return l
	}
	var out []string
	if n == 0 {
		out = []string{""}
	}
	for k := 1; k <= n; k++ {
		for _, a := range t.trees(k) {
			for _, b := range t.forests(n - k) {
				out = append(out, a+b)
			}
		}
	}
	t.fm[n] = out
	return out
}

// bigTrees emits wide, deep and mixed trees.
func bigTrees(n int, emit func(string)) {
	opens := []string{"Ma", "A", "O", "D", "L"}
	leaves := []string{"wa", "na", "sa", "ia", "0"}
	for k := 1; k <= n; k++ {
		for i, o := range opens {
			emit(o + strings.Repeat(leaves[(i+k)%5], k) + ")")
			if k%3 == 0 {
				emit(o + strings.Repeat("Aw"+string(rune('a'+k%3))+")0", k) + ")")
			}
			if k <= n/2 {
				emit(strings.Repeat(o, k) + "wa" + strings.Repeat(")", k))
				emit(strings.Repeat(o+"0wb", k) + strings.Repeat("na)", k))
				emit(strings.Repeat(o+"^", k) + "wa" + strings.Repeat(")", k))
			}
		}
		emit(strings.Repeat("^", k) + "wa")
		emit(strings.Repeat("_^", k) + "0")
	}
}

// ident identifies a node: pointers by themselves, lists by their storage.
func ident(n ast.Node) any {
	if l, ok := n.(ast.List); ok {
		if len(l) == 0 {
			return fmt.Sprintf("empty list (nil %v)", l == nil)
		}
		return [2]any{&l[0], len(l)}
	}
	return n
}

type event struct {
	visitor int
	node    any
}

// explorer drives one walk with a sequence of decisions.
type explorer struct {
	plan    []int // decisions to take
	taken   []int // decisions taken
	options int
	ev      []event
	next    int
	over    bool
}

func (x *explorer) choose() int {
	c := 0
	if len(x.taken) < len(x.plan) {
		c = x.plan[len(x.taken)]
	}
	x.taken = append(x.taken, c)
	return c
}

type expVisitor struct {
	x  *explorer
	id int
}

func (v *expVisitor) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		v.x.ev = append(v.x.ev, event{v.id, nil})
		return v.x.afterNil()
	}
	v.x.ev = append(v.x.ev, event{v.id, ident(n)})
	switch v.x.choose() {
	case 0:
		return v
	case 1:
		return nil
	default:
		v.x.next++
		return &expVisitor{v.x, v.x.next}
	}
}

// afterNil: what a visitor returns for nil means nothing.
func (x *explorer) afterNil() ast.Visitor {
	if x.over {
		return nil
	}
	return &expVisitor{x, -1}
}

// refWalk is the documented traversal.
func (x *explorer) refWalk(v int, n ast.Node) {
	x.ev = append(x.ev, event{v, ident(n)})
	switch x.choose() {
	case 0:
	case 1:
		return
	default:
		x.next++
		v = x.next
	}
	var kids []ast.Node
	switch n := n.(type) {
	case *ast.Macro:
		if n.Name != nil {
			kids = append(kids, n.Name)
		}
		kids = append(kids, n.Args...)
	case *ast.Arg:
		kids = n.List
	case *ast.OptArg:
		kids = n.List
	case *ast.MathExpr:
		kids = n.List
	case ast.List:
		kids = n
	case *ast.Sup:
		kids = []ast.Node{n.Node}
	case *ast.Sub:
		kids = []ast.Node{n.Node}
	}
	for _, k := range kids {
		if k != nil {
			x.refWalk(v, k)
		}
	}
	x.ev = append(x.ev, event{v, nil})
}

func sameEvents(a, b []event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showEvents(ev []event) string {
	var b strings.Builder
	for i, e := range ev {
		if i > 40 {
			b.WriteString(" ...")
			break
		}
		if e.node == nil {
			fmt.Fprintf(&b, " v%d(nil)", e.visitor)
		} else {
			fmt.Fprintf(&b, " v%d(%T)", e.visitor, e.node)
		}
	}
	return b.String()
}

// walkAll explores every sequence of decisions of at most max nodes, or only
// a few for larger trees.
func walkAll(w *Worker, cs string, n ast.Node, exhaustive bool, options int) {
	before := deepDump(n)
	check := func(plan []int) []int {
		r := &explorer{plan: plan, options: options}
		r.refWalk(0, n)
		x := &explorer{plan: plan, options: options, over: len(plan)%2 == 1}
		if p := try(func() { ast.Walk(&expVisitor{x, 0}, n) }); p != "" {
			w.Fail("Walk with decisions %v: %s", plan, p)
			return nil
		}
		w.Trans(len(r.ev))
		w.State("walk", fmt.Sprint(r.taken), fmt.Sprint(len(r.ev)))
		if !sameEvents(x.ev, r.ev) {
			w.Fail("Walk with decisions %v (0 keep the visitor, 1 prune, 2 new visitor) visits\n%s\nwant\n%s", plan, showEvents(x.ev), showEvents(r.ev))
			return nil
		}
		// the predicate form
		ok := true
		for _, c := range r.taken {
			ok = ok && c < 2
		}
		if ok {
			y := &explorer{plan: plan}
			if p := try(func() {
				ast.Inspect(n, func(k ast.Node) bool {
					if k == nil {
						y.ev = append(y.ev, event{0, nil})
						return len(y.ev)%2 == 0
					}
					y.ev = append(y.ev, event{0, ident(k)})
					return y.choose() == 0
				})
			}); p != "" {
				w.Fail("Inspect with decisions %v: %s", plan, p)
				return nil
			}
			if !sameEvents(y.ev, r.ev) {
				w.Fail("Inspect with decisions %v visits\n%s\nwant\n%s", plan, showEvents(y.ev), showEvents(r.ev))
				return nil
			}
		}
		return r.taken
	}
	if options == 0 { // a huge tree
		all := make([]int, strings.Count(cs, "")+1)
		if r := check(nil); r == nil {
			return
		} else {
			all = all[:min(len(r), len(all))]
		}
		for i := range all {
			all[i] = 2
		}
		if check(all) == nil {
			return
		}
		for i := range all {
			all[i] = min(i, i%5*i%3)
		}
		if check(all) == nil {
			return
		}
		all[len(all)-1] = 1
		if check(all) == nil {
			return
		}
	} else if exhaustive {
		plan := []int{}
		for {
			taken := check(plan)
			w.Count("walks")
			if taken == nil {
				return
			}
			// next sequence of decisions, depth first
			i := len(taken) - 1
			for i >= 0 && taken[i] == options-1 {
				i--
			}
			if i < 0 {
				break
			}
			plan = append(append([]int{}, taken[:i]...), taken[i]+1)
		}
	} else {
		taken := check(nil)
		if taken == nil {
			return
		}
		var all []int
		for i := range taken {
			all = append(all, 2)
			if i < 40 || i%17 == 0 || i > len(taken)-3 {
				for c := 1; c < 3; c++ {
					p := make([]int, i+1)
					p[i] = c
					if check(p) == nil {
						return
					}
				}
			}
		}
		if check(all) == nil {
			return
		}
	}
	if after := deepDump(n); after != before {
		w.Fail("the walk changed the tree\nbefore %s\nafter  %s", before, after)
	}
}

// deepDump shows everything there is in a tree.
func deepDump(n ast.Node) string { return dumpTree(n, true) }

func dumpTree(n ast.Node, all bool) string {
	b := new(strings.Builder)
	var rec func(n ast.Node)
	list := func(l []ast.Node) {
		b.WriteByte('(')
		if all && l == nil {
			b.WriteByte('-')
		}
		for _, k := range l {
			rec(k)
		}
		b.WriteByte(')')
	}
	leaf := func(k string, p token.Pos, s string) {
		b.WriteString(k)
		if all {
			b.WriteString(strconv.Itoa(int(p)))
		}
		b.WriteString(strconv.Quote(s))
	}
	rec = func(n ast.Node) {
		switch n := n.(type) {
		case nil:
			b.WriteByte('0')
		case *ast.Word:
			leaf("w", n.WordPos, n.Text)
		case *ast.Literal:
			leaf("n", n.LitPos, n.Text)
		case *ast.Symbol:
			leaf("s", n.SymPos, n.Text)
		case *ast.Ident:
			leaf("i", n.NamePos, n.Name)
		case *ast.Macro:
			b.WriteByte('M')
			if n.Name != nil {
				rec(n.Name)
			}
			list(n.Args)
		case *ast.Arg:
			b.WriteByte('A')
			if all {
				fmt.Fprintf(b, "%d-%d", n.Lbrace, n.Rbrace)
			}
			list(n.List)
		case *ast.OptArg:
			b.WriteByte('O')
			if all {
				fmt.Fprintf(b, "%d-%d", n.Lbrack, n.Rbrack)
			}
			list(n.List)
		case *ast.MathExpr:
			b.WriteByte('D')
			if all {
				fmt.Fprintf(b, "%q%d-%d", n.Delim, n.Left, n.Right)
			}
			list(n.List)
		case ast.List:
			b.WriteByte('L')
			list(n)
		case *ast.Sup:
			b.WriteByte('^')
			if all {
				fmt.Fprintf(b, "%d", n.HatPos)
			}
			rec(n.Node)
		case *ast.Sub:
			b.WriteByte('_')
			if all {
				fmt.Fprintf(b, "%d", n.UnderPos)
			}
			rec(n.Node)
		default:
			fmt.Fprintf(b, "?%T", n)
		}
	}
	rec(n)
	return b.String()
}

// refPrint is the printed notation.
func refPrint(b *strings.Builder, n ast.Node) {
	list := func(open, first string, l []ast.Node, close string) {
		b.WriteString(open)
		for i, k := range l {
			if i > 0 {
				b.WriteString(", ")
			} else {
				b.WriteString(first)
			}
			refPrint(b, k)
		}
		b.WriteString(close)
	}
	switch n := n.(type) {
	case nil:
		b.WriteString("<nil>")
	case *ast.Word:
		b.WriteString("ast.Word{" + strconv.Quote(n.Text) + "}")
	case *ast.Literal:
		b.WriteString("ast.Lit{" + strconv.Quote(n.Text) + "}")
	case *ast.Symbol:
		b.WriteString("ast.Symbol{" + strconv.Quote(n.Text) + "}")
	case *ast.Ident:
		b.WriteString("ast.Ident{" + strconv.Quote(n.Name) + "}")
	case *ast.Macro:
		list("ast.Macro{"+strconv.Quote(n.Name.Name), ", Args:", n.Args, "}")
	case *ast.Arg:
		list("{", "", n.List, "}")
	case *ast.OptArg:
		list("[", "", n.List, "]")
	case *ast.MathExpr:
		list("ast.MathExpr{", "List:", n.List, "}")
	case ast.List:
		list("ast.List{", "", n, "}")
	case *ast.Sup:
		list("ast.Sup{", "", []ast.Node{n.Node}, "}")
	case *ast.Sub:
		list("ast.Sub{", "", []ast.Node{n.Node}, "}")
	}
}

var (
	printedMu [64]sync.Mutex
	printed   [64]map[string]string // printed form -> structure
)

func printCase(w *Worker, n ast.Node, dedupe bool) {
	before := deepDump(n)
	var o bytes.Buffer
	if p := try(func() { ast.Print(&o, n) }); p != "" {
		w.Fail("Print: %s", p)
		return
	}
	got := o.String()
	w.Trans(len(got))
	if after := deepDump(n); after != before {
		w.Fail("Print changed the tree\nbefore %s\nafter  %s", before, after)
	}
	var b strings.Builder
	refPrint(&b, n)
	if want := b.String(); got != want {
		w.Fail("printed as\n%s\nwant\n%s", got, want)
	}
	if dedupe {
		d := astStruct(n)
		w.State("printed", d)
		i := len(got) * 7 % 64
		printedMu[i].Lock()
		if printed[i] == nil {
			printed[i] = map[string]string{}
		}
		old, ok := printed[i][got]
		if !ok {
			printed[i][got] = d
		}
		printedMu[i].Unlock()
		if ok && old != d {
			w.Fail("two different trees print as %s:\n%s\n%s", got, old, d)
		}
	}
}

// astStruct is the structure and texts of a tree; the printed form shows no
// difference between a nil and an empty list.
func astStruct(n ast.Node) string { return dumpTree(n, false) }

var kindNames = []string{"Invalid", "Macro", "EmptyLine", "Comment", "Space", "Word", "Number", "Symbol", "Lbrace", "Rbrace", "Lbrack", "Rbrack", "Lparen", "Rparen", "Other", "Verbatim", "EOF"}

func kindCase(w *Worker, v int64) {
	k := token.Kind(v)
	got := ""
	if p := try(func() { got = k.String() }); p != "" {
		w.Fail("Kind(%d): %s", v, p)
		return
	}
	want := fmt.Sprintf("Kind(%d)", v)
	if v >= 0 && v < int64(len(kindNames)) {
		want = kindNames[v]
	}
	w.Trans(1)
	if got != want {
		w.Fail("Kind(%d) prints as %q, want %q", v, got, want)
	}
}

func init() {
	declared := map[string]token.Kind{"Invalid": token.Invalid, "Macro": token.Macro, "EmptyLine": token.EmptyLine, "Comment": token.Comment, "Space": token.Space, "Word": token.Word, "Number": token.Number, "Symbol": token.Symbol, "Lbrace": token.Lbrace, "Rbrace": token.Rbrace, "Lbrack": token.Lbrack, "Rbrack": token.Rbrack, "Lparen": token.Lparen, "Rparen": token.Rparen, "Other": token.Other, "Verbatim": token.Verbatim, "EOF": token.EOF}

	register(&Check{
		id:        "C06",
		rule:      "every tree with a bounded number of nodes of all kinds, with nil children and nil names, times every sequence of decisions of the visitor (keep, prune, new visitor); wide and deep trees; the trees of parsed expressions",
		stateRule: "state: distinct (sequence of decisions, number of events); transition: event (visitor, node) of a traversal of the real code",
		gen: func(g *Gen) {
			full := &treeGen{leaves: []string{"wa", "na", "sa", "ia", "0"}, opens: []string{"Ma", "N", "A", "O", "D", "L"}}
			g.Phase("all-decisions-3")
			for n := 1; n <= 3; n++ {
				for _, s := range full.trees(n) {
					if s != "0" {
						g.Emit("3" + s)
					}
				}
			}
			g.Phase("all-decisions-4")
			for _, s := range full.trees(4) {
				g.Emit(pick(g, "2", "3") + s)
			}
			g.Phase("shared-leaves")
			shared := &treeGen{leaves: []string{"wa", "=", "ib"}, opens: []string{"Ma", "A", "L"}}
			for n := 2; n <= pick(g, 4, 5); n++ {
				for _, s := range shared.trees(n) {
					if strings.Contains(s, "=") {
						g.Emit("2" + s)
					}
				}
			}
			g.Phase("fewer-kinds")
			few := &treeGen{leaves: []string{"wa", "0"}, opens: []string{"Ma", "L"}}
			for n := 5; n <= pick(g, 6, 8); n++ {
				for _, s := range few.trees(n) {
					g.Emit(pick(g, "2", "3") + s)
				}
			}
			g.Phase("large")
			bigTrees(pick(g, 120, 700), func(s string) { g.Emit("1" + s) })
			hugeTrees(g, g.Emit)
			g.Phase("parsed")
			formulas(g, pick(g, 3, 4))
		},
		run: func(w *Worker, cs string) {
			switch {
			case cs != "" && cs[0] >= '0' && cs[0] <= '3' && w.isTree(cs[1:]):
				walkAll(w, cs, decodeTree(cs[1:]), cs[0] > '1', int(cs[0]-'0'))
				if cs[0] > '1' && len(cs) < 14 {
					walkAll(w, cs, decodeTree0(cs[1:]), true, 2)
				}
			default:
				n, err := latexParse(cs)
				if err == nil && n != nil {
					walkAll(w, cs, n, false, 3)
				}
			}
		},
	})

	register(&Check{
		id:        "C07",
		rule:      "every tree with a bounded number of nodes of all kinds with every choice of a set of texts; all printed forms are compared with each other; wide and deep trees; the trees of parsed expressions; token kinds",
		stateRule: "state: distinct tree whose printed form was compared with that of all others; transition: byte printed by the real code",
		gen: func(g *Gen) {
			var leaves, opens []string
			for i := range treeTexts {
				for _, k := range "wnsi" {
					leaves = append(leaves, string(k)+string(rune('a'+i)))
				}
				opens = append(opens, "M"+string(rune('a'+i)))
			}
			opens = append(opens, "A", "O", "D", "L")
			g.Phase("texts")
			all := &treeGen{leaves: append(leaves, "0"), opens: opens}
			for n := 1; n <= pick(g, 2, 3); n++ {
				for _, s := range all.trees(n) {
					g.Emit("1" + s)
				}
			}
			g.Phase("structures")
			full := &treeGen{leaves: []string{"wa", "na", "sa", "ia", "0", "wb"}, opens: []string{"Ma", "Mc", "A", "O", "D", "L"}}
			for n := 1; n <= 4; n++ {
				for _, s := range full.trees(n) {
					g.Emit("1" + s)
				}
			}
			shared := &treeGen{leaves: []string{"wa", "=", "ib"}, opens: []string{"Ma", "A", "L", "D"}}
			for n := 2; n <= pick(g, 4, 5); n++ {
				for _, s := range shared.trees(n) {
					g.Emit("2" + s)
				}
			}
			few := &treeGen{leaves: []string{"wa", "0"}, opens: []string{"Ma", "A", "L", "D"}}
			for n := 5; n <= pick(g, 5, 6); n++ {
				for _, s := range few.trees(n) {
					g.Emit("1" + s)
				}
			}
			g.Phase("large")
			bigTrees(pick(g, 120, 500), func(s string) { g.Emit("2" + s) })
			hugeTrees(g, g.Emit)
			g.Phase("long-texts")
			for _, n := range edges(1 << 20) {
				for _, u := range []string{"a", "é", "\xff", "\"", "\n", "ab, "} {
					g.Emit(big("t", rep{n, u}))
					g.Emit(big("t{", rep{n, u}, "x"))
				}
			}
			g.Phase("text-bytes")
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					g.Emit("t" + string([]byte{byte(a), byte(b)}))
				}
			}
			g.Phase("parsed")
			formulas(g, pick(g, 3, 4))
			g.Phase("kinds")
			for v := -1000; v < pick(g, 100_000, 1_000_000); v++ {
				g.Emit(fmt.Sprintf("k%d", v))
			}
			for i := 0; i < 64; i++ {
				for d := int64(-70); d < 70; d++ {
					g.Emit(fmt.Sprintf("k%d", int64(uint64(1)<<i)+d))
					g.Emit(fmt.Sprintf("k%d", -int64(uint64(1)<<i)+d))
				}
			}
			g.Emit(fmt.Sprintf("k%d", int64(math.MinInt64)))
		},
		run: func(w *Worker, cs string) {
			switch {
			case strings.HasPrefix(cs, "k"):
				if v, err := strconv.ParseInt(cs[1:], 10, 64); err == nil {
					kindCase(w, v)
					if v == 0 {
						for i, n := range kindNames {
							if declared[n] != token.Kind(i) {
								w.Fail("token.%s is %d, want %d", n, declared[n], i)
							}
						}
					}
					return
				}
			case strings.HasPrefix(cs, "t"):
				for _, n := range []ast.Node{&ast.Word{Text: cs[1:]}, &ast.Literal{Text: cs[1:]}, &ast.Symbol{Text: cs[1:]}, &ast.Ident{Name: cs[1:]}, &ast.Macro{Name: &ast.Ident{Name: cs[1:]}, Args: ast.List{&ast.Word{Text: cs[1:]}}}} {
					printCase(w, n, true)
				}
				if tk := (token.Token{Kind: token.Word, Pos: 3, Text: cs[1:]}); tk.String() != cs[1:] {
					w.Fail("token %q prints as %q", cs[1:], tk.String())
				}
				return
			case cs != "" && cs[0] >= '0' && cs[0] <= '2' && w.isTree(cs[1:]):
				printCase(w, decodeTree(cs[1:]), cs[0] == '1')
				printCase(w, decodeTree0(cs[1:]), false)
				return
			}
			n, err := latexParse(cs)
			if err == nil && n != nil {
				printCase(w, n, true)
			}
		},
	})
}

// isTree tells whether s is an encoded tree and not an expression.
func (w *Worker) isTree(s string) bool {
	d := &treeDec{s: s}
	return try(func() { d.node() }) == "" && d.i == len(s)
}

func latexParse(s string) (n ast.Node, err error) {
	if p := try(func() { n, err = latex.ParseExpr(s) }); p != "" {
		err = fmt.Errorf("%s", p)
	}
	return n, err
}
