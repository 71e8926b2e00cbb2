package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

// words emits every sequence of at most n tokens, as pre + tokens + post,
// shortest first.
func words(g *Gen, alphabet []string, n int, pre, post string) {
	var rec func(s string, left int)
	for l := 0; l <= n; l++ {
		rec = func(s string, left int) {
			if left == 0 {
				g.Emit(pre + s + post)
				return
			}
			for _, t := range alphabet {
				if g.capped {
					return
				}
				rec(s+t, left-1)
			}
		}
		rec("", l)
	}
}

// frame is a construct that can be open around a place of an expression.
type frame struct {
	name        string
	open, close string
	needMath    bool // only in math
	setsMath    bool
}

var frames = []frame{
	{name: "math", open: "$", close: "$", setsMath: true},
	{name: "group", open: "{", close: "}", needMath: true},
	{name: "sqrt", open: `\sqrt{`, close: "}"},
	{name: "sqrt-opt", open: `\sqrt[`, close: "]{z}"},
	{name: "sqrt-after-opt", open: `\sqrt[3]{`, close: "}"},
	{name: "frac-1", open: `\frac{`, close: "}{z}"},
	{name: "frac-2", open: `\frac{z}{`, close: "}"},
	{name: "sup", open: "^{", close: "}"},
	{name: "sub", open: "_{", close: "}"},
	{name: "exp", open: `\exp{`, close: "}"},
	{name: "text", open: `\textbf{`, close: "}"},
}

// contexts emits pre/post pairs for all stacks of at most depth frames.
func contexts(depth int, frames []frame, f func(pre, post string, stack []string)) {
	var rec func(pre, post string, math bool, stack []string)
	for d := 0; d <= depth; d++ {
		d := d
		rec = func(pre, post string, math bool, stack []string) {
			if len(stack) == d {
				f(pre, post, stack)
				return
			}
			for _, fr := range frames {
				if fr.needMath && !math {
					continue
				}
				if fr.setsMath && math && stack[len(stack)-1] == "math" {
					continue // that would close it
				}
				rec(pre+fr.open, fr.close+post, math || fr.setsMath, append(stack[:len(stack):len(stack)], fr.name))
			}
		}
		rec("", "", false, nil)
	}
}

var parseTokens = []string{
	"a", "$", "{", "}", `\sqrt`, "[", "]", "^", "_", "1", " ", `\frac`, "+", `\alpha`, ".", "%c\n", "(", `\ `,
	"bc", "\n", `\exp`, "2.5", `\unk`, `"`, "é", "-", `\%`,
}

var smallTokens = []string{"a", "$", "{", "}", `\sqrt`, "[", "]", "^", `\frac`, "1", " ", `\alpha`}

// parseCases is the space of expressions shared by the parser properties.
// Any of the families can be left out.
type parseSpace struct {
	ctxTokens  []string
	skipWords  bool
	skipTour   bool
	skipChars  bool
	skipMacros bool
	skipScale  bool
	lighter    bool
}

func parseCases(g *Gen, sp parseSpace) {
	if !sp.skipWords {
		g.Phase("token-strings")
		words(g, parseTokens, pick(g, 3, 4), "", "")
		words(g, parseTokens, pick(g, 3, 4), "$", "$")
		if !sp.lighter {
			g.Phase("token-strings-4")
			words(g, smallTokens, pick(g, 4, 6), "", "")
			words(g, smallTokens, pick(g, 4, 6), "$", "$")
		}
	}
	if !sp.skipWords {
		g.Phase("lexical") // everything that can stand next to a number or a word
		lexical := []string{"1", ".", "a", "%c\n", " ", "\n", `\ `, "é", `\pi`, "%1\r\n"}
		words(g, lexical, pick(g, 5, 6), "$", "$")
		words(g, lexical, pick(g, 4, 6), "", "")
	}
	if !sp.skipTour {
		// transition tour: every token, and every pair, in every stack of open
		// constructs.
		toks := parseTokens
		g.Phase("tour-1")
		contexts(pick(g, 3, 4), frames, func(pre, post string, _ []string) {
			for _, t := range toks {
				g.Emit(pre + t + post)
				g.Emit("a" + pre + "b" + t + "c" + post + "d")
			}
		})
		g.Phase("tour-2")
		contexts(pick(g, 2, 3), frames, func(pre, post string, _ []string) {
			for _, t := range toks {
				for _, u := range toks {
					g.Emit(pre + t + u + post)
				}
			}
		})
		g.Phase("tour-cut") // every prefix and every suffix of the deep stacks
		contexts(pick(g, 3, 4), frames, func(pre, post string, _ []string) {
			s := pre + "x" + post
			for i := range s {
				g.Emit(s[:i])
				g.Emit(s[i:])
			}
		})
	}
	if !sp.skipChars {
		g.Phase("every-code-point")
		for r := rune(0); r <= utf8.MaxRune; r++ {
			if !g.thorough && r > 0x3000 && r%17 != 0 && (r < 0xFE00 || r > 0xFFFF) && (r < 0x1D3F0 || r > 0x1D810) {
				continue
			}
			g.Emit(string(r))
			if r < 0x3000 || g.thorough {
				g.Emit("$a" + string(r) + "b$")
			}
		}
		g.Phase("every-two-bytes")
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				g.Emit(string([]byte{byte(a), byte(b)}))
				g.Emit("$" + string([]byte{byte(a), byte(b)}) + "$")
			}
		}
		g.Phase("ascii-strings")
		n := pick(g, 3, 3)
		var ascii []string
		for c := byte(' '); c < 127; c++ {
			ascii = append(ascii, string(c))
		}
		if g.thorough {
			words(g, ascii, n, "", "")
		}
		words(g, ascii, 2, "", "")
		words(g, ascii, pick(g, 2, 3), "$", "$")
	}
	if !sp.skipMacros {
		g.Phase("every-macro")
		for _, m := range sortedKeys(macroArgs) {
			a := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{x}"), "O", "")
			o := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{x}"), "O", "[y]")
			for _, s := range []string{
				m, m + a, m + o, m + " " + a, m + "x", m + " x", m + "1", m + "{x}", m + "{x}{y}", m + "{x}{y}{z}", m + "[x]{y}", m + "{}",
				"x" + m + a + "y", m + a + m + o, "^" + m + a, "_" + m + o, "{" + m + a + "}", `\frac{` + m + o + `}{` + m + a + "}", m + a + "^2_3", `\sqrt[` + m + a + "]{" + m + a + "}",
				m + "{" + m + a + "}", m + "%c\n" + a, m + "\n" + a,
			} {
				g.Emit(s)
				g.Emit("$" + s + "$")
			}
		}
		g.Phase("macro-then-character") // every macro directly before every character
		for _, m := range sortedKeys(macroArgs) {
			a := strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{x}"), "O", "")
			for c := byte(' '); c < 127; c++ {
				g.Emit("$" + m + string(c) + "y$")
				if a != "" {
					g.Emit("$" + m + a + string(c) + "y$")
				}
				if g.thorough {
					g.Emit(m + string(c))
					g.Emit("$x" + string(c) + m + a + "$")
				}
			}
		}
		g.Phase("macro-prefixes") // every prefix and one-letter extension of every macro name
		for _, m := range sortedKeys(macroArgs) {
			for i := 1; i <= len(m); i++ {
				g.Emit("$" + m[:i] + "$")
				g.Emit("$" + m[:i] + "{x}{y}$")
			}
			for c := 'a'; c <= 'z'; c++ {
				g.Emit("$" + m + string(c) + "$")
			}
			for c := 'A'; c <= 'Z'; c++ {
				g.Emit("$" + m + string(c) + "$")
			}
		}
		g.Phase("short-macro-names")
		letters := strings.Split("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "")
		words(g, letters, 2, `$\`, "$")
		if g.thorough {
			words(g, letters, 3, `$\`, "$")
		}
	}
	if !sp.skipScale {
		g.Phase("scale")
		scaleFamilies(pick(g, 130, 600), func(s string) { g.Emit(s) })
		g.Phase("large")
		units := []string{"a ", "1+", "é", `\alpha `, "{a}", "a^2", `\frac{a}{b}`, `\sqrt[3]{x}`, "%c\n", ".", "(", "{}"}
		largeExprs(pick(g, 70001, 1<<20), pick(g, 2049, 2049), units, largeNests(), func(s string) { g.Emit(s) })
		g.Phase("nested-pairs")
		for _, p := range largeNests() {
			for _, q := range largeNests() {
				for _, n := range []int{3, 10, 33, pick(g, 100, 500)} {
					g.Emit(big("$", rep{n, p[0] + q[0]}, "x", rep{n, q[1] + p[1]}, "$"))
					g.Emit(big("$", rep{n, p[0] + q[0]}, "x", rep{n - 1, q[1] + p[1]}, q[1], "$"))
				}
			}
		}
		g.Phase("many-different")
		manyDifferent(macrosWithArgs(), g.Emit)
		g.Phase("buffer-edges")
		bufferEdges(parseTokens, g.thorough, func(s string) { g.Emit(s) })
	}
}

// similarWords are words that have much in common.
func similarWords() (out []string) {
	seqs([]string{"a", "b"}, 4, func(s string) {
		if s != "" {
			out = append(out, s)
		}
	})
	for _, s := range []string{"abcdefgh", "abcdefgi", "bbcdefgh", "abcdxfgh", "acbdefgh", "Abcdefgh", "abcdefghi", "hgfedcba", "é", "è", "éa", "aé", "aéa", "aèa", "ab12", "alpha", "Alpha", "alphas", "lpha"} {
		out = append(out, s)
	}
	long := strings.Repeat("abcdefgh", 20)
	return append(out, long, long+"a", long[:len(long)-1]+"x", "x"+long[1:], long[:80]+"x"+long[81:])
}

// chain pairs one part with all the others.
func chain(a string, all []string, sep string) string {
	var b strings.Builder
	for _, x := range all {
		b.WriteString(a + sep + x + sep)
	}
	return b.String()
}

func macrosWithArgs() (ms []string) {
	for _, m := range sortedKeys(macroArgs) {
		ms = append(ms, m+strings.ReplaceAll(strings.ReplaceAll(macroArgs[m], "A", "{x}"), "O", ""))
	}
	return ms
}

// manyDifferent emits expressions in which many different parts occur.
func manyDifferent(ms []string, emit func(string)) {
	text := func(s string) { emit(s); emit("$" + s + "$") }
	ws := similarWords()
	for _, w := range ws {
		text(chain(w, ws, " "))
	}
	var nums []string
	for i := 0; i < 2000; i++ {
		nums = append(nums, fmt.Sprint(i), fmt.Sprintf("%d.%d", i%50, i/50), fmt.Sprintf("%04d", i), fmt.Sprintf("1.%03d0", i))
	}
	text(strings.Join(nums, " "))
	text(strings.Join(nums, "+"))
	for _, n := range []string{"0", "00", "1", "1.0", "1.00", "01", "10", "100000000000000000000", "100000000000000000001", "0.1", "0.10", "9007199254740993", "9007199254740992"} {
		text(chain(n, nums, " "))
	}
	var all []string
	for l := 1; l <= 3; l++ {
		exact(strings.Split("abcdefghijklmnopqrstuvwxyz", ""), l, func(s string) { all = append(all, s) })
	}
	text(strings.Join(all, " "))
	var runes strings.Builder
	for r := rune(0x80); r < 0x3000; r++ {
		if unicode.IsLetter(r) {
			runes.WriteString(string(r) + " ")
		}
	}
	text(runes.String())
	text(strings.Join(ms, " "))
	for _, m := range ms {
		text(chain(m, ms, " "))
	}
	var syms []string
	for _, c := range "=<>/*-+!?':,;()" {
		syms = append(syms, string(c))
	}
	for _, c := range syms {
		text(chain(c, syms, ""))
		text(chain(c, append(syms[:len(syms):len(syms)], ms...), " "))
	}
}

func largeNests() (nests [][2]string) {
	for _, fr := range frames {
		if fr.name != "math" {
			nests = append(nests, [2]string{fr.open, fr.close})
		}
	}
	return append(nests, [2]string{`1\sqrt[n]{x`, "}2"})
}

// scaleFamilies emits, for every k up to n, expressions with k repetitions or
// k levels of nesting of one or two constructs.
func scaleFamilies(n int, emit func(string)) {
	units := []string{
		"a", "a ", "1+", "é", `\alpha`, `\alpha `, "{a}", "a^2", "x_1", `\frac{a}{b}`, `\sqrt{x}`, `\sqrt[3]{x}`, "%c\n", "\n", "  ", `\,`, ".", "1.5 ", "(", "[x]",
		`\exp{x}`, "{}", "a^{b}_{c}", "12", "+", `\%`,
	}
	var nests [][2]string
	for _, fr := range frames {
		if fr.name != "math" {
			nests = append(nests, [2]string{fr.open, fr.close})
		}
	}
	nests = append(nests, [2]string{"a{", "}b"}, [2]string{`\frac{a}{b`, "c}d"}, [2]string{`1\sqrt[n]{x`, "}2"})
	for k := 1; k <= n; k++ {
		for _, u := range units {
			emit("$" + strings.Repeat(u, k) + "$")
			if k%7 == 0 || k < 12 {
				emit(strings.Repeat(u, k))
				emit("x$y$" + strings.Repeat(u, k))
				emit(strings.Repeat("$"+u+"$", k))
			}
		}
		if k <= n/2 {
			for _, p := range nests {
				emit("$" + strings.Repeat(p[0], k) + "x" + strings.Repeat(p[1], k) + "$")
				if k%5 == 0 {
					emit("$" + strings.Repeat(p[0], k) + strings.Repeat(p[1], k) + "$")
					emit("$" + strings.Repeat(p[0], k) + "x" + strings.Repeat(p[1], k-1) + "$")
					emit("$" + strings.Repeat(p[0], k) + "x" + strings.Repeat(p[1], k+1) + "$")
				}
			}
			if k <= 24 || k%10 == 0 {
				for i, p := range nests {
					q := nests[(i*5+3)%len(nests)]
					emit("$" + strings.Repeat(p[0]+q[0], k) + "x" + strings.Repeat(q[1]+p[1], k) + "$")
				}
			}
		}
		emit(strings.Repeat("a", k) + "$" + strings.Repeat("b", k) + "$" + strings.Repeat("c", k))
		emit("$" + strings.Repeat("1", k) + "." + strings.Repeat("2", k) + "$")
		emit("$" + strings.Repeat(" ", k) + "x" + strings.Repeat("\n", k) + "$")
		emit("%" + strings.Repeat("c", k) + "\nx")
	}
}

// tree is a grammar of well-formed math by number of nodes: it emits every
// well-formed formula with exactly n constructs.
type grammar struct {
	leaves []string
	unary  [][2]string
	binary [][3]string
	memo   map[int][]string
	memoL  map[int][]string
}

// lists returns all sequences of items with n constructs in total.
func (gr *grammar) lists(n int) []string {
	if gr.memoL == nil {
		gr.memoL = map[int][]string{}
		gr.memo = map[int][]string{}
	}
	if l, ok := gr.memoL[n]; ok {
		return l
	}
	var out []string
	if n == 0 {
		out = []string{""}
	} else {
		for k := 1; k <= n; k++ {
			for _, a := range gr.items(k) {
				for _, b := range gr.lists(n - k) {
					out = append(out, join(a, b))
				}
			}
		}
	}
	gr.memoL[n] = out
	return out
}

// join concatenates, with a space if a letter or digit would glue two tokens.
func join(a, b string) string {
	if a != "" && b != "" && gluey(a, b) {
		return a + " " + b
	}
	return a + b
}

func gluey(a, b string) bool {
	if letter(b[0]) || b[0] >= 0x80 {
		// a word or macro name would swallow it
		return letter(a[len(a)-1]) || a[len(a)-1] >= 0x80
	}
	if b[0] >= '0' && b[0] <= '9' || b[0] == '.' {
		c := a[len(a)-1]
		return c >= '0' && c <= '9' || c == '.'
	}
	return false
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (gr *grammar) items(n int) []string {
	if l, ok := gr.memo[n]; ok {
		return l
	}
	var out []string
	if n == 1 {
		out = append(out, gr.leaves...)
	}
	for _, u := range gr.unary {
		for _, x := range gr.lists(n - 1) {
			out = append(out, u[0]+x+u[1])
		}
	}
	for _, b := range gr.binary {
		for k := 0; k <= n-1; k++ {
			for _, x := range gr.lists(k) {
				for _, y := range gr.lists(n - 1 - k) {
					out = append(out, b[0]+x+b[1]+y+b[2])
				}
			}
		}
	}
	gr.memo[n] = out
	return out
}

func (gr *grammar) emit(max int, f func(string)) {
	for n := 0; n <= max; n++ {
		for _, s := range gr.lists(n) {
			f(s)
		}
	}
}

var _ = fmt.Sprint
