From 0af36f05d70707a77f94f4c5884cc91ef4926557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 01/26] fix: report parse failures of ParseExpr as errors

ParseExpr panicked on unsupported or malformed input (unknown macros,
unbalanced braces, ...) although it returns an error.
---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 7cee11f..7b6d10b 100644
--- a/parser.go
+++ b/parser.go
@@ -13,7 +13,13 @@ import (
 )
 
 // ParseExpr parses a simple LaTeX expression.
-func ParseExpr(x string) (ast.Node, error) {
+func ParseExpr(x string) (node ast.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node = nil
+			err = fmt.Errorf("latex: could not parse expression %q: %v", x, e)
+		}
+	}()
 	p := newParser(x)
 	return p.parse()
 }
@@ -165,7 +171,7 @@ loop:
 func (p *parser) parseMacro(tok token.Token) ast.Node {
 	name := tok.Text
 	macro, ok := p.macros[name]
-	if !ok {
+	if !ok || macro == nil {
 		panic("unknown macro " + name)
 		//return nil
 	}
-- 
2.43.0


From 7157d1a6a7b96933284e74d5e44cb3f9398b1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 02/26] fix: report typesetting failures of mtex.Parse as
 errors

Parse (and thus Render) panicked on constructs without a handler or with
missing arguments although it returns an error.
---
 mtex/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..c369d19 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -20,7 +20,13 @@ import (
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
 // and an error if any.
-func Parse(expr string, fontSize, DPI float64, backend font.Backend) (tex.Node, error) {
+func Parse(expr string, fontSize, DPI float64, backend font.Backend) (node tex.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node = nil
+			err = fmt.Errorf("could not typeset latex expression %q: %v", expr, e)
+		}
+	}()
 	p := newParser(backend)
 	return p.parse(expr, fontSize, DPI)
 }
-- 
2.43.0


From 5dd96618681500fa89ce05fda27d0b4a1fa73d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 03/26] fix: typeset the content of brace groups in math mode

A group at the top level of a math expression was silently dropped.
---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index c369d19..9d1b025 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -109,7 +109,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From a2dff3ab6d3cc0ef1b4c5c96a7b2909ff87a06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 04/26] fix: typeset the arguments of function names

The argument of \exp{...} was silently dropped.
---
 mtex/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index 9d1b025..cb05d89 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -293,12 +293,16 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
+	args := state
 	state.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
 	nodes := make([]tex.Node, 0, len(fun))
 	for _, c := range fun {
 		nodes = append(nodes, tex.NewChar(string(c), state, math))
 	}
+	for _, arg := range macro.Args {
+		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, args, math))
+	}
 	return tex.HListOf(nodes, true)
 }
 
-- 
2.43.0


From 7c2414cc22c27f576ac6a3dc4bdbdf444da8fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 05/26] fix: detect decimal separators from the dot being
 typeset

The spacing of every dot was decided from the first dot of the whole
expression.
---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index cb05d89..6c5cbd8 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -97,8 +98,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -229,7 +230,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From c97207b68537bdb0a6128a23e5f01c02cd01f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 06/26] fix: typeset symbol macros used outside of math mode

Outside of math mode, \alpha was measured and drawn as a backslash.
---
 mtex/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mtex/parser.go b/mtex/parser.go
index 6c5cbd8..2425214 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -194,6 +194,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch node := node.(type) {
 	case *ast.Macro:
 		sym = node.Name.Name
+		math = true // symbol macros always denote their TeX symbol.
 	case *ast.Symbol:
 		sym = node.Text
 	case *ast.Word:
-- 
2.43.0


From 017411dc3e920f1a35486fcbf01d41cc4ef0f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 07/26] fix: parse the control space as a macro

`\ ` was dropped in math mode and typeset as a backslash in text mode.
---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 7b6d10b..00999b5 100644
--- a/parser.go
+++ b/parser.go
@@ -109,6 +109,9 @@ func (p *parser) parseNode(tok token.Token) ast.Node {
 			panic("not implemented: " + tok.String())
 		}
 	case token.Space:
+		if tok.Text == `\ ` {
+			return p.parseMacro(tok) // control space.
+		}
 		switch p.state {
 		case mathState:
 			return nil
-- 
2.43.0


From eede3d822b798984f454cabcb5577aacef534754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/26] fix: scan numbers as TeX decimal constants

Numbers were scanned with the syntax of Go numbers: in 1_2 the subscript
was swallowed into the number, and so were the letters of 0xa or 2e.
---
 scanner.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..0b39251 100644
--- a/scanner.go
+++ b/scanner.go
@@ -24,7 +24,7 @@ type texScanner struct {
 func newScanner(r io.Reader) *texScanner {
 	sc := &texScanner{}
 	sc.sc.Init(r)
-	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
+	sc.sc.Mode = scanner.ScanIdents
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
 	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
@@ -86,8 +86,21 @@ func (s *texScanner) scan() token.Token {
 			Text: line,
 		}
 
+	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		return s.scanNumber(pos)
+
+	case '.':
+		if isDigit(s.sc.Peek()) {
+			return s.scanNumber(pos)
+		}
+		return token.Token{
+			Kind: token.Symbol,
+			Pos:  pos,
+			Text: s.sc.TokenText(),
+		}
+
 	case '$', '_', '=', '<', '>', '^', '/', '*', '-', '+',
-		'!', '?', '\'', ':', ',', ';', '.':
+		'!', '?', '\'', ':', ',', ';':
 		return token.Token{
 			Kind: token.Symbol,
 			Pos:  pos,
@@ -130,12 +143,6 @@ func (s *texScanner) scan() token.Token {
 			Pos:  pos,
 			Text: s.sc.TokenText(),
 		}
-	case scanner.Int, scanner.Float:
-		return token.Token{
-			Kind: token.Number,
-			Pos:  pos,
-			Text: s.sc.TokenText(),
-		}
 	case scanner.String, scanner.Char:
 		return token.Token{
 			Kind: token.Other,
@@ -171,6 +178,26 @@ func (s *texScanner) scanMacro() token.Token {
 	}
 }
 
+// scanNumber scans a decimal number: digits with at most one decimal point.
+func (s *texScanner) scanNumber(pos token.Pos) token.Token {
+	num := new(strings.Builder)
+	dot := s.r == '.'
+	num.WriteRune(s.r)
+	for r := s.sc.Peek(); isDigit(r) || (r == '.' && !dot); r = s.sc.Peek() {
+		dot = dot || r == '.'
+		s.next()
+		num.WriteRune(s.r)
+	}
+
+	return token.Token{
+		Kind: token.Number,
+		Pos:  pos,
+		Text: num.String(),
+	}
+}
+
+func isDigit(r rune) bool { return '0' <= r && r <= '9' }
+
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-- 
2.43.0


From a1f7af8405a9b49ba176dbbee5abb88bbea34e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 09/26] fix: end comments at the end of their line

A double quote inside a comment started a string token that swallowed the
line break, and thus the content of the next line.
---
 scanner.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/scanner.go b/scanner.go
index 0b39251..90777c0 100644
--- a/scanner.go
+++ b/scanner.go
@@ -201,21 +201,15 @@ func isDigit(r rune) bool { return '0' <= r && r <= '9' }
 func (s *texScanner) scanComment() string {
 	comment := new(strings.Builder)
 	comment.WriteString("%")
-	wsp := s.sc.Whitespace
-	defer func() {
-		s.sc.Whitespace = wsp
-	}()
-	s.sc.Whitespace = 0
-
 	for {
-		s.next()
-		if s.r == '\r' {
+		r := s.sc.Next()
+		if r == '\r' {
 			continue
 		}
-		if s.r == '\n' || s.r == scanner.EOF {
+		if r == '\n' || r == scanner.EOF {
 			break
 		}
-		comment.WriteString(s.sc.TokenText())
+		comment.WriteRune(r)
 	}
 	return comment.String()
 }
-- 
2.43.0


From 5aeff54581f147944ad5b5a48a8f63d8605c68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 10/26] fix: reject math expressions, groups and arguments left
 open

A missing closing $, } or ] was silently accepted.
---
 parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser.go b/parser.go
index 00999b5..a19fa5e 100644
--- a/parser.go
+++ b/parser.go
@@ -75,6 +75,13 @@ func (p *parser) expect(v rune) {
 	}
 }
 
+// notEOF reports a construct that is still open at the end of the input.
+func (p *parser) notEOF(end string) {
+	if p.s.tok.Kind == token.EOF {
+		panic(fmt.Errorf("missing closing %q", end))
+	}
+}
+
 func (p *parser) parseNode(tok token.Token) ast.Node {
 	switch tok.Kind {
 	case token.Comment:
@@ -167,6 +174,7 @@ loop:
 			math.List = append(math.List, node)
 		}
 	}
+	p.notEOF(end)
 
 	return math
 }
@@ -214,6 +222,7 @@ loop:
 			arg.List = append(arg.List, node)
 		}
 	}
+	p.notEOF("}")
 	macro.Args = append(macro.Args, &arg)
 }
 
@@ -242,6 +251,7 @@ loop:
 			opt.List = append(opt.List, node)
 		}
 	}
+	p.notEOF("]")
 	macro.Args = append(macro.Args, &opt)
 }
 
@@ -270,6 +280,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.notEOF("}")
 		hat.Node = list
 	default:
 		hat.Node = p.parseNode(p.next())
@@ -300,6 +311,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.notEOF("}")
 		sub.Node = list
 	default:
 		sub.Node = p.parseNode(p.next())
@@ -342,5 +354,6 @@ loop:
 			lst = append(lst, node)
 		}
 	}
+	p.notEOF("}")
 	return lst
 }
-- 
2.43.0


From b1201973d3f66dd13b61f573938224335091e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 11/26] fix: skip white space and comments before arguments

"x^ 2" yielded a superscript without a node, and "\frac {1} {2}" or
"\sqrt [3]{x}" were not understood.
---
 parser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parser.go b/parser.go
index a19fa5e..09e7b5e 100644
--- a/parser.go
+++ b/parser.go
@@ -68,7 +68,23 @@ func (p *parser) next() token.Token {
 	return p.s.tok
 }
 
+// skipBlanks skips the white space and the comments before the next token.
+func (p *parser) skipBlanks() {
+	for {
+		switch p.s.sc.Peek() {
+		case ' ', '\t', '\r', '\n':
+			p.s.sc.Next()
+		case '%':
+			p.s.sc.Next()
+			p.s.scanComment()
+		default:
+			return
+		}
+	}
+}
+
 func (p *parser) expect(v rune) {
+	p.skipBlanks()
 	p.next()
 	if p.s.tok.Text != string(v) {
 		panic(fmt.Errorf("expected %q, got %q", v, p.s.tok.Text))
@@ -227,6 +243,7 @@ loop:
 }
 
 func (p *parser) parseOptMacroArg(macro *ast.Macro) {
+	p.skipBlanks()
 	nxt := p.s.sc.Peek()
 	if nxt != '[' {
 		return
@@ -262,6 +279,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 	hat := &ast.Sup{
 		HatPos: tok.Pos,
 	}
+	p.skipBlanks()
 
 	switch next := p.s.sc.Peek(); next {
 	case '{':
@@ -293,6 +311,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 	sub := &ast.Sub{
 		UnderPos: tok.Pos,
 	}
+	p.skipBlanks()
 
 	switch next := p.s.sc.Peek(); next {
 	case '{':
-- 
2.43.0


From 5365229867fb5aa494f8a28fcea9af4d6bec1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 12/26] fix: skip nil children in ast.Walk

As documented, Walk must visit the non-nil children only.
---
 ast/walk.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..cfcd90e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -25,9 +25,7 @@ func Walk(v Visitor, node Node) {
 
 	switch n := node.(type) {
 	case List:
-		for _, x := range n {
-			Walk(v, x)
-		}
+		walkNodes(v, n)
 
 	case *Macro:
 		if n.Name != nil {
@@ -51,10 +49,10 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		walkNodes(v, []Node{n.Node})
 
 	case *Sup:
-		Walk(v, n.Node)
+		walkNodes(v, []Node{n.Node})
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
@@ -65,6 +63,9 @@ func Walk(v Visitor, node Node) {
 
 func walkNodes(v Visitor, nodes []Node) {
 	for _, x := range nodes {
+		if x == nil {
+			continue
+		}
 		Walk(v, x)
 	}
 }
-- 
2.43.0


From 2cd91e494e731bfe57bcbc2979ba6cdce39ab227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 13/26] fix: return the position after the closing delimiter
 from End

End is documented as the position of the first character immediately
after the node.
---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..d06f9e0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return x.Right + token.Pos(len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From 19aa17144c3ffd1b7a5a4ee127db521c93d3a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 14/26] fix: ship boxes and rules without depth in vertical
 lists

A box or rule with a height but no depth was counted by VPack, but neither
drawn nor skipped over by Ship.
---
 tex/box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..df9e185 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1151,7 +1151,7 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
+			if ruleHeight > 0 {
 				ship.cur.v += ruleHeight
 				type renderXYWH interface {
 					render(x, y, w, h float64)
-- 
2.43.0


From 21c11cfa8d3790c33a35df67ea68953420505bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 15/26] fix: draw rules of horizontal lists around the baseline

A rule covers its height above the baseline and its depth below it.
---
 tex/box.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index df9e185..66b81e7 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1059,8 +1059,9 @@ func (ship *Ship) hlistOut(box Tree) {
 			if math.IsInf(ruleDepth, 0) {
 				ruleDepth = box.Depth()
 			}
+			ruleHeight += ruleDepth
 			if ruleHeight > 0 && ruleWidth > 0 {
-				ship.cur.v = baseLine + ruleDepth
+				ship.cur.v = baseLine + ruleDepth - ruleHeight
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From 4663be97b0d86ad25e92f05e02d3aadbf5255d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 16/26] fix: typeset non-ASCII letters in math mode

Index rejected the single characters with a multi-byte encoding.
---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..56caef2 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,7 +29,7 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
+	if utf8.RuneCountInString(v) == 1 {
 		r, _ := utf8.DecodeRune([]byte(v))
 		if r != utf8.RuneError {
 			return r
-- 
2.43.0


From 090959fed41a75f3aba9b7f1346f2b116880481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 17/26] fix: correct the code points of leftbrace, lnapprox and
 gnapprox

leftbrace was mapped to the vertical bar, lnapprox and gnapprox to the
characters of precnapprox and succnapprox.
---
 internal/tex2unicode/utf8.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 56caef2..df8fe87 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -87,8 +87,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
@@ -607,7 +607,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From 3df7cdf11737e9ff19ceae6d26ba8fb7b4b37740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 18/26] fix: scale the kerning with the font size

The kerning was returned in 1/64 of font units, whatever the font size and
the units per em of the font.
---
 font/ttf/ttf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..53ae4d2 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -262,7 +262,7 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 				sym1, sym2, err,
 			))
 		}
-		return float64(k) / 64
+		return float64(k) / float64(scale) * ft1.Size
 	}
 	return 0
 }
-- 
2.43.0


From 1abbb71bf08b0359df3789b7eb214e32e476456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 19/26] fix: do not kern glyphs of different faces

The glyph index of the second symbol was looked up in the kerning table of
the font of the first symbol, even when it belongs to another font.
---
 font/ttf/ttf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 53ae4d2..25f48d6 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,6 +251,9 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
+		if info1.font != info2.font {
+			return 0 // no kerning between glyphs of different faces.
+		}
 		scale := fixed.Int26_6(info1.font.UnitsPerEm())
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
-- 
2.43.0


From 752f9faa5f5251840b1326e2084ff1ad7c23e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 20/26] fix: skip all white space before an operator at the
 start of a group

An operator after an opening brace got spaces when a line break or a tab,
instead of a space, separates them.
---
 mtex/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 2425214..e83f1e6 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/go-latex/latex"
 	"github.com/go-latex/latex/ast"
@@ -208,7 +209,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	switch {
 	case symbols.IsSpaced(sym):
 		i := strings.LastIndexFunc(p.expr[:pos], func(r rune) bool {
-			return r != ' '
+			return !unicode.IsSpace(r)
 		})
 		prev := ""
 		if i >= 0 {
-- 
2.43.0


From 9460f9f2adaf4877188c61e1fd1331a276f8b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 21/26] fix: scale the advance of characters with their size

The kerning of a character that was shrunk or grown before it was added to
a list was computed from the advance of its original size.
---
 tex/box.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tex/box.go b/tex/box.go
index 66b81e7..40f80a7 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -234,6 +234,7 @@ func (box *Char) Shrink() {
 	box.size--
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
+		box.metrics.Advance *= shrinkFactor
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
 		box.depth *= shrinkFactor
@@ -243,6 +244,7 @@ func (box *Char) Shrink() {
 func (box *Char) Grow() {
 	box.size++
 	box.font.Size *= growFactor
+	box.metrics.Advance *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
-- 
2.43.0


From 06e05b2d6a876a5712dacfe3e2de7683bbaf70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 22/26] fix: do not divide by the height of characters without
 extent

AutoHeightChar made characters of size NaN at font size 0, which crashed
the image renderer for roots and binomials.
---
 tex/box.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tex/box.go b/tex/box.go
index 40f80a7..77efafb 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -944,7 +944,10 @@ func AutoHeightChar(c string, height, depth float64, state State, factor float64
 
 	if state.Font.Name != "" {
 		if factor == 0 {
-			factor = target / (ch.Height() + ch.Depth())
+			factor = 1
+			if size := ch.Height() + ch.Depth(); size != 0 {
+				factor = target / size
+			}
 		}
 		state.Font.Size *= factor
 
-- 
2.43.0


From c01b90730314c239aab893e72bbe06318b12668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 23/26] fix: report a positive x-height for all fonts

The x-height was negated, which is only right for fonts with an OS/2 table
older than version 2: it was negative for all of the bundled fonts.
---
 font/ttf/ttf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index 25f48d6..c0ec6a5 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -188,7 +188,12 @@ func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {
 	}
 	defer face.Close()
 
-	return float64(-face.Metrics().XHeight) / 64
+	// the sign depends on the version of the OS/2 table of the font.
+	xh := face.Metrics().XHeight
+	if xh < 0 {
+		xh = -xh
+	}
+	return float64(xh) / 64
 }
 
 const (
-- 
2.43.0


From 4f1794c54038daf5128a0520e97ff54ac3a9f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 24/26] fix: do not overflow the advance of wide glyphs

Glyphs wider than 4/3 em had a negative advance.
---
 font/ttf/ttf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index c0ec6a5..a18f4a4 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -111,7 +111,8 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 		panic(fmt.Errorf("could not retrieve glyph name of %q: %+v", rn, err))
 	}
 
-	var ppem = int(ft.UnitsPerEm() * 6)
+	// 1 pixel per font unit: more would overflow the advance of wide glyphs.
+	var ppem = int(ft.UnitsPerEm())
 	_, err = ft.LoadGlyph(&buf, idx, fixed.I(ppem), nil)
 	if err != nil {
 		panic(fmt.Errorf("could not load glyph %q: %+v", rn, err))
@@ -149,7 +150,7 @@ func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool)
 	}
 
 	me := font.Metrics{
-		Advance: float64(adv) / 65536 * fnt.Size / 12,
+		Advance: 6 * float64(adv) / 65536 * fnt.Size / 12,
 		Height:  height,
 		Width:   width,
 		XMin:    xmin,
-- 
2.43.0


From b5b441e8341c7612dcdb33faad26268c5e9f418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 25/26] fix: limit the nesting depth of expressions

Parsing an expression with millions of nested braces overflowed the stack,
which ends the process and cannot be recovered from.
---
 parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser.go b/parser.go
index 09e7b5e..eb20737 100644
--- a/parser.go
+++ b/parser.go
@@ -31,9 +31,13 @@ const (
 	mathState
 )
 
+// maxDepth is the maximum nesting depth of an expression.
+const maxDepth = 10000
+
 type parser struct {
 	s     *texScanner
 	state state
+	depth int // current nesting depth.
 
 	macros map[string]macroParser
 }
@@ -99,6 +103,12 @@ func (p *parser) notEOF(end string) {
 }
 
 func (p *parser) parseNode(tok token.Token) ast.Node {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		panic("expression nests too deeply")
+	}
+
 	switch tok.Kind {
 	case token.Comment:
 		return nil
-- 
2.43.0


From 4125a02817c57e65128d92c63f792cc9e3178325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 26/26] fix: do not draw rules left of or above the image into
 its first pixels

---
 drawtex/drawimg/drawimg.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..ad1da62 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -84,12 +84,16 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 
 func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
 	dpi /= 72
+	// the rasterizer draws what lies up to a pixel left of or above the image
+	// into its first column or row.
+	x1, y1 := math.Max(op.X1*dpi, 0), math.Max(op.Y1*dpi, 0)
+	x2, y2 := math.Max(op.X2*dpi, 0), math.Max(op.Y2*dpi, 0)
 	ctx.NewSubPath()
-	ctx.MoveTo(op.X1*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y1*dpi)
-	ctx.LineTo(op.X2*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y2*dpi)
-	ctx.LineTo(op.X1*dpi, op.Y1*dpi)
+	ctx.MoveTo(x1, y1)
+	ctx.LineTo(x2, y1)
+	ctx.LineTo(x2, y2)
+	ctx.LineTo(x1, y2)
+	ctx.LineTo(x1, y1)
 	ctx.ClosePath()
 	ctx.Fill()
 	//	log.Printf("draw-rect: pt1=(%g, %g) -> (%g, %g)", op.X1, op.Y1, op.X2, op.Y2)
-- 
2.43.0

