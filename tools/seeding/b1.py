from s import *
HEAD='''package main

import (
	"fmt"
	"os"
	"strings"

	latex "github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

var _ = strings.Repeat

func show(s string) string {
	n, err := latex.ParseExpr(s)
	if err != nil {
		return "error: " + err.Error()
	}
	if n == nil {
		return "nothing"
	}
	o := new(strings.Builder)
	ast.Print(o, n)
	return o.String()
}

func check(what, got, want string) {
	if got != want {
		fmt.Printf("%s:\\n got: %s\\nwant: %s\\n", what, got, want)
		os.Exit(1)
	}
}

'''
seed('c01-comment-hangs','C01','a comment with a backslash as the last character of the expression',
 'the scanner waits for the character after the backslash of a comment at the end of the input: parsing never returns',
 [('scanner.go','''	comment := new(strings.Builder)
	comment.WriteString("%")
	for {
		r := s.sc.Next()
''','''	comment := new(strings.Builder)
	comment.WriteRune('%')
	for r := rune(0); ; {
		esc := r == '\\\\'
		if r = s.sc.Next(); r == scanner.EOF && esc {
			r = '\\\\' // the line ends in a backslash.
			continue
		}
''')],
 HEAD+'''func main() {
	done := make(chan string)
	go func() { done <- show("$x+1$% see \\\\") }()
	select {
	case s := <-done:
		check("tree", s, `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Symbol{"+"}, ast.Lit{"1"}}}`)
	case <-time.After(10 * time.Second):
		fmt.Println("no answer")
		os.Exit(1)
	}
}
'''.replace('','').replace('func main','func main') if False else HEAD.replace('"strings"\n','"strings"\n\t"time"\n',1)+'''func main() {
	done := make(chan string)
	go func() { done <- show("$x+1$% see \\\\") }()
	select {
	case s := <-done:
		check("tree", s, `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Symbol{"+"}, ast.Lit{"1"}}}`)
	case <-time.After(10 * time.Second):
		fmt.Println("no answer")
		os.Exit(1)
	}
}
''')
seed('c01-nil-tree','C01','an expression that holds nothing but comments, or nothing at all',
 'ParseExpr returns neither a tree nor an error',
 [('parser.go','''	return nodes, nil
''','''	if len(nodes) == 0 {
		// nothing to typeset.
		return nil, nil
	}

	return nodes, nil
''')] if False else [('parser.go','''	var nodes ast.List
	for p.s.Next() {
		tok := p.s.Token()
		node := p.parseNode(tok)
		if node == nil {
			continue
		}
		nodes = append(nodes, node)
	}

	return nodes, nil
''','''	var root ast.Node
	var nodes ast.List
	for p.s.Next() {
		tok := p.s.Token()
		node := p.parseNode(tok)
		if node == nil {
			continue
		}
		nodes = append(nodes, node)
		root = nodes
	}

	return root, nil
''')],
 HEAD+'''func main() {
	check("tree", show("% only a comment"), "ast.List{}")
}
''')
seed('c02-starred-macro','C02','a symbol macro directly followed by an asterisk',
 'the asterisk is glued to the name of the macro before it, so that \\alpha*b no longer parses as a product',
 [('scanner.go','''	macro.WriteString(`\\` + s.sc.TokenText())
''','''	macro.WriteString(`\\` + s.sc.TokenText())
	if s.r == scanner.Ident && s.sc.Peek() == '*' {
		// starred variant.
		s.next()
		macro.WriteString(s.sc.TokenText())
	}
''')] if False else [('scanner.go','''	s.next()
	macro.WriteString(`\\` + s.sc.TokenText())
''','''	s.next()
	name := s.sc.TokenText()
	if s.r == scanner.Ident && s.sc.Peek() == '*' {
		// starred variant.
		s.next()
		name += s.sc.TokenText()
	}
	macro.WriteString(`\\` + name)
''')],
 HEAD+'''func main() {
	check("tree", show(`$\\alpha*b$`), `ast.List{ast.MathExpr{List:ast.Macro{"\\\\alpha"}, ast.Symbol{"*"}, ast.Word{"b"}}}`)
}
''')
seed('c02-optarg-scratch','C02','an optional argument that has content before another macro with an optional argument of its own',
 'the nested optional argument overwrites what the enclosing one had collected: the tree shows other content than the source',
 [('parser.go','''	macros map[string]macroParser
}
''','''	macros map[string]macroParser
	opt    ast.List // scratch list of the optional arguments.
}
'''),('parser.go','''	p.expect('[')
	opt.Lbrack = p.s.tok.Pos
''','''	p.expect('[')
	opt.Lbrack = p.s.tok.Pos
	list := p.opt[:0]
'''),('parser.go','''			opt.List = append(opt.List, node)
''','''			list = append(list, node)
			p.opt = list
'''),('parser.go','''	macro.Args = append(macro.Args, &opt)
''','''	opt.List = append(opt.List, list...)
	macro.Args = append(macro.Args, &opt)
''')],
 HEAD+'''func main() {
	check("tree", show(`$\\sqrt[a\\sqrt[b]{c}]{d}$`), `ast.List{ast.MathExpr{List:ast.Macro{"\\\\sqrt", Args:[ast.Word{"a"}, ast.Macro{"\\\\sqrt", Args:[ast.Word{"b"}], {ast.Word{"c"}}}], {ast.Word{"d"}}}}}`)
}
''')
seed('c03-optarg-brace','C03','an optional argument closed by a brace',
 'an optional argument left open is closed by the next right brace instead of being rejected',
 [('parser.go','''		case token.Rbrack:
			opt.Rbrack = p.s.tok.Pos
''','''		case token.Rbrack, token.Rbrace:
			opt.Rbrack = p.s.tok.Pos
''')],
 HEAD+'''func main() {
	for _, s := range []string{`$\\sqrt[3}{x}$`, `$\\frac{\\sqrt[3}{x}}{2}$`} {
		if g := show(s); !strings.HasPrefix(g, "error") {
			fmt.Println(s, g)
			os.Exit(1)
		}
	}
}
''')
seed('c03-stray-brace','C03','a right brace without a left one inside a math section',
 'unbalanced right braces are skipped instead of being rejected',
 [('parser.go','''		switch p.s.tok.Text {
		case end:
			math.Right = p.s.tok.Pos
			break loop
		default:
''','''		switch txt := p.s.tok.Text; {
		case txt == end:
			math.Right = p.s.tok.Pos
			break loop
		case txt == "}":
			continue // end of a group.
		default:
''')],
 HEAD+'''func main() {
	for _, s := range []string{`$a}b$`, `$\\frac{1}{2}}$`} {
		if g := show(s); !strings.HasPrefix(g, "error") {
			fmt.Println(s, g)
			os.Exit(1)
		}
	}
}
''')
seed('c03-open-script-nil','C03','a script at the very end of a text-mode expression, or a script whose content is a comment',
 'a script without content is accepted',
 [('parser.go','''	case token.Comment:
		return nil
	case token.Macro:''','''	case token.Comment, token.EOF:
		return nil
	case token.Macro:''')],
 HEAD+'''func main() {
	for _, s := range []string{`x^`, `x_`} {
		if g := show(s); !strings.HasPrefix(g, "error") {
			fmt.Println(s, g)
			os.Exit(1)
		}
	}
}
''')
POS='''func pos(n ast.Node) string {
	o := new(strings.Builder)
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Word, *ast.Literal, *ast.Symbol, *ast.Macro, *ast.MathExpr, *ast.Arg, *ast.OptArg:
			fmt.Fprintf(o, "%d-%d ", n.Pos(), n.End())
		}
		return true
	})
	return o.String()
}

'''
seed('c04-column','C04','an expression that spans several lines, or with a non-ASCII letter',
 'positions are columns of the last line instead of offsets in the source',
 [('scanner.go','return token.Pos(s.sc.Position.Offset)','return token.Pos(s.sc.Position.Column - 1)')],
 HEAD+POS+'''func main() {
	n, err := latex.ParseExpr("$a\\n+b$")
	if err != nil {
		panic(err)
	}
	check("positions", pos(n), "0-6 1-2 3-4 4-5 ")
}
''')
seed('c04-optarg-end','C04','an optional argument with white space before its closing bracket, or an empty one',
 'the closing bracket is reported where the content ends',
 [('parser.go','''			opt.Rbrack = p.s.tok.Pos
''','''			opt.Rbrack = opt.List.End()
''')],
 HEAD+POS+'''func main() {
	n, err := latex.ParseExpr("$\\\\sqrt[3 ]{x}$")
	if err != nil {
		panic(err)
	}
	check("positions", pos(n), "0-14 1-13 6-10 7-8 10-13 11-12 ")
}
''')
seed('c05-comment-continuation','C05','a comment whose last character is a backslash, before more of the formula',
 'the line after the comment becomes part of the comment',
 [('scanner.go','''		r := s.sc.Next()
		if r == '\\r' {''','''		prev := r
		if r = s.sc.Next(); r == '\\n' && prev == '\\\\' {
			continue // the comment goes on.
		}
		if r == '\\r' {'''),('scanner.go','''	comment.WriteString("%")
	for {
''','''	comment.WriteString("%")
	for r := rune(0); ; {
''')],
 HEAD+'''func main() {
	check("tree", show("$a% see \\\\beta\\\\\\n+b\\n$"), show("$a+b\\n$"))
}
''')
seed('c05-cr','C05','a carriage return between two tokens',
 'the scanner no longer treats a carriage return as white space',
 [('scanner.go',"sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n' | 1<<'\\r'","sc.sc.Whitespace = 1<<'\\t' | 1<<'\\n'")],
 HEAD+'''func main() {
	check("tree", show("$a\\r\\n+b$"), show("$a+b$"))
}
''')
seed('c05-arg-space','C05','white space inside the argument of a macro in a script or another argument',
 'spaces inside arguments are kept as symbols once the argument follows a nested math section',
 [('parser.go','''	state := p.state
	p.state = mathState
	defer func() {
		p.state = state
	}()
''','''	p.state = mathState
	defer func() {
		p.state = normalState
	}()
''')],
 HEAD+'''func main() {
	check("tree", show(`$\\sqrt{$x$ + y}$`), show(`$\\sqrt{$x$+y}$`))
}
''')
WALK='''type rec struct {
	o *strings.Builder
	d int
}

func (r rec) Visit(n ast.Node) ast.Visitor {
	fmt.Fprintf(r.o, "%d:%T ", r.d, n)
	if n == nil {
		return nil
	}
	return rec{r.o, r.d + 1}
}

'''
seed('c06-visitor-of-args','C06','a visitor whose Visit returns another visitor for the children, on a macro with arguments',
 'the arguments of a macro are visited with the visitor of the macro itself, not with the one it returned',
 [('ast/walk.go','''func Walk(v Visitor, node Node) {
	if v = v.Visit(node); v == nil {
		return
	}
''','''func Walk(parent Visitor, node Node) {
	v := parent.Visit(node)
	if v == nil {
		return
	}
'''),('ast/walk.go','''		walkNodes(v, n.Args)
''','''		walkNodes(parent, n.Args)
''')],
 HEAD+WALK+'''func main() {
	n, _ := latex.ParseExpr(`\\sqrt{x}`)
	o := new(strings.Builder)
	ast.Walk(rec{o, 0}, n)
	check("walk", o.String(), "0:ast.List 1:*ast.Macro 2:*ast.Ident 3:<nil> 2:*ast.Arg 3:*ast.Word 4:<nil> 3:<nil> 2:<nil> 1:<nil> ")
}
''')
seed('c06-empty-math','C06','an empty math section or argument',
 'the closing Visit(nil) call of an empty list of children is missing',
 [('ast/walk.go','''	case *OptArg:
		walkNodes(v, n.List)
''','''	case *OptArg:
		list := n.List
		if len(list) == 0 {
			return
		}
		walkNodes(v, list)
''')],
 HEAD+WALK+'''func main() {
	n, _ := latex.ParseExpr(`\\sqrt[]{x}`)
	o := new(strings.Builder)
	ast.Walk(rec{o, 0}, n)
	check("walk", o.String(), "0:ast.List 1:*ast.Macro 2:*ast.Ident 3:<nil> 2:*ast.OptArg 3:<nil> 2:*ast.Arg 3:*ast.Word 4:<nil> 3:<nil> 2:<nil> 1:<nil> ")
}
''')
seed('c07-list-of-one','C07','a list of one node inside another node',
 'a brace group of one node prints like the bare node',
 [('ast/ast.go','''	case *Sup:
		fmt.Fprintf(o, "ast.Sup{")
		Print(o, node.Node)
''','''	case *Sup:
		fmt.Fprintf(o, "ast.Sup{")
		script := node.Node
		if x, ok := script.(List); ok && len(x) == 1 {
			script = x[0]
		}
		Print(o, script)
''')],
 HEAD+'''func main() {
	check("print", show(`$x^{{y}}$`), `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Sup{ast.List{ast.List{ast.Word{"y"}}}}}}`)
}
''')
seed('c07-separators','C07','a list with a nil node or an empty list among its nodes',
 'the separator depends on the previous node being non-empty: printed lists become ambiguous',
 [('ast/ast.go','''		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
			if i > 0 {
				fmt.Fprintf(o, ", ")
			}
			Print(o, n)
''','''		fmt.Fprintf(o, "ast.List{")
		for i, n := range node {
			if l, ok := n.(List); ok && len(l) == 0 && i > 0 {
				continue
			} else if i != 0 {
				fmt.Fprintf(o, ", ")
			}
			Print(o, n)
''')],
 HEAD+'''func main() {
	check("print", show(`$x_{a{}b}$`), `ast.List{ast.MathExpr{List:ast.Word{"x"}, ast.Sub{ast.List{ast.Word{"a"}, ast.List{}, ast.Word{"b"}}}}}`)
}
''')
