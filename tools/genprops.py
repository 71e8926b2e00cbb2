#!/usr/bin/env python3
# Writes ../properties.jsonl (the list below is its source).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p('C01','Parsing always terminates with either a tree or an error',
  'For every input string, including malformed, truncated and non-UTF-8 ones, parsing an expression returns: it never panics, hangs or exhausts memory, and the outcome is either a non-nil tree with a nil error or a nil tree with a non-nil error. The same string always gives the same outcome.',
  ['inputs'],'every byte string',
  'The tests parse about 25 well-formed expressions; every malformed one used to panic and none is tried.',
  ['parser.go','scanner.go','macros.go'],
  [('recover in ParseExpr','parser.go ParseExpr'),('token switch with a default case','scanner.go scan'),('loops that end at EOF','parser.go parse*')],
  ['latex.ParseExpr'])
p('C02','The parse tree mirrors the source of well-formed expressions',
  'For every well-formed expression in the supported syntax, the parse tree contains exactly the words, numbers, symbols, macros with their mandatory and optional arguments, scripts, groups and math sections of the source, with their exact text, in source order and with the nesting given by the braces, brackets and dollars. Nothing is lost, duplicated, merged, reordered or attached to another parent, however deeply the constructs nest (up to a limit of some thousand levels, beyond which parsing is an error) or however long the expression is.',
  ['inputs'],'all well-formed expressions of the supported syntax: every nesting, order, length, macro name and character',
  'The tests compare about 25 fixed expressions (through a printer that omits positions and delimiters), mostly one construct each; most of the ~900 macros and almost every combination of constructs are never parsed.',
  ['parser.go','scanner.go','macros.go','internal/tex2unicode/utf8.go'],
  [('recursive descent with a math/normal state','parser.go parseNode'),('macro table giving the argument kinds','macros.go addBuiltinMacros'),('tokens','scanner.go scan')],
  ['latex.ParseExpr'],[('parser.state','normal or math mode','parser.go parser')])
p('C03','Malformed or unsupported expressions are rejected with an error',
  'Parsing returns an error, not a tree, for every expression with an unbalanced brace, an unclosed math section, group, argument or optional argument, a missing mandatory argument or script operand, an unknown macro name, or a character outside the supported alphabet.',
  ['inputs'],'all expressions that break one of these rules, at any place and any nesting depth',
  'No test parses an expression that must be rejected.',
  ['parser.go','scanner.go','macros.go'],
  [('unknown macro check','parser.go parseMacro'),('expected delimiters','parser.go expect'),('open constructs at the end of the input','parser.go parse*')],
  ['latex.ParseExpr'])
p('C04','Node positions delimit exactly the source text of each node',
  'In the tree of every accepted expression, each word, number, symbol, macro, argument, optional argument and math section starts at the byte offset of its first character and ends immediately after its last one, so that cutting the source between the two gives back its text; scripts start at their operator, and a list extends from the start of its first node to the end of its last. Siblings are ordered and do not overlap, and every node lies within its parent.',
  ['inputs'],'all accepted expressions, including multi-byte characters, comments and white space before and between nodes',
  'The tests compare the positions of 7 ASCII expressions without comments, line breaks, optional arguments or groups, and never look at the value of an end position.',
  ['ast/ast.go','parser.go','scanner.go'],
  [('offset of the last token','scanner.go pos'),('Pos and End methods','ast/ast.go')],
  ['ast.Node.Pos','ast.Node.End'])
p('C05','Comments and layout white space never change the meaning of a formula',
  'In math, inserting or removing spaces, tabs, line breaks or comments between two tokens (also between a macro or a script operator and its argument) changes nothing in the tree but positions. A comment extends from the percent sign to the end of its line and no further, whatever characters it contains, and an escaped percent sign starts none.',
  ['inputs'],'all well-formed formulas, all token boundaries, all blank characters and comment contents',
  'The only comment in the tests is logged by a scanner test that checks nothing; blanks appear in a few fixed places.',
  ['scanner.go','parser.go'],
  [('comment scanning','scanner.go scanComment'),('white space mask of the scanner','scanner.go newScanner'),('blank skipping','parser.go skipBlanks, parseNode')],
  ['latex.ParseExpr'])
p('C06','Tree traversal visits every node exactly once, in order, as documented',
  'Walking a tree calls the visitor on each node once in depth-first source order, uses the visitor returned for a node for exactly its non-nil children, calls the returned visitor with nil once after them, and skips the children (and that nil call) exactly when nil was returned. Inspecting does the same with a predicate, and neither ever changes the tree.',
  ['inputs','programs'],'all trees, including ones with nil children, and all visitors: every choice of pruning and of visitor switching',
  'The tests walk 10 fixed trees with visitors that never prune, never switch and never meet a nil child.',
  ['ast/walk.go'],
  [('type switch over the node kinds','ast/walk.go Walk'),('final Visit(nil)','ast/walk.go Walk')],
  ['ast.Walk','ast.Inspect'])
p('C07','Printing a tree is complete, unambiguous and stable',
  'The printed form of a tree shows every node with its kind, its text, and its children in order, in the documented notation, without changing the tree; two trees that differ in structure or text never print the same (delimiters and positions are not shown). Token kinds print as their declared names and any other value as a numbered kind.',
  ['inputs'],'all trees, all node texts, all kind values',
  'The tests print a dozen fixed trees; ambiguity is a statement about all pairs of trees.',
  ['ast/ast.go','token/kind_string.go','token/token.go'],
  [('recursive printer with quoted text','ast/ast.go Print'),('generated name table','token/kind_string.go')],
  ['ast.Print','token.Kind.String'])
p('C08','Typesetting always terminates with either a box or an error',
  'For every expression, font set, and size and resolution that give a page of representable size, typesetting and rendering return a box or drawing, or an error, and never panic or hang; an expression that uses something the typesetter does not support is an error and the output device is then never invoked. Every expression built only from supported constructs is typeset without error.',
  ['inputs','configurations'],'every string; every supported construct in every supported context; the three bundled font families',
  'The tests typeset about 30 supported expressions; the unsupported ones used to panic and none is tried.',
  ['mtex/parser.go','mtex/macros.go','mtex/render.go','internal/tex2unicode/utf8.go'],
  [('recover in Parse','mtex/parser.go Parse'),('handler lookup','mtex/parser.go handler'),('symbol lookup','internal/tex2unicode Index')],
  ['mtex.Parse','mtex.Render'])
p('C09','Every part of a formula is drawn, exactly once and in reading order',
  'The drawing of a supported formula contains exactly the glyphs its source denotes, each once: words and numbers character by character, symbols and symbol macros as their character, function names spelled out followed by their argument, numerators before denominators, root index, radical sign and radicand, in this order from nested groups too; and exactly one rule per fraction, root and overline (none for binomials, which add two parentheses).',
  ['inputs'],'all supported formulas, in and out of math mode, at every nesting',
  'The tests compare the outer dimensions of about 30 formulas and 16 pictures of four formulas; groups and function arguments were silently dropped without any test failing.',
  ['mtex/parser.go','tex/box.go'],
  [('visitor over the tree','mtex/parser.go Visit'),('handlers of constructs','mtex/parser.go handle*'),('shipping of boxes','tex/box.go Ship')],
  ['font.Backend.RenderGlyph','font.Backend.RenderRectFilled','drawtex.Canvas.Ops'])
p('C10','Fractions, binomials, roots and overlines are laid out by their rules',
  'In every formula, at every nesting and size: text-style fractions and binomials shrink both parts by the script factor and display fractions do not; both parts are centred on the bar, which is as wide as the wider part, one line thickness thick and separated by twice the thickness from each; the bar sits on the math axis. A radical sign covers the height and depth of its radicand plus a clearance of five line thicknesses, the vinculum runs over the padded radicand, the index is shrunk twice and raised; an overline covers its body with a clearance of three thicknesses.',
  ['inputs','configurations'],'all formulas built from these constructs, all nestings, all font metrics, sizes and resolutions',
  'The tests compare the outer dimensions of a handful of fractions and roots for one set of metrics and one size, and the pixels of four formulas; a wrong position inside the box, or at another nesting, is not seen.',
  ['mtex/parser.go','tex/box.go'],
  [('genfrac','mtex/parser.go genfrac'),('handleSqrt','mtex/parser.go handleSqrt'),('handleOverline','mtex/parser.go handleOverline'),('AutoHeightChar','tex/box.go AutoHeightChar')],
  ['mtex.Parse','font.Backend.RenderGlyph','font.Backend.RenderRectFilled'])
p('C11','Horizontal spacing follows the kind of each symbol and its neighbours',
  'In math, binary operators, relations and arrows get a fifth of an em on both sides, except binary operators directly after an opening brace or one of the delimiters ( [ <, which get none; a full stop gets a fifth of an em after it unless it is a decimal separator between two digits; explicit spaces, \\hspace included, advance by their documented fraction of an em, negative ones backwards; all other neighbours are separated by the advance and kerning of the fonts only. The width of a formula is the sum of these.',
  ['inputs','configurations'],'all sequences of symbols and spaces, all neighbours, all positions in the expression, all font metrics',
  'The tests measure about 10 formulas with a space or an operator; the decimal separator was decided from an unrelated dot without any test failing.',
  ['mtex/parser.go','mtex/symbols/symbols.go','mtex/symbols/symbols_gen.go','tex/box.go'],
  [('handleSymbol','mtex/parser.go handleSymbol'),('spaceWidth table','mtex/parser.go'),('kern','tex/box.go kern'),('symbol classes','mtex/symbols')],
  ['mtex.Parse','tex.Node.Width','font.Backend.RenderGlyph'])
p('C12','Rendering scales with size, and resolution only changes the raster',
  'The page handed to the output device measures the width of the formula and its height plus non-negative depth rounded up to a whole point, in inches, and everything drawn has the position the box layout gives it with the origin at the top left. The resolution is passed on unchanged and never influences the layout, the font size scales glyphs, rules and spaces in proportion, and the default fonts are used if and only if none are given.',
  ['inputs','configurations'],'all formulas, font sizes, resolutions and font sets',
  'The only rendering tests use one size and one resolution, and a device that ignores its arguments, or compare pixels of four formulas.',
  ['mtex/render.go','mtex/parser.go','font/ttf/ttf.go'],
  [('Render','mtex/render.go Render'),('metrics in points','font/ttf/ttf.go getInfo')],
  ['mtex.Renderer.Render','drawtex.Canvas.Ops'])
p('C13','Every TeX symbol name denotes its Unicode character, everywhere',
  'Each supported symbol macro is accepted by the parser, and is drawn with the Unicode character that TeX usage assigns to its name, in and out of math mode; a hyphen in math is the minus sign, any other single character denotes itself, and a name without a character is an error. Names, classes (binary operator, relation, arrow, punctuation, delimiter, function name) and character of a symbol agree between the parser, the typesetter and the fonts.',
  ['inputs'],'all symbol names, all single characters',
  'Tests look up a few names; the tables have 571 names and 3 were wrong.',
  ['internal/tex2unicode/utf8.go','mtex/macros.go','mtex/symbols/symbols_gen.go','macros.go'],
  [('symbol table','internal/tex2unicode/utf8.go tex2uni'),('Index','internal/tex2unicode/utf8.go Index'),('symbol classes','mtex/symbols')],
  ['latex.ParseExpr','mtex.Render','drawtex.Glyph.Symbol'])
p('C14','Results depend only on the arguments, never on earlier calls',
  'Parsing, typesetting and rendering the same expression with the same fonts, size and resolution gives the same tree, layout, drawing and image bytes (or the same error) whatever was processed before in the same process, successfully or not, whatever callers did to earlier results, and in whichever order.',
  ['histories'],'all sequences of parse, typeset and render calls, including failing ones and ones whose results the caller modifies',
  'Each test makes independent calls and checks them against constants; no test compares a call with the same call after another history.',
  ['parser.go','mtex/parser.go','mtex/render.go','font/ttf/ttf.go','font/lm/lm.go','font/liberation/liberation.go'],
  [('fresh parser, backend and canvas per call','parser.go newParser, mtex/render.go Render'),('fonts loaded once','font/lm/lm.go, font/liberation/liberation.go')],
  ['latex.ParseExpr','mtex.Parse','mtex.Render'],[('fnts','fonts shared by the process','font/lm/lm.go'),('tables','symbol and macro tables shared by the process','mtex/macros.go, mtex/symbols, internal/tex2unicode')])
p('C15','Concurrent use from several goroutines gives the sequential results',
  'Goroutines that parse, typeset and render at the same time, sharing the font collections but no canvas or backend, obtain exactly what each would obtain alone, without data races, deadlocks or panics. The shared font collections are initialised exactly once, and every caller sees them fully initialised.',
  ['schedules'],'all interleavings of the calls',
  'No test starts a goroutine.',
  ['font/lm/lm.go','font/liberation/liberation.go','parser.go','mtex/parser.go','mtex/render.go','font/ttf/ttf.go'],
  [('sync.Once','font/lm/lm.go, font/liberation/liberation.go'),('no shared mutable state','parser.go, mtex')],
  ['latex.ParseExpr','mtex.Render','lm.Fonts','liberation.Fonts'],[('once, fnts','lazily parsed shared fonts','font/lm/lm.go')])
p('C16','Packed boxes enclose their content as in the TeX box model',
  'A horizontal list is as wide as the sum of its items (kerns and glue included), and as high and deep as its highest and deepest item after their shifts; a vertical list is as high as its items stacked, as deep as its last box, and as wide as its widest item; running dimensions do not count. Packing to an exact or an additional size gives exactly that size, and a depth limit moves the excess depth to the height.',
  ['inputs','histories'],'all nestings and sequences of boxes, characters, rules, kerns and glue, all packing sizes, all sequences of packing operations',
  'The tests measure a fixed set of small lists; shifted lists, running dimensions mixed with others, repeated packing and depth limits are hardly covered.',
  ['tex/box.go'],
  [('hpackDims, vpackDims','tex/box.go'),('HPack, VPack','tex/box.go')],
  ['tex.HListOf','tex.VListOf','tex.Node.Width','tex.Node.Height','tex.Node.Depth'])
p('C17','Glue fills exactly the missing or excess space, by its order of infinity',
  'When a list is packed to another than its natural size, only glue of the highest order of infinity present stretches (or shrinks), in proportion to its stretchability (or shrinkability), so that the items fill the requested size up to the rounding of glue to whole units; lists packed to their natural size set no glue. Centred lists keep their content centred.',
  ['inputs','histories'],'all lists, mixes of glue kinds, packing sizes, and sequences of packing operations on one list',
  'The tests set glue in a few lists with one kind of glue and look at the glue fields, not at where things are drawn.',
  ['tex/box.go'],
  [('setGlue, determineOrder','tex/box.go'),('glue rounding','tex/box.go hlistOut, vlistOut')],
  ['tex.Tree.GlueSet','tex.Tree.GlueSign','tex.Tree.GlueOrder','tex.Ship'])
p('C18','Shipping draws every leaf once, at the place its boxes give it',
  'Shipping a box tree draws each character, accent and visible rule exactly once and in list order: horizontal items side by side on the baseline, vertical items from top to bottom at the left edge, lists displaced by their shift, running rules extended to their enclosing box. Moving the origin moves everything equally, siblings never influence each other\'s placement except through their sizes, and shipping again draws the same again.',
  ['inputs','histories'],'all trees of horizontal and vertical lists, shifts, kerns, glue and rules, all origins, repeated shipping',
  'The one shipping test only checks that shipping some trees does not panic; rules without depth were never drawn.',
  ['tex/box.go'],
  [('hlistOut, vlistOut','tex/box.go Ship'),('save and restore of the current point','tex/box.go Ship')],
  ['tex.Ship.Call','font.Backend.RenderGlyph','font.Backend.RenderRectFilled'],[('Ship.cur, Ship.off','current point and origin','tex/box.go Ship')])
p('C19','Shrinking and growing scale a whole tree uniformly, and are inverse',
  'Shrinking any node multiplies all its dimensions, font size, shift, kerns and the set glue of the complete subtree by the script factor 0.7, growing divides by it, so that the drawing is the same picture at another size; growing undoes shrinking and conversely, any number of times, and nothing outside the subtree changes.',
  ['inputs','histories'],'all trees and all sequences of shrink and grow operations',
  'The tests shrink and grow single nodes of each type once and compare fields.',
  ['tex/box.go'],
  [('Shrink, Grow','tex/box.go'),('recursion into children','tex/box.go List')],
  ['tex.Node.Shrink','tex.Node.Grow','tex.Ship'])
p('C20','Characters are kerned pairwise and delimiters sized to their target',
  'In a kerned list, each character is followed by its advance minus its width plus the kerning with the next character, computed with both fonts and symbols, and nothing else is inserted; unkerned lists are left alone. A character made to fit a height and depth has the requested total height and is lowered to reach the requested depth.',
  ['inputs','configurations'],'all sequences of nodes, all font metrics, all targets',
  'The tests kern a few lists with metrics that have no kerning pairs, and fit one character.',
  ['tex/box.go'],
  [('kern','tex/box.go kern, Char.Kerning'),('AutoHeightChar','tex/box.go AutoHeightChar')],
  ['tex.HListOf','tex.AutoHeightChar'])
p('C21','Font metrics and drawn glyphs agree with the font files',
  'For every symbol, font class and size, the reported advance, bounding box, height and kerning are those of the glyph in the font file scaled to the size, letters are slanted in italic and everything else is upright, glyphs of the extension font are raised by half their height and a third of the size, and the glyph drawn is the one that was measured, from the same font. The bundled collections hold the faces of their family. Metrics never depend on which symbols, fonts or sizes were asked for before.',
  ['inputs','configurations','histories'],'all symbols, font classes, sizes, and sequences of queries on one font backend',
  'The tests compare the metrics of 8 letters at one size, each asked for once.',
  ['font/ttf/ttf.go'],
  [('glyph cache','font/ttf/ttf.go getInfo'),('font selection','font/ttf/ttf.go getGlyph'),('Kern','font/ttf/ttf.go Kern')],
  ['font.Backend.Metrics','font.Backend.Kern','font.Backend.RenderGlyph'],[('glyphs','cache of measured glyphs','font/ttf/ttf.go Backend')])
p('C22','The canvas and the image show exactly the drawing operations issued',
  'A canvas returns all operations in the order and with the values they were issued. The image has the requested size in pixels, rounded up, is transparent except for black ink where a glyph or a rule was drawn, each at its coordinates multiplied by the resolution, and is the same for the same operations. A document has one page of the requested size.',
  ['inputs','histories','configurations'],'all sequences of operations, all sizes and resolutions',
  'The tests compare the pixels of four formulas at one resolution.',
  ['drawtex/canvas.go','drawtex/drawimg/drawimg.go'],
  [('operation list','drawtex/canvas.go'),('drawGlyph, drawRect','drawtex/drawimg/drawimg.go')],
  ['drawtex.Canvas.Ops','drawimg.Renderer.Render'])
p('C23','Output failures are always reported, and successes are complete',
  'When the destination of an image, a document or a rendering fails at any point, the call returns an error that carries the cause; when it returns no error, everything was written completely. A failure in one call never affects a later one.',
  ['fault_sequences','histories'],'all points at which a write or a rendering device can fail, and all sequences of failing and succeeding calls',
  'No test lets a destination fail.',
  ['drawtex/drawimg/drawimg.go','drawtex/drawpdf/drawpdf.go','mtex/render.go'],
  [('returned errors','drawtex/drawimg/drawimg.go Render, mtex/render.go Render, drawtex/drawpdf/drawpdf.go Write')],
  ['drawimg.Renderer.Render','mtex.Render','drawpdf.Write'])
p('C24','The command writes the requested image or fails loudly',
  'The command renders its one argument with the requested size and resolution into the requested file, identical to what the library renders with the bundled fonts, and exits with status zero only if that file was written completely. Any other number of arguments, a malformed expression or an unwritable output makes it exit with a non-zero status and a message.',
  ['inputs','configurations','fault_sequences'],'all argument lists, flag values and output conditions',
  'The command has no tests.',
  ['cmd/mtex-render/main.go'],
  [('flag handling and log.Fatalf','cmd/mtex-render/main.go main')],
  ['mtex-render'])
json_lines='\n'.join(json.dumps(d,ensure_ascii=False) for d in P)+'\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(json_lines)
import re
for d in P:
    n=len(re.findall(r'[.!?](?:\s|$)',d['statement'])); print(d['id'],n,d['title'])
