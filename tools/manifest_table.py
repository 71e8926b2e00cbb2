EX = "explicit-state model checking: exhaustive bounded enumeration of inputs, each run on the real code and compared with an executable reference model"
TABLE = {
 'C01': ("model_checking", EX, "all token strings, transition tours over stacks of open constructs, all code points and byte pairs, all macros, truncations and scale families, run on latex.ParseExpr itself"),
 'C02': ("model_checking", EX, "every derivation with up to 4 (5) constructs and the shared input space; reference parser written from the documented grammar"),
 'C03': ("model_checking", EX, "every single-token edit of every formula with up to 3 (4) constructs and the shared input space"),
 'C04': ("model_checking", EX, "every derivation with up to 3 (4) constructs in every multi-byte surrounding; positions compared one by one"),
 'C05': ("model_checking", EX, "every token boundary of every formula with up to 3 (4) constructs times every kind of blank and comment"),
 'C06': ("model_checking", "stateless model checking: every tree up to a number of nodes times every sequence of visitor decisions, on the real Walk and Inspect against the documented traversal", "all trees up to 4 nodes of all kinds (6 of fewer kinds) with nil slots; all decision sequences"),
 'C07': ("model_checking", "explicit-state model checking: every tree up to a number of nodes printed by the real code; the printed forms compared with a reference printer and with each other", "all trees up to 4 (5) nodes, all texts of a set chosen to collide, all two-byte texts, 120000 kind values"),
 'C08': ("model_checking", EX, "every token string, tour over stacks of open constructs, macro, code point and formula, on mtex.Parse and mtex.Render with synthetic and real fonts; verdict of the reference typesetter"),
 'C09': ("model_checking", EX, "every formula with up to 3 (4) supported constructs, every token pair under every stack of constructs, every macro; glyph sequence and rule count of the reference typesetter"),
 'C10': ("model_checking", EX, "every nesting of up to 3 (4) constructs at 8 sizes and resolutions, all stacks of depth 4 (5); all places and sizes compared with the reference layout"),
 'C11': ("model_checking", EX, "every sequence of 3 tokens of 41 kinds, of 4 (6) tokens of 14 kinds, every symbol against one of each class; horizontal places and widths compared with the reference layout"),
 'C12': ("model_checking", EX, "every formula with up to 2 (3) constructs at all combinations of 8 sizes, 4 resolutions and 4 font collections; canvas compared with the reference layout with the same fonts"),
 'C13': ("model_checking", EX, "every symbol name in 11 surroundings with 4 font collections, code points (all in thorough), all unknown names of 3 (4) letters, all classes, against frozen tables"),
 'C16': ("model_checking", "explicit-state model checking: every box tree up to a number of nodes and every short history of packing operations, on the real boxes against a reference box model", "all lists up to 4 items, nested trees, all packing histories"),
 'C17': ("model_checking", "explicit-state model checking: every list with glue up to a number of items times every target size, on the real boxes against a reference box model", "all combinations of glue kinds up to 4 items"),
 'C18': ("model_checking", "explicit-state model checking: every box tree up to a number of nodes, shipped by the real code and compared with a reference shipping algorithm", "all trees up to the bound; three origins; repeated shipping"),
 'C19': ("model_checking", "explicit-state model checking: every box tree times every history of shrink and grow operations on its nodes, against a reference box model", "all histories up to the bound on all nodes"),
 'C20': ("model_checking", "explicit-state model checking: every sequence of characters and other nodes, kerned by the real code, against a reference model; all fitted characters", "all sequences up to the bound, all pairs of symbols and fonts"),
 'C21': ("model_checking", "explicit-state model checking: every sequence of up to 3 (4) backend queries compared with fresh answers, and every symbol, class, size and collection compared with the font files read directly", "all symbols and characters, 5 collections, 5 classes, 5 sizes, kerning pairs, query histories"),
 'C22': ("model_checking", "explicit-state model checking: every sequence of drawing operations up to a bound on the real canvas and image renderer, compared pixel by pixel with a reference rasterisation of each operation", "all operation sequences up to length 3 (4), sizes, resolutions and positions"),
 'C23': ("model_checking", "stateless model checking with a fault injector: every failing write, byte and cause of every output of the real code, at bounded sizes", "every write call and byte of images, every byte of documents, open, close, failing renderers; 18 causes"),
 'C24': ("model_checking", "stateless model checking of the command: every argument list and formula up to a bound, and every fault of its output file, on the real binary", "all formulas up to 2 (3) constructs, all macros, all argument lists up to 3 (4), all combinations of flags, faults at every byte"),
 'C14': ("model_checking", "stateless model checking: every sequence of up to 3 calls of 43 kinds on the real code, in fresh processes, against the result of each call alone", "all sequences of 2 calls in fresh processes with kept and damaged results, all of 3 calls, long histories"),
 'C15': ("model_checking", "stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound, each watched by a happens-before race detector and compared with the sequential results", "all pairs of calls, 1 preemption before any statement, 2 before statements with shared variables, first calls of fresh processes with up to 3 goroutines"),
}
NA = {}
