# technique and level note per property; the exact bounds are in the drivers' notes and in the evidence
BASE=" Trusted: the reference model in mc/model, the comparison in mc/cmp.go, Go's encoding/xml. Nothing is claimed beyond the stated bounds."
T["C01"]=("exhaustive enumeration of path command sequences on the real parser against a reference path machine",
 "Every command sequence of the bound (M/m + up to 3 commands with 1..2 groups after 5 kinds of preceding element, up to 4 with one group; thorough 4/5) is parsed by the real code and compared with the model op by op."+BASE)
T["C02"]=("exhaustive enumeration of arc argument grids and arc group sequences on the real parser against a reference ellipse construction",
 "All combinations of radii, rotations, flags, end points, command form and neighbouring commands of the grid, and all sequences of 2 (3) argument groups; emitted curves are compared with the exact ellipse arc (end points exact, points of the curve on the arc, sweep and order)."+BASE)
T["C03"]=("exhaustive enumeration of number list strings on the real parser against a reference automaton of the SVG number grammar",
 "All strings of the alphabet up to length 8 (10) that match the grammar, and all number spelling x separator sequences, in path data, points and viewBox."+BASE)
T["C04"]=("exhaustive enumeration of shape attribute grids and shape sequences on the real parser against reference outlines",
 "All attribute presence/value/order combinations of the grid after every kind of preceding element, and all sequences of 3 (4) of 23 shapes."+BASE)
T["C05"]=("exhaustive enumeration of length attribute x unit x root configuration on the real parser against a reference resolver",
 "Every length attribute the parser reads x numbers x units x white space x root configuration."+BASE)
T["C06"]=("exhaustive enumeration of styled document trees (deviation bounded) on the real parser against a reference style fold",
 "All document trees up to 5 (6) elements with styles at every node up to the deviation bound, all property pairs, all attribute/declaration conflicts."+BASE)
T["C07"]=("exhaustive enumeration of colour texts on the real parser against a reference colour recogniser",
 "All names and single edits of names, all #rgb, all channel values of #rrggbb, component grids of rgb(), all texts of the alphabet up to the length bound."+BASE)
T["C08"]=("exhaustive enumeration of transform lists and nestings on the real parser against a reference matrix interpreter",
 "All transform lists up to 4 (5) functions over 3 nesting levels, all trees up to the bound, all argument counts."+BASE)
T["C09"]=("exhaustive enumeration of definition forests and reference graphs on the real parser against a reference expander",
 "All definition forests up to 6 nodes within the deviation bound and all reference graphs of 3 definitions, compared with inline expansion; cycles must be errors."+BASE)
T["C10"]=("exhaustive enumeration of gradient definitions and definition/reference histories on the real parser against a reference gradient table",
 "All gradients within the deviation bound, all histories of 6 (7) definitions and references, all pairs of stop lists."+BASE)
T["C11"]=("exhaustive enumeration of mask placements and mask reference trees on the real parser against a reference mask collector",
 "All forests of up to 7 nodes with mask references at every node, all mask contents up to 3 (4) items at 10 placements."+BASE)
T["C12"]=("exhaustive enumeration of document token sequences on the real parser against a reference document automaton",
 "All sequences of 3 (4) items of 30 kinds, all token sequences of the bound, every single-tag mutation of a document."+BASE)
T["C13"]=("exhaustive enumeration of placements of unsupported content x error mode on the real parser against the document without it",
 "Every unsupported item at every place of 3 documents (and all pairs), in all three modes, with the log captured."+BASE)
T["C14"]=("exhaustive enumeration of hostile inputs on the real parser and all three renderers under a supervisor that detects panics, crashes, hangs and memory blow-up",
 "All token strings at every attribute, all element trees and reference graphs of the bound, every single-byte mutation and every cut of a document, degenerate strokes, extreme values and deep structures."+BASE)
T["C17"]=("exhaustive enumeration of matrix pairs and operation chains on the real code against exact reference arithmetic",
 "All matrices over the entry set, all pairs, all chains of 5 (7) operations."+BASE)
T["C15"]=("exhaustive enumeration of read schedules and fault points on the real parser against the whole-input result",
 "Every split of 9 documents into up to three (four) reads with empty reads and both end-of-input forms, every reader failure point, every truncation, every prefix through a file with descriptor accounting."+BASE)
T["C16"]=("stateless model checking of the real code: all call sequences and all preemption-bounded statement interleavings under a controlled scheduler, each call compared with its result in its own process",
 "All sequences of 3 (4) calls, all pairs with one preemption at every statement, pairs and triples with two preemptions at every 16th/64th (every/8th) statement; all document pairs with one changed everywhere; a happens-before analysis of all pairs covers accesses inside a statement. Scheduling points are inserted by a build overlay; code below the library runs without them."+BASE)
T["C18"]=("exhaustive enumeration of path building sequences and coordinates on the real code, round-tripped through the real parser and a reference path machine",
 "All sequences of up to 6 (8) building operations, coordinate grids up to 2^24, all pairs of sixty-fourths at 9 magnitudes, parsed paths of up to 4 (5) commands."+BASE)
T["C19"]=("exhaustive enumeration of drawn documents (deviation bounded) on the real renderer with a recording draw2d context against a reference painter",
 "All documents of 1 to 3 shapes within 2..3 (3..4) deviations over geometry, 15 style attributes, viewBox, target, opacity, and 9 prior context states. Widths and dashes within drawable limits (dash patterns shorter than 1/16 px or longer than 2^20 are drawn solid, odd lists doubled, offsets modulo the pattern)."+BASE)
T["C20"]=("exhaustive enumeration of drawn documents (deviation bounded) on the real renderer with a recording scanner against rasterx's own stroker and a reference painter",
 "All documents of 1 to 3 shapes within 2..3 (3..4) deviations, gradients over vectors, units, spread, transforms and stops, 7 prior dasher states. User-space gradients are claimed where rasterx can map them (linear under conformal, radial under axis-aligned maps, focal radius ignored)."+BASE)
T["C21"]=("exhaustive enumeration of drawn documents (deviation bounded) on the real renderer, pixel by pixel against a reference painter on the same library",
 "All documents of 1 to 3 shapes within 2..3 (3..4) deviations, masks of 1..2 shapes with 2 users, 8 prior context states; the first pixel column is left out. Gradient fills are claimed for user-space pad gradients without gradient transform under the identity mapping."+BASE)
T["C22"]=("exhaustive enumeration of option lists, targets and viewBoxes on the real options code and all renderers against a reference mapping",
 "The full grid of targets, opacities, roots and renderers, all option lists of up to 5 (6), all histories of 3 (4) draws with shared option lists."+BASE)
T["C23"]=("exhaustive enumeration of drawing histories on the real renderers: deep snapshots of the document, and pictures compared bit by bit with fresh copies and fresh contexts",
 "All documents of 1 to 3 shapes within the deviation bound, all renderer sequences of 2..3 (4) draws, documents drawn path by path, 5 documents drawn before."+BASE)
T["C24"]=("exhaustive enumeration of copied and edited documents (deviation bounded) and of editing histories on the real renderers, pictures compared bit by bit with those of the parsed document with equal fields; exhaustive enumeration of mode values, plain colours and stop lists",
 "All documents of 1 to 2 shapes within the deviation bound copied in 3 ways, all sequences of 1 (2) of 70 edits in 4 ways, all 256 values of each mode type, plain colours over 13 (256) component values, stop lists of up to 4 (5)."+BASE)
