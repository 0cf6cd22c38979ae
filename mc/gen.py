#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from units import UNITS
P = []
def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))

S = "src/hob3l/"; O = "src/hob3lop/"; B = "src/hob3lbase/"; M = "src/hob3lmat/"
TB = "Trusts gcc, libc and the reference model in /verif/mc; says nothing beyond the stated alphabet and bounds."

p("C01", "Every layer of the output is exactly the CSG set expression of the model",
  "For every tree of union/group, difference and intersection over 3D bodies, a point of a layer that is not on a boundary is filled in the output exactly if the set expression says that it is inside at that layer's height: the first child that is not syntactically ignored is the base of a difference and everything later is subtracted, and ignored (recursively empty) children do not take part in intersection. Bodies may coincide, touch, nest, or share faces.",
  ["inputs"], "all CSG trees up to a size over bodies whose faces coincide, touch, overlap and nest; all placements of up to three bodies on a small grid",
  "Tests convert a handful of fixed models and compare nothing or only exit codes; the expression tree, sharing and coincidence of faces, and which child is ignored range over all models.",
  [S+"csg3.c", S+"csg2-tree.c", S+"csg2-layer.c", S+"csg2-bool.c", O+"op-sweep.c", B+"bool-bitmap.c"],
  [("tree conversion and ignored children", S+"csg3.c: csg3_from_difference, csg3_from_intersection"), ("lazy boolean combination per layer", S+"csg2-bool.c: csg2_op_csg2, cp_csg2_op_flatten_layer"), ("bitmap function of a lazy combination", B+"bool-bitmap.c: cp_bool_bitmap_combine")],
  "bounded-exhaustive enumeration of CSG programs against a set-membership model, run on the real program",
  "Every program of the enumerated families is run end to end and every layer is compared with an independent membership evaluator at one point per cell. "+TB)

p("C02", "Affine transformations place bodies exactly as their documented matrices",
  "translate, scale, rotate (Euler angles and axis/angle), mirror and multmatrix apply exactly the documented matrix to everything below them, compose from the outside in, keep solids solid under mirroring, and give exact results for multiples of 90 degrees. A transformation that cannot be inverted is reported as the collapse policy says.",
  ["inputs"], "all chains of transformations up to a length over an alphabet of axis-aligned, oblique, negative and degenerate arguments",
  "The tests apply a few fixed transformations; composition order, argument forms, sign combinations and angles span an infinite space.",
  [S+"csg3.c", S+"scad.c", M+"algo.c", M+"mat_gen_ext.c", "include/hob3lmat/mat.h"],
  [("matrix per functor", S+"csg3.c: csg3_from_translate/mirror/scale/rotate/multmatrix"), ("argument conversion", S+"scad.c: get_vec2_or_3, get_mat4, cp_scad_*"), ("exact sin/cos", M+"algo.c: cp_sin_deg, cp_cos_deg")],
  "bounded-exhaustive enumeration of transformation chains against an independent matrix model, run on the real program",
  "Probe bodies without symmetry are transformed by every chain; all layers compared with reference membership. "+TB)

p("C03", "3D and 2D primitives have exactly the documented shape for every argument",
  "cube, sphere, cylinder, polyhedron, square, circle and polygon produce exactly the documented solid or area for every combination of their documented arguments (size, radii and diameters, height, center, number of fragments, paths), including cones, negative or reversed orientation of faces, and the limit on the number of fragments.",
  ["inputs"], "all combinations of documented arguments over small value alphabets, named and positional, all fragment counts up to a bound",
  "Tests use a few parameter sets and do not check the resulting shape point by point.",
  [S+"csg3.c", S+"scad.c", S+"csg2-layer.c"],
  [("primitives to polyhedra", S+"csg3.c: csg3_from_cube/sphere/cylinder/poly, csg2_from_circle/square/polygon"), ("fragment count", S+"csg3.c: cp_csg3_get_fn")],
  "bounded-exhaustive enumeration of primitive calls against analytic shapes, run on the real program",
  "Every combination in the alphabet is rendered and compared with the analytic shape at sample points in every layer. "+TB)

p("C04", "Extrusions, hull and projection produce exactly the documented solid",
  "linear_extrude (height, center, slices, twist, scale), rotate_extrude (angle, number of fragments), hull and projection(cut=true) of any 2D or 3D child produce exactly the documented solid or area, also below transformations and when nested, with the even-odd area of their children.",
  ["inputs"], "all argument combinations over small alphabets, for a family of 2D shapes with holes, concave corners and several paths, below transformations in 2D and 3D context",
  "The tests contain a few extrusions with fixed arguments; they do not check the geometry.",
  [S+"csg3.c", S+"csg2-hull.c"],
  [("linear extrusion", S+"csg3.c: csg3_from_linext"), ("rotary extrusion", S+"csg3.c: csg3_from_rotext"), ("hull", S+"csg2-hull.c: cp_csg2_hull"), ("projection", S+"csg3.c: csg3_from_projection")],
  "bounded-exhaustive enumeration of extrusion programs against an independent geometric model, run on the real program",
  "Every combination in the alphabet is rendered and compared with an analytic membership function in every layer. "+TB)

p("C05", "Layers cover the model's height exactly at the documented positions",
  "The layers lie at the documented heights: the first half a step above the lowest point of the model (or at the given minimum), then one per step up to the highest point (or the given maximum), at least one; each is extruded from its height to its height plus step minus gap. The extent taken into account is that of what can be present in the result, so no part of the result that reaches a layer position is missing.",
  ["inputs", "configurations"], "all combinations of z-min, z-max, z, step and gap over a small alphabet with bodies whose extent is decided by any child of any operation",
  "Tests use the default slicing of a few models; the extent of a model depends on every primitive and operation.",
  [S+"main.c", S+"csg3.c", S+"csg2-tree.c", S+"csg2-2stl.c", B+"arith.c", "src/hob3l/opt.switch"],
  [("layer range", S+"main.c: do_file, include/hob3l cp_range_init"), ("bounding box", S+"csg3.c: get_bb_*, cp_csg3_tree_minmax"), ("extrusion", S+"csg2-2stl.c: layer_put_stl")],
  "bounded-exhaustive enumeration of models and slicing options against a layer model, run on the real program",
  "Each combination is run and the set of layer heights and thicknesses in the output is compared with the reference. "+TB)

p("C06", "The 2D boolean kernel computes every boolean function of its operands exactly",
  "For every set of polygons (with holes, self-touching or overlapping edges, coincident edges and vertices, or crossing at one point) and every boolean function, the computed area contains a point that is not on an edge exactly if the function of the operands' even-odd membership is true there, up to snapping to the coordinate grid; the result consists of non-crossing closed edges. It never aborts or hangs.",
  ["inputs"], "all polygon pairs and triples over a small grid with every boolean function of their membership",
  "The kernel's tests are some dozens of fixed polygons; degeneracies come from relative positions of edges, which only enumeration covers.",
  [O+"op-sweep.c", O+"op-sweep-reduce.c", O+"op-sweep-trace.c", O+"matq.c"],
  [("plane sweep with snap rounding", O+"op-sweep.c: cq_sweep_intersect"), ("membership and reduction", O+"op-sweep-reduce.c: cq_sweep_reduce")],
  "bounded-exhaustive enumeration of polygon sets on a grid against exact arrangement membership, on the real kernel",
  "All pairs/triples of polygons on the grid with all boolean functions; membership compared at a witness of every face of the exact arrangement. "+TB)

p("C07", "Triangulation covers exactly the polygon, once, and marks exactly its outline",
  "For every polygon set the kernel can produce, the triangles are non-degenerate, uniformly oriented, disjoint, cover exactly the area, use only its vertices, and the edges marked as outline are exactly the boundary of the area.",
  ["inputs"], "all polygon sets over a small grid, all pixel images up to a size, families of long monotone chains",
  "The tests triangulate some fixed shapes; wrong diagonals or flags arise from particular orders of events.",
  [O+"op-trianglify.c", O+"op-sweep.c"],
  [("monotone triangulation in the sweep", O+"op-trianglify.c: cq_sweep_trianglify"), ("outline flags", O+"op-trianglify.c: edge_is_outline")],
  "bounded-exhaustive enumeration of polygon sets against exact area, coverage and outline models, on the real kernel",
  "Every polygon set in the space is triangulated; exact area, coverage of every arrangement face, orientation and outline flags are compared. "+TB)

p("C08", "Outline paths bound exactly the polygon with consistent orientation",
  "For every polygon set the kernel can produce, the outline paths it returns bound exactly the area, outer paths run clockwise and holes counter-clockwise so that the area lies on the same side of every edge, and no path crosses another or has collinear vertices that were to be dropped.",
  ["inputs"], "the same spaces as for triangulation",
  "The tests do not compare the paths with the area.",
  [O+"op-poly.c", O+"op-sweep-trace.c"],
  [("path tracing", O+"op-sweep-trace.c: cq_sweep_trace"), ("polygon assembly", O+"op-poly.c: cq_sweep_poly")],
  "bounded-exhaustive enumeration of polygon sets against exact area and orientation models, on the real kernel",
  "Same space as C07; paths compared by winding, orientation and boundary. "+TB)

p("C09", "The STL output is a closed, consistently oriented surface with outward normals",
  "In every STL file written, in text or binary form, each layer is a closed surface: every directed edge is matched by exactly its reverses, triangles are non-degenerate, the volume enclosed is positive and equals the layer's area times its thickness, facet normals point outward, and the count in a binary header matches. Different layers do not touch.",
  ["inputs", "configurations"], "all models of the enumerated families, both encodings, several gaps and steps",
  "The tests do not inspect the STL; closure depends on how triangles and outline flags meet at shared vertices.",
  [S+"csg2-2stl.c", S+"csg2-bool.c", O+"op-trianglify.c"],
  [("triangles, mirrored bottom and walls", S+"csg2-2stl.c: triangle_put_stl, poly_put_stl, layer_put_stl")],
  "bounded-exhaustive enumeration of models; every written STL is checked for manifoldness, orientation and volume",
  "Every model of the families is rendered; edge matching, volume and normals computed from the file's own numbers. "+TB)

p("C10", "All output formats describe the same layers",
  "For every model, text STL, binary STL, JavaScript, the sliced SCAD dump and PostScript describe the same set of layers with the same heights and areas, up to the documented number precision and layer gap of each format.",
  ["inputs", "configurations"], "all models of an enumerated family written in every format",
  "No test compares two formats with each other.",
  [S+"csg2-2stl.c", S+"csg2-2js.c", S+"csg2-2scad.c", S+"csg2-2ps.c", S+"ps.c"],
  [("writers", S+"csg2-2stl.c, csg2-2js.c, csg2-2scad.c, csg2-2ps.c")],
  "bounded-exhaustive enumeration of models; each format is parsed back and compared by area and membership per layer",
  "All models of the family are written in five formats, parsed by independent readers and compared. "+TB)

p("C11", "Geometric predicates of the integer kernel are exact over the coordinate range",
  "Comparisons of slopes and cross products, line intersection with rounding to the grid, point-on-segment ordering and the wide multiplication and division they rest on return the mathematically exact result for all coordinates of the supported range.",
  ["inputs"], "all combinations of boundary values of the number range and all segments over a small grid",
  "Tests try dozens of values; overflow appears only near limits and rounding only at ties.",
  [O+"matq.c", "include/hob3lop/matq.h"],
  [("wide arithmetic", "include/hob3lop/matq.h, "+O+"matq.c: cq_divmodx..., cq_vec2_intersection")],
  "bounded-exhaustive enumeration of operand combinations from boundary alphabets against 128/256-bit reference arithmetic",
  "All operand tuples from the alphabets and all segment pairs over the grid compared with exact reference. "+TB)

p("C12", "Slicing a polyhedron yields its exact cross-section at every height",
  "For every closed polyhedron and every height, also at the height of vertices, edges and horizontal faces, the slice is exactly the cross-section of the solid just above that height, snapped to the grid, independent of face order, face orientation and starting vertices.",
  ["inputs"], "all tetrahedra on a 3x3x3 grid, all prisms and pyramids over simple polygons in all axis orientations, cut at all vertex heights and between",
  "Tests slice a few fixed models at heights that avoid vertices.",
  [O+"op-slice.c", O+"hedron.c", S+"csg2-layer.c"],
  [("slicing by edges", O+"op-slice.c: cq_slice")],
  "bounded-exhaustive enumeration of polyhedra and heights against exact cross-sections, on the real slicer",
  "All polyhedra of the families cut at all levels. "+TB)

p("C13", "Parsing and the dump formats preserve the model",
  "Every syntactically valid input is parsed to the tree that the documented grammar assigns to it, with white space and comments (line and block) never mattering, and text outside the grammar is rejected with a located error (surplus ';', trailing commas and repeated modifiers are tolerated); the syntax and SCAD dumps are themselves valid inputs that denote the same model with numbers to 16 significant digits, and dumping a dump reproduces it.",
  ["inputs", "programs"], "all token sequences and statement trees of the grammar up to a size, all spellings of numbers, strings and comments up to a length",
  "Tests parse fixed files; nesting, separators and literal spellings are unbounded.",
  [S+"syn.c", S+"syn-2scad.c", S+"scad-2scad.c", S+"csg3-2scad.c"],
  [("lexer and parser", S+"syn.c"), ("dump writers", S+"syn-2scad.c, scad-2scad.c")],
  "bounded-exhaustive enumeration of grammar derivations and character strings against a reference parser, on the real parser",
  "All programs and strings up to the bound; accept/reject and canonical tree compared with a reference lexer/parser. "+TB)

p("C14", "Functor arguments bind by position and name exactly as documented",
  "For every functor, each documented parameter can be given by name, and by position where documented, in any order and mix, and binds to that parameter; a missing mandatory parameter, a wrong type, an unknown parameter (under the policy 'error'), a surplus positional argument, a positional argument after a named one and mutually exclusive combinations are rejected with a located error, and so are values out of the documented range.",
  ["inputs"], "all functors x all sets, orders and naming of their parameters up to a size, all value types for each parameter",
  "Tests use each functor in one or two ways.",
  [S+"scad.c"],
  [("argument binding", S+"scad.c: get_arg, GET_ARG tables of each functor")],
  "bounded-exhaustive enumeration of calls against a declarative signature table, observed through the SCAD dump",
  "All calls of the space are run; acceptance and the resulting canonical dump compared with the table. "+TB)

p("C15", "No input or option makes the program crash, corrupt memory or hang",
  "For every input file and command line that asks for a bounded amount of work, the program ends by itself with success or with an error message and a non-zero exit status; it never reads or writes outside its memory, fails an assertion, or runs forever. The only abort is the designed one, with a message, when coordinates overflow the integer range or memory is exhausted. The same holds for imported and included files of every supported type.",
  ["inputs", "configurations"], "all byte strings over small alphabets up to a length for each lexer, all single-token deletions, replacements and truncations of a corpus that uses every construct, for all file formats",
  "The tests contain no malformed inputs beyond a handful.",
  [S+"syn.c", S+"scad.c", S+"csg3.c", S+"stl-parse.c", S+"svg-parse.c", S+"xml-parse.c", S+"gc.c", S+"main.c"],
  [("error reporting instead of assertion", S+"syn-msg.c: cp_syn_msg"), ("parsers", S+"syn.c, xml-parse.c, svg-parse.c, stl-parse.c")],
  "bounded-exhaustive enumeration of byte strings and of all single-token mutations, on the sanitized real program",
  "All strings up to the bound and all single mutations of the corpus are run under AddressSanitizer and UBSan with a watchdog. "+TB)

p("C16", "Problem policies decide between error, warning and silence, and nothing else",
  "For each class of problem with a policy (empty objects, collapsing transformations, 3D objects in 2D context and vice versa, unsupported functors, unknown functors, unknown parameters) 'error' makes the run fail with a located message, 'warn' reports and goes on, 'ignore' goes on silently; with 'warn' and 'ignore' the geometry is that of the model in which the offending construct is empty (or, for an unknown parameter, absent). Empty and collapsed objects and 2D objects in 3D context still count as children; 3D objects in 2D context and unsupported or unknown functors do not.",
  ["inputs", "configurations"], "all problem classes x all policies x positions of the offending construct in an expression",
  "Tests hardly use the policies.",
  [S+"syn-msg.c", S+"scad.c", S+"csg3.c", S+"main.c", S+"opt.switch"],
  [("policy", S+"syn-msg.c: cp_syn_msg"), ("uses", S+"csg3.c, scad.c")],
  "bounded-exhaustive enumeration of policies, problem classes and positions against a reference, run on the real program",
  "All combinations are run; exit status, messages and geometry compared with the reference. "+TB)

p("C17", "STL import reproduces the solid stored in the file",
  "Importing an STL file, text or binary, yields the solid it describes in any order of facets, rotation of vertices and spelling of numbers and white space that the format allows, with facets whose vertex order contradicts their normal corrected; a truncated or malformed file is rejected with an error.",
  ["inputs"], "all facet orders, rotations, orientations and encodings of small solids; all truncations and all single-token mutations",
  "Tests import one or two fixed files.",
  [S+"stl-parse.c", S+"vec3-dict.c"],
  [("STL reader", S+"stl-parse.c: cp_stl_parse"), ("vertex merging", S+"vec3-dict.c")],
  "bounded-exhaustive enumeration of encodings and mutations of small solids, run on the real program",
  "All encodings of the family are imported and compared by membership; all truncations must be rejected. "+TB)

p("C18", "SVG import yields exactly the area of the drawn shapes",
  "Importing an SVG file yields the union of its basic shapes and paths, each with the even-odd area of its outline, open figures closed: with every path command in absolute and relative form, implicit repetition and every spelling of numbers, and with transformations, nested viewports, alignment, units, percentages, dpi, centering and selection of layers by id applied as the SVG 2 specification and the documentation say. Elements that draw nothing and invalid attributes never abort the import; a path is drawn up to its first error.",
  ["inputs"], "all path-command sequences up to a length, all shapes, transformation lists and viewBox/alignment combinations over small alphabets",
  "Tests import a few drawings and do not check the area.",
  [S+"svg-parse.c", S+"xml-parse.c"],
  [("path interpreter", S+"svg-parse.c"), ("transform and viewport", S+"svg-parse.c: do_align, s_transform")],
  "bounded-exhaustive enumeration of SVG documents against a reference interpreter, run on the real program",
  "All documents of the space are imported and compared by membership with an independent interpreter. "+TB)

p("C19", "The XML reader accepts exactly well-formed documents and returns their content",
  "For every well-formed UTF-8 document without CDATA sections, processing instructions, DTD internal subsets and entities of its own, the reader returns the element tree, attributes, namespaces and character data it denotes, with references decoded and comments skipped. It rejects with a located error everything else: mismatched, missing and unterminated markup, empty names, undefined prefixes and entities, character references out of range, invalid UTF-8, NUL, and anything but exactly one root element. (It is documented to be lenient about attributes without a value; attributes without white space between them, duplicate attributes and characters XML does not allow are left open.)",
  ["inputs"], "all documents up to a number of markup tokens over a small alphabet, all character references",
  "No test looks at the XML reader directly.",
  [S+"xml-parse.c", "include/hob3l/xml-parse.h"],
  [("XML reader", S+"xml-parse.c: cp_xml_parse")],
  "bounded-exhaustive enumeration of token sequences against a reference recogniser, on the real reader",
  "All token strings up to the bound parsed by the real reader and a reference. "+TB)

p("C20", "The ordered dictionary is a balanced search tree with exact set semantics",
  "After every sequence of insertions (with each policy for duplicates and by position), removals, extractions, splits and joins, iteration in both directions, lookup, minimum and maximum agree with a sorted sequence, the tree stays a valid red-black tree of logarithmic height, and augmented data is correct in every node.",
  ["histories"], "all operation sequences up to a depth over a small key set",
  "Tests run a few fixed and random sequences; rebalancing cases depend on tree shape.",
  [B+"dict.c", "include/hob3lbase/dict.h"],
  [("red-black tree", B+"dict.c"), ("augmentation callback", "include/hob3lbase/dict.h: cp_dict_aug_t")],
  "explicit-state breadth-first search over all operation sequences of the real tree against a sorted-list model",
  "All reachable tree shapes up to a size are visited and every operation is applied in each. "+TB)

p("C21", "Growable arrays, heaps, lists, strings and pools behave as their abstract types",
  "After every sequence of operations an array, priority queue, ring list, growable string or memory pool contains exactly what the abstract type prescribes, including insertion of an array into itself, removal at both ends, sorting, searching, growth across every capacity boundary, and allocation of every size and alignment without overlap; the helpers they rest on (exchange of memory, alignment, wrap-around indices, prefixes, comparison of texts) compute what their names say.",
  ["histories"], "all operation sequences up to a depth over small values and positions",
  "Tests cover a few operations of lists; arrays, heaps, strings and pools are hardly tested.",
  [B+"vec.c", B+"heap.c", B+"list.c", B+"vchar.c", B+"pool.c", B+"qsort.c", B+"arith.c", "include/hob3lbase/vec.h", "include/hob3lbase/base-def.h"],
  [("array operations", B+"vec.c"), ("heap", B+"heap.c"), ("list", B+"list.c"), ("string", B+"vchar.c"), ("pool", B+"pool.c")],
  "explicit-state search over all operation sequences of the real containers against plain reference models, under sanitizers",
  "All sequences up to the depth, every state compared in full. "+TB)

p("C22", "Lazily combined boolean functions equal the composed truth table",
  "Combining the truth tables of two operand groups for union, intersection, difference and exclusive or, and extending or repeating a table over more operands, gives exactly the truth table of the composed expression, for every split of the operands up to the maximum.",
  ["inputs"], "all splits of up to the maximum number of operands, all operations, complete families of truth tables",
  "Tests never look at truth tables; small models use a handful of operands.",
  [B+"bool-bitmap.c", "include/hob3lbase/bool-bitmap.h", S+"csg2-bool.c"],
  [("spread, repeat, combine", B+"bool-bitmap.c")],
  "bounded-exhaustive enumeration of table sizes, operations and truth-table families against bitwise composition",
  "All sizes and splits up to the limit; all tables for small sizes, bases of the function space for large ones. "+TB)

p("C23", "UTF-8 and escape decoding accept exactly valid text",
  "Decoding of UTF-8 accepts exactly the well-formed sequences of valid code points and returns the code point and length; string escapes decode exactly as documented; everything else is rejected; encoding followed by decoding is the identity.",
  ["inputs"], "all byte sequences of up to four bytes, all code points, all escapes",
  "Tests do not decode anything.",
  [B+"utf8.c", "include/hob3lbase/utf8.h"],
  [("decoder and escape decoder", B+"utf8.c")],
  "exhaustive enumeration of all byte sequences and code points against the Unicode definition, on the real decoder",
  "Complete enumeration of byte sequences up to four bytes. "+TB)

p("C24", "Every command-line option has exactly its documented effect in every spelling",
  "Each documented option is accepted in each documented spelling (any number of dashes, '=value' or separate value, documented boolean and number forms), has exactly its documented effect and default, the last of contradicting options wins, and unknown options, missing or malformed values and surplus files are rejected with exit status 1 and without touching any output file. The output format follows the file ending unless a dump option says otherwise.",
  ["configurations"], "all options x spellings x value alphabets, and all pairs of options that interact",
  "Tests use a few options in one spelling.",
  [S+"main.c", S+"opt.switch", "script/switch.pl"],
  [("option parser", S+"main.c: parse_opt, get_arg_*"), ("option table", S+"opt.switch")],
  "bounded-exhaustive enumeration of option combinations and spellings, run on the real program",
  "All spellings and pairs are run and compared with the behaviour of the reference spelling or documented effect. "+TB)

p("C25", "A failed read or write is reported and never leaves a run that claims success",
  "If opening or reading an input file, or opening, writing or closing the output fails at any point, the program reports the failure with a message and ends with a non-zero status; it never reports success with incomplete output. Short reads and writes that are not failures do not change the output.",
  ["fault_sequences"], "every single fault (open, read, write, close) at every position of the call sequence of a run, for every output format",
  "Tests never inject faults.",
  [S+"main.c", S+"syn.c", S+"stl-parse.c", B+"stream.c", S+"internal.c"],
  [("output", S+"main.c: main, "+B+"stream.c"), ("input", S+"syn.c: cp_syn_read")],
  "exhaustive single-fault injection at every I/O call of the real program",
  "Every I/O call of each run is failed once in every listed way. "+TB)

p("C26", "Modifier characters select exactly the documented part of the model",
  "'*' (disable) and '%' (background) remove the marked subtree from the result as if it was not written, '!' makes the marked subtree the whole model, without the transformations around it, '#' changes nothing, for every position of the modifier in a model and every combination of modifiers; two objects marked '!' are an error.",
  ["inputs", "programs"], "all positions of one and two modifiers in all expression trees up to a size",
  "Tests use modifiers in one or two places.",
  [S+"scad.c", S+"csg3.c", S+"syn.c"],
  [("modifiers", S+"csg3.c: csg3_from_scad"), ("root object", S+"scad.c: func_new")],
  "bounded-exhaustive enumeration of modifier placements against a reference rewriting, run on the real program",
  "All placements compared by membership with the rewritten model. "+TB)

p("C27", "Output is deterministic and independent of tuning options",
  "The same input and options always give byte-identical output; options that only tune processing (maximum number of simultaneously combined polygons, dropping of collinear vertices, skipping of empty polygons, verbosity, path generation, file or standard output) never change the solid that is output; and rewriting a model by an identity of set algebra never changes it.",
  ["configurations", "inputs"], "all values of the tuning options over all models of an enumerated family, including more operands than are combined at once",
  "Tests run each model once with default options.",
  [S+"csg2-bool.c", S+"main.c", B+"pool.c"],
  [("lazy combination limit", S+"csg2-bool.c: csg2_op_lazy, cp_csg2_op_reduce")],
  "bounded-exhaustive enumeration of models x option values, differential comparison of complete outputs of the real program",
  "All models x all option values compared with the default run and the reference membership. "+TB)

p("C28", "Included and imported files are resolved relative to the file that names them",
  "`include <path>` behaves as if the statements of the named file stood in its place (as one block if it is the body of a functor), at top level and nested, for every depth, number of includes and directory layout, with relative paths resolved against the directory of the including file; import finds its file relative to the file containing the import; a file that is missing, or is not a list of statements, and a cycle of includes are errors, located in the file that has them, and a missing file's name is in the message.",
  ["inputs", "programs"], "all include graphs up to a depth over directories, include positions and path forms",
  "Tests contain no includes across directories.",
  [S+"syn.c", S+"csg3.c", S+"internal.c"],
  [("include", S+"syn.c"), ("path resolution", S+"internal.c")],
  "bounded-exhaustive enumeration of file graphs against the inlined program, run on the real program",
  "All graphs compared by dump and geometry with the inlined program. "+TB)

p("C29", "Colours reach the output as documented and never alter the geometry",
  "color() with a name (any CSS3 colour name, in any letter case, or a hexadecimal triple), a 3- or 4-component array, undef, and with or without alpha gives exactly the documented colour to the bodies below it, the innermost one winning, as seen in the 3D tree and the SCAD dump; an unknown name or a component out of range is an error; colour never changes the solid.",
  ["inputs"], "all colour names in several spellings, all component and alpha combinations over a small alphabet, all nestings of two",
  "Tests use one or two colours and never check the output colour.",
  [S+"gc.c", S+"scad.c", S+"csg3.c", S+"csg2-2js.c", S+"gc-color.sieve"],
  [("names", S+"gc.c: cp_color_by_name"), ("inheritance", S+"csg3.c: csg3_from_color")],
  "exhaustive enumeration of colour names and bounded-exhaustive enumeration of colour expressions, observed in the 3D tree and the dump",
  "All CSS names and combinations compared with the CSS table. "+TB)

p("C30", "Every message names the file, line and column of what it is about",
  "Every error and every warning about an input starts with the name of the file, the line (counted by line feeds) and the column (with tab stops every four columns) of the construct it is about, whatever precedes it in that file or in others: empty lines, comments, long lines, CR/LF, included and imported files. It then shows that line with a mark under that column. What is wrong at the end of a file is located there. An error about two places names both. (Where a byte that is not printable ASCII precedes on the line, the column is left out.)",
  ["inputs"], "all errors of a table covering the lexer, parser, argument binding, geometry and file handling, behind all short sequences of layout, at every line of files of every length up to a bound, in every kind of included or imported file",
  "Tests never look at messages; the line is found by a binary search whose result depends on the number of lines and the position.",
  [S+"syn-msg.c", S+"syn.c", S+"scad.c", S+"csg3.c", S+"xml-parse.c", S+"stl-parse.c", S+"main.c"],
  [("location of a token", S+"syn-msg.c: cp_syn_get_loc, cmp_line"), ("quoting", S+"syn-msg.c: format_source_line"), ("table of lines", S+"syn.c: read_file")],
  "bounded-exhaustive enumeration of layouts and positions of every class of error against a reference location, run on the real program",
  "Every layout of the space is run and place, quoted line, mark and second place are compared. "+TB)

p("C31", "Exhausted memory is reported and never leads to a crash or to claimed success",
  "If any request for memory fails, once or from then on, at any point of a run, the program either completes with exactly the output it gives otherwise, or ends with a message that says so and a non-zero status (in debug builds, with the designed abort). It never uses memory it did not get and never reports success with incomplete output.",
  ["fault_sequences"], "every single failure and every permanent failure of an allocation, at every allocation of runs of every format, dump, import and kind of error",
  "Tests never run out of memory.",
  ["include/hob3lbase/alloc.h", B+"alloc.c", B+"vec.c", B+"vchar.c", B+"pool.c", O+"op-sweep.c"],
  [("checked allocation", "include/hob3lbase/alloc.h: cp_malloc_loc, cp_calloc_loc"), ("growth of arrays and strings", B+"vec.c: cp_v_inflate_, "+B+"vchar.c: v_grow"), ("pool blocks", B+"pool.c")],
  "exhaustive single-fault and permanent-fault injection at every allocation of the real program",
  "Every allocation of each job is failed in both ways. "+TB)

p("C32", "The linear algebra library computes what its functions name and document",
  "Every operation on vectors and matrices (products, transposes, inverses and determinants, matrices of rotations, scalings, mirrorings and translations, transformed points, conversions between the matrix types, comparisons, boxes, interpolation, normals and angles, sines, cosines and points of circles) returns the mathematically defined result, also when result and operands share storage, keeps the stored inverse and determinant consistent with the matrix, and its return value tells whether the result exists.",
  ["inputs"], "all matrices over small integer alphabets of every matrix type, all vectors over small alphabets, all quarter degrees, all ways of sharing storage between result and operands",
  "The existing tests sample a few matrices; most of the library is generated per type, so one wrong entry in one type is only reached by enumerating the entries of every type.",
  [M+"algo.c", M+"mat_gen_ext.c", "include/hob3lmat/mat.h", "include/hob3lmat/mat_gen_inl.h", "include/hob3lmat/algo.h"],
  [("generated operations per type", M+"mat_gen_ext.c"), ("conversions and rotations", M+"algo.c"), ("inline operations", "include/hob3lmat/mat.h")],
  "bounded-exhaustive enumeration of operands against homogeneous matrices in long double arithmetic, calling the real library",
  "Small-integer alphabets distinguish every entry of every formula; floating-point error is bounded by 1e-9 relative. Mirroring and rotating about a zero axis and functions that only the library's own tests use in contradictory ways are left out. "+TB)

p("C33", "The geometry of the output scales with the model",
  "If all lengths of a model and all layer heights are multiplied by the same factor, or the model is put below a scale() of that factor, every section of the output is multiplied by that factor, up to the resolution of the grid: no body, cap, hole or layer appears, vanishes or changes its shape because of its absolute size.",
  ["inputs"], "every kind of body under every kind of transformation in every power of two of the size from a fraction of a millimetre to hundreds of metres",
  "Tests use bodies of a few millimetres; absolute tolerances show only in other sizes.",
  [S+"csg3.c", S+"csg2-layer.c", M+"algo.c", O+"gon.c", O+"op-slice.c"],
  [("exact spheres", S+"csg2-layer.c: csg2_add_sphere_layer"), ("tolerances", "include/hob3lmat/algo.h: cp_eq, cp_sqr_eq"), ("grid", "include/hob3lmat/matq.h, src/hob3l/main.c (automatic grid)")],
  "bounded-exhaustive enumeration of models and sizes, each section of the real program's output compared with that of another size",
  "Compares outlines and areas of sections across sizes; absolute correctness at one size is decided by C01 to C04. Tolerance is 60 grid units plus 2^-11 of the size. "+TB)

p("C34", "Results are right for any number of children, vertices, steps, layers and files",
  "However many children, operands, nested operators, polygon vertices and paths, polyhedron faces and corners, fragments, slices, steps, layers, imported facets, SVG shapes and commands, included files, parameters, comments, blanks, digits and characters a model has (up to the documented limits of nesting), every layer is the one the model describes: nothing is dropped, repeated or cut off when a number passes a block size or threshold.",
  ["inputs"], "every kind of repetition with every number up to a bound and around every power of two up to thousands (characters: tens of thousands)",
  "Tests use a handful of each; buffer growth, batches and block sizes show only when a number passes them.",
  [S+"syn.c", S+"scad.c", S+"csg3.c", S+"csg2-tree.c", S+"csg2-bool.c", S+"stl-parse.c", S+"svg-parse.c", S+"xml-parse.c", O+"op-sweep.c", O+"op-trianglify.c", B+"vec.c", B+"vchar.c", B+"pool.c"],
  [("lazy combination in batches", S+"csg2-bool.c: flatten_lazy"), ("growing arrays, strings and pools", B+"vec.c, "+B+"vchar.c, "+B+"pool.c"), ("layers", S+"csg2-layer.c, "+S+"main.c")],
  "bounded-exhaustive enumeration of repetition counts, run on the real program, against closed formulas for area and membership",
  "Areas to 1e-3 and points in and between the repeated elements; other counts than those enumerated are not run. "+TB)

p("C35", "The dump of the 3D model (--dump-csg3) is a program of the same solid",
  "For every model, what --dump-csg3 prints (polyhedra with coordinates in world space, unit spheres with a matrix, and the operators on them) is a SCAD program that describes the same solid as the model: sliced again, each layer covers the same region. Read for this purpose: hob3l_xor(){A B} is the exclusive or of its children (the paths of one extrusion, in any order), ! is repeated on the parts of the selected object, and the parameters center and $fn of sphere only inform. Where no exact sphere takes part, the dump of the dump has the same polyhedra, intersections and # marks.",
  ["inputs"], "every body under every transformation, every operation on every pair and triple of bodies, every modifier and colour at every place, empty operands, the families of trees, voxel models and round bodies",
  "The tests only look at whether the program ends without error.",
  [S+"csg3-2scad.c", S+"csg3.c", S+"gc.c"],
  [("dump of the tree", S+"csg3-2scad.c: cp_csg3_tree_put_scad"), ("construction of polyhedra", S+"csg3.c")],
  "bounded-exhaustive enumeration of models, differential: sections of the model against sections of its dump",
  "Sections at 2 to 5 heights per model, compared at sample points away from the outlines; for exact spheres within the difference between a polygon of the slice and the polyhedron. "+TB)

p("C36", "Polyhedra made from shapes and extrusions are closed and face outwards",
  "Every polyhedron that the program makes from cubes, cylinders, cones, spheres with $fn, linear_extrude and rotate_extrude, under any transformation including mirroring, is a closed surface: each edge of a face is shared with exactly one other face that runs through it the other way, each face has at least three different corners, no point is unused or doubled, all faces face outwards (clockwise from outside; for the paths of a shape with holes only: all the same way), and the enclosed volume is that of the shape. The dump gives each part the modifiers # and ! written before it and before what it is in, up to the object that ! selects.",
  ["inputs"], "every kind of body under every pair of transformations, every simple polygon over a small grid under every kind of extrusion on either side of the axis, every number of fragments, slices, twist and angle, every modifier at every place",
  "Slicing does not depend on the direction of faces, and the tests never look at the polyhedra; a wrong direction or an open seam shows only in other programs that read the dump, or for a rare combination of shape and parameters.",
  [S+"csg3.c", S+"csg3-2scad.c", S+"gc.c"],
  [("towers of extrusions", S+"csg3.c: faces_n_edges_from_tower"), ("rotate_extrude", S+"csg3.c: rotext_arc, poly3_push_face4"), ("mirroring", S+"csg3.c: csg3_from_* with negative determinant")],
  "bounded-exhaustive enumeration of shapes, parameters and transformations on the real program, each dumped polyhedron checked as a combinatorial surface and against a closed formula of the volume",
  "Twisted extrusions: closed and outwards, the volume is not compared. polyhedron() given by the user is only taken in its correct orientations. "+TB)

p("C37", "The viewer page shows exactly the exported model; every control does its work",
  "The page that hob3l-js-copy-aux makes for an exported model, whatever its file name, loads that model and no other. It draws exactly the triangles of the model file (for a model exported by hob3l: those of its STL file) with their normals and colours, the parts placed, scaled, turned, shown and hidden by their groups and named views as doc/jsformat.md describes. Every sequence of buttons, check boxes, entries, mouse drags and keys moves the view as labelled: the view stays a rigid motion about the centre shown, Reset and named views restore exactly their view, the size of the window never distorts the picture. A stored view comes back exactly, also after the page is loaded again, with every kind of storage that the browser offers (cookies, local storage, both); with none, nothing fails.",
  ["histories", "inputs"], "every sequence of user actions up to a bounded length under every kind of storage on scenes that use each feature of the format; every special character and pair of them in the name of the file; every pair of bodies exported and shown",
  "The page is driven by events in any order over hidden state (pressed buttons, shift, focus, stored views), which no test of the repository runs at all.",
  ["share/js-hob3l.local.html", "script/hob3l-js-copy-aux.in", S+"csg2-2js.c", "doc/jsformat.md"],
  [("controls and stored views", "share/js-hob3l.local.html: mousemove, rotZ, posMap, savePos, loadPos"), ("drawing", "share/js-hob3l.local.html: initBuffers, drawScene"), ("pages for models", "script/hob3l-js-copy-aux.in")],
  "explicit-state exploration of all sequences of user actions up to a depth: the page's own scripts run in node with stand-ins for DOM, WebGL, cookies and local storage, and after every action each draw call and control is compared with a model of the controls",
  "The stand-ins for the browser, node and the model of the controls (from labels and doc/jsformat.md) are trusted; shaders are not run. "+TB)


def main():
    with open(VERIF + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}}) + "\n")
    checks, na = [], []
    for x in P:
        if x["id"] in UNITS:
            checks.append({"property": x["id"], "quick_cmd": "python3 mc/run.py %s quick" % x["id"], "thorough_cmd": "python3 mc/run.py %s thorough" % x["id"],
                "evidence_file": "evidence/%s.json" % x["id"], "technique": x["tech"], "level": UNITS[x["id"]]["level"], "level_note": x["note"]})
        else:
            na.append({"property": x["id"], "reason": x["na"] or "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "python3 mc/run.py setup", "checks": checks, "not_applicable": na,
        "notes": "Every check copies /repo's working tree to a scratch directory, builds it there and enumerates a bounded space; see DESIGN.md. /repo has no hooks, only fix: commits."},
        open(VERIF + "/MANIFEST.json", "w"), indent=1)
main()
