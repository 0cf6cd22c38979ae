# What each property's check is made of.
UNITS = {}
def prop(pid, rule, units, level="model_checking", assumptions=()):
    for u in units: u.setdefault("name", pid.lower()); u.setdefault("variant", "plain")
    UNITS[pid] = dict(rule=rule, units=units, level=level, assumptions=list(assumptions))
KS = ["kshim.c"]
prop("C06", "every pair/triple of closed 3- and 4-gons over the grid x every boolean function; a case is distinct by the expected membership of all arrangement cells",
     [dict(src=["checks/c06.cpp"] + KS)])
prop("C07", "every pair/triple of closed polygons over the grid, all pixel images and families of long chains, triangulated; distinct by expected membership of all cells",
     [dict(src=["checks/c07.cpp"] + KS)])
prop("C08", "the same spaces as C07, converted to outline paths",
     [dict(src=["checks/c07.cpp"] + KS, cflags=["-DMODE=K_POLY"])])
prop("C11", "every combination of operands from boundary-value alphabets (powers of two +-2, extremes), every pair of segments between grid points; distinct by exact result",
     [dict(src=["checks/c11.cpp", "ashim.c"])])
prop("C12", "every tetrahedron on the 3x3x3 grid, prisms and pyramids over every simple polygon in every orientation, each cut at vertex levels and between; distinct by expected section",
     [dict(src=["checks/c12.cpp", "sshim.c"] + KS)])
prop("C20", "every red-black shape reachable by insertions, removals and joins up to the node bound; from each, every operation at every position, every nondecreasing key assignment over three values, every join/swap of two shapes; distinct by shape and colours",
     [dict(src=["checks/c20.cpp", "dshim.c"])])
prop("C01", "every boolean tree of the families (all two-level trees over five leaves, all chains, many operands, nested groups), sliced and compared with the set expression at points in every cell; distinct by expected membership",
     [dict(src=["checks/c01.cpp"], main=True)])
prop("C02", "every single, pair and triple of transformations of the alphabet on every body, all layers compared at grid points; exact chains compared vertex by vertex; distinct by expected membership or vertices",
     [dict(src=["checks/c02.cpp"], main=True)])
prop("C03", "every combination of the documented arguments of each primitive over small value alphabets, every polygon and pair of paths over small point sets, every order and orientation of faces; distinct by expected membership of the sampled cells",
     [dict(src=["checks/c03.cpp"], main=True)])
prop("C04", "every combination of the documented arguments of linear_extrude and rotate_extrude on every shape, every set of squares and pair of triangles under hull, every pair of bodies under projection, every two-level boolean tree of 2D shapes; distinct by expected membership of the sampled cells",
     [dict(src=["checks/c04.cpp"], main=True)])
prop("C05", "every combination of extent, step, minimum, maximum and gap of the alphabets; every boolean tree of two levels; every pair of transformations on every body; distinct by heights and expected membership",
     [dict(src=["checks/c05.cpp"], main=True)])
prop("C09", "every pixel image of 3x3 (plain, rotated, tiny), every voxel image of 2x2x2, every boolean tree of two levels, every closed polygon of four grid points, round bodies, each with option variants, as text and binary; distinct by facets",
     [dict(src=["checks/c09.cpp"], main=True)])
prop("C10", "every pixel image, voxel image, two-level boolean tree, four-point polygon and round body of the families, with option variants, written in every format and parsed back; every box of the alphabet fitted to the page; every chain of up to three transformations before a root object; distinct by file content",
     [dict(src=["checks/c10.cpp"], main=True)])
prop("C21", "every array of up to N elements in three allocation states, every operation with every position and length, and every pair of operations; every heap arrangement with every operation; every set of rings with every splice; every sequence of string and of pool operations up to the depth; distinct by abstract state",
     [dict(src=["checks/c21.cpp", "bshim.c"], variant="asan")])
prop("C22", "every table of up to 2^3 (thorough 2^4) bits and a generating set of tables of every larger size, widened by every amount; every pair of tables under every operation; every expression tree of up to 5 (6) operands; every split of up to ten operands; distinct by truth table",
     [dict(src=["checks/c22.cpp", "bshim.c"])])
prop("C23", "every sequence of three bytes followed by a byte of every class, every truncation; every code point in every buffer size; every escape over an alphabet; every hexadecimal escape value; distinct by decoded value",
     [dict(src=["checks/c23.cpp", "bshim.c"], variant="asan")])

prop("C13", "every token string up to the length bound all of whose proper prefixes are viable, every argument list and nesting in context, every word over the alphabets of numbers, strings, comments and paths, every pair of fillers in every pair of gaps; every primitive and every pair of operations with every modifier dumped and read back; distinct by syntax tree and solid",
     [dict(src=["checks/c13.cpp", "pshim.c"], name="parse"), dict(src=["checks/c13.cpp"], cflags=["-DPART2"], main=True, name="dump")])

prop("C14", "for every functor, every ordered selection of up to four parameters, every split into positional and named arguments and every combination of values; every wrong type for every parameter by name and position, surplus, misplaced and unknown arguments; distinct by bound values or message",
     [dict(src=["checks/c14.cpp", "pshim.c"], name="bind"), dict(src=["checks/c14r.cpp"], main=True, name="range")])

prop("C16", "every offending construct of every class in every position under every policy and the default, every pair of offences in paired positions under every pair of policies, every policy of another class; distinct by expected membership",
     [dict(src=["checks/c16.cpp"], main=True)])
prop("C26", "every tree of the family, every position with every modifier and combination, every pair (thorough: triple) of positions with every pair of modifiers; distinct by expected membership",
     [dict(src=["checks/c26.cpp"], main=True)])
prop("C27", "every model of the families with every value of every tuning option, memory pattern and output path; every identity of set algebra over every triple of bodies, batch sizes 2, 3 and 10; distinct by output",
     [dict(src=["checks/c27.cpp"], main=True)])
prop("C17", "every facet order and first vertex of the tetrahedron, every pair of flipped facets, transposition and rotation of every mesh, every spelling of every number, every white space in every gap, every head and tail line, every pair of transformations, every tetrahedron of a lattice; every truncation, every mutation of one token, every non-finite number; distinct by expected membership or message",
     [dict(src=["checks/c17.cpp"], main=True)])
prop("C29", "every CSS3 colour name in every single-letter case change and every near miss, every 12-bit and every single-channel 24-bit hexadecimal colour, every combination of components and alpha in every form and context, every pair of nested colours over every pair of bodies and operation; every colour at every position of every tree; distinct by resulting colours or solid",
     [dict(src=["checks/c29.cpp", "gshim.c"], name="names"), dict(src=["checks/c29.cpp"], cflags=["-DPART2"], main=True, name="solid")])
prop("C28", "every chain of up to three includes over all directories and forms of path with decoys of every name everywhere, every pair of positions with every content, every byte in a file name, every import from every directory at every depth, every kind of missing file at every place, every cycle; distinct by resulting text or solid",
     [dict(src=["checks/c28.cpp"], main=True)])
_X=["checks/c19.cpp", "xshim.c"]
prop("C19", "every sequence of up to five (thorough: six) lexical or markup tokens in each of eleven contexts, white space at every place, every byte at every place of thirty forms, pairs and triples of bytes in UTF-8, every character reference, every truncation and every single-byte and range edit of two documents; distinct by resulting tree",
     [dict(src=_X, name="reader"), dict(src=_X, name="sanitized", variant="asan", cflags=["-DSHALLOW"], tiers=["thorough"])])
prop("C18", "every sequence of up to three (thorough: a quarter of the fours) of 25 path commands in six spellings, every arc of the alphabets, every spelling of numbers, every presence and value of the attributes of shapes, every pair of shapes, every pair of transformations at every place, every viewBox, size, unit, alignment, resolution and centering, every placement of ids, every kind of element; distinct by expected area",
     [dict(src=["checks/c18.cpp"], main=True)])
prop("C25", "every call that opens, reads, writes or closes a file, in every job of every format, fails with every error once or from then on, with several buffer sizes and after every partial transfer; every limit of the size of a file; every length of short reads; pairs with a failing close; distinct by job and fault",
     [dict(src=["checks/c25.cpp"], main=True, ldflags=["-Wl,--wrap=fopen,--wrap=fopen64"])])
prop("C15", "every truncation, deletion, repetition, exchange and replacement of a token and replacements of bytes in files of every format that use every construct; every short sequence of tokens of every format; every number of every functor and attribute at every extreme, and pairs; every face and polygon over few points; every nesting of operators; depths and lengths up to a million; every option with every value and every pair of options; distinct by message",
     [dict(src=["checks/c15.cpp"], main=True, variant="asan", cflags=["-DPART=%d" % k], name=n) for k, n in ((1, "scad"), (2, "numbers"), (3, "formats"), (4, "options"))])
prop("C24", "every documented option in every spelling, position and with every value of its alphabet; every name with one change and every short name; every missing and surplus value; every word over the alphabet of each type of value up to a length; every sequence of contradicting options up to a length against a model of 'the last one wins'; every file ending with every sequence of output options; every combination of the PostScript switches; every sequence of transformations; defaults against --help",
     [dict(src=["checks/c24.cpp"], main=True, cflags=["-DPART=%d" % k], name=n) for k, n in ((1, "spelling"), (2, "values"), (3, "sequences"))])
prop("C30", "every error and warning of the table behind every sequence of layout, at every line of files of every length, at the end of the file, in every kind of included and imported file, with one or two places; distinct by place and quoted line",
     [dict(src=["checks/c30.cpp"], main=True)])
prop("C31", "every allocation of every job (all formats, dumps, imports, errors) fails, once or from then on; distinct by job and call",
     [dict(src=["checks/c31.cpp"], main=True, ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"])])
prop("C32", "every matrix of every type over small alphabets with every way of sharing storage; every operation against a long double reference; distinct by operation and operands",
     [dict(src=["checks/c32.cpp", "mshim.c"])])
prop("C33", "every body under every transformation in every size of 2^k, written directly and by scale(); distinct by section",
     [dict(src=["checks/c33.cpp"], main=True)])
prop("C34", "every kind of repetition with every number of up to 36 (thorough: 140) and around every power of two up to the limit of the kind; distinct by family, number and area",
     [dict(src=["checks/c34.cpp"], main=True)])
prop("C35", "every body under every transformation, every operation on every pair and triple of bodies, every modifier in every place, the families of models; distinct by section",
     [dict(src=["checks/c35.cpp"], main=True)])
prop("C36", "every kind of body under every pair of transformations, every simple polygon of up to four (thorough: six) corners over a 3x3 grid under every extrusion, every number of fragments, slices, twist and angle, every modifier in every place; distinct by kind, size and volume",
     [dict(src=["checks/c36.cpp"], main=True)])
prop("C37", "every sequence of up to two (thorough: three) user actions and of three (thorough: up to five) of fewer actions on scenes with and without groups, named views and motions under every kind of storage; every character and pair of special characters in the name of the model; every pair of bodies exported and shown; distinct by the state of the view",
     [dict(src=["checks/c37.cpp"], main=True)])
