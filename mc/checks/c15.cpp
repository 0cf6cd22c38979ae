// C15: whatever the input and the options, the program ends by itself with success or a message; under
// AddressSanitizer and UndefinedBehaviorSanitizer it never leaves its memory.
#include "../scad.hpp"
static const char *OUT[] = {"o.stl", "o.stb", "o.js", "o.ps", "o.scad", "--dump-syn", "--dump-scad", "--dump-csg3", "--dump-csg2"};
static vector<string> DEF = {"-q", "--step=.5", "--min=.1", "--max=1.9"};
static void judge(const Res &r, const string &kind) {
    mc::trans(); mc::state(mc::hash(kind + "/" + first_line(r.err)));
    if (r.ok()) { if (r.err.find("runtime error:") != string::npos || r.err.find("Sanitizer") != string::npos) mc::fail(site(r) + ":" + kind, "%s", r.err.substr(0, 900).c_str()); return; }
    if (r.sig == SIGABRT && (r.err.find("numeric overflow:") != string::npos || r.err.find("Fatal Error: Out of memory") != string::npos)) { mc::count("overflow of the range of coordinates"); return; }
    if (r.sig || r.code != 1) { mc::fail(site(r) + ":" + kind, "%s: %s", r.how().c_str(), r.err.substr(0, 1500).c_str()); return; }
    if (r.err.find("Sanitizer") != string::npos || r.err.find("runtime error:") != string::npos) { mc::fail(site(r) + ":" + kind, "%s", r.err.substr(0, 1500).c_str()); return; }
    size_t e = r.err.find("Error"); if (e == string::npos || r.err.size() < e + 10) mc::fail("no message:" + kind, "exit status 1 without a message: %s", r.err.substr(0, 300).c_str());
}
static vector<string> cmd(const string &in, int o, const vector<string> &opt = DEF) { vector<string> a = opt; string k = OUT[o]; a.push_back(in); if (k[0] == '-') a.push_back(k); else { a.push_back("-o"); a.push_back(k); } return a; }
static unsigned rot;
static void scad1(const string &t, const string &kind, int o = -1) { if (!mc::next()) return; mc::desc_s(t.size() > 1200 ? t.substr(0, 600) + " ... " + t.substr(t.size() - 500) : t); mc::sample(t); spit(scr("q.scad"), t); judge(run(cmd("q.scad", o >= 0 ? o : (int)(mc::index() % 9))), kind); }
static void scad_all(const string &t, const string &kind) { for (int o = 0; o < 9; o++) scad1(t, kind, o); }
static vector<string> toks(const string &s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t b = i; unsigned char c = (unsigned char)s[i]; if (isalnum(c) || c == '_' || c == '$' || c == '.') while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '$' || s[i] == '.')) i++; else if (isspace(c)) while (i < s.size() && isspace((unsigned char)s[i])) i++; else i++; v.push_back(s.substr(b, i - b)); } return v; }
static string cat(const vector<string> &v) { string s; for (auto &x : v) s += x; return s; }
// every edit of a text: truncation, deletion, repetition, exchange and replacement of tokens; replacement of bytes
static void edits(const string &d, const vector<string> &repl, const std::function<void(const string &)> &f, int bytes, bool T) {
    f(d); for (size_t i = 0; i < d.size(); i++) f(d.substr(0, i)); auto v = toks(d);
    for (size_t i = 0; i < v.size(); i++) { if (isspace((unsigned char)v[i][0]) && !T) continue; auto w = v; w.erase(w.begin() + (long)i); f(cat(w)); w = v; w.insert(w.begin() + (long)i, v[i]); f(cat(w)); if (i + 1 < v.size()) { w = v; std::swap(w[i], w[i + 1]); f(cat(w)); } if (i + 2 < v.size()) { w = v; w.erase(w.begin() + (long)i, w.begin() + (long)i + 2); f(cat(w)); } for (auto &r : repl) if (r != v[i]) { w = v; w[i] = r; f(cat(w)); } }
    static const int B[] = {0, 1, '\t', '\n', '\r', ' ', '"', '\'', '#', '%', '&', '(', ')', '*', '-', '.', '/', '0', '9', ';', '<', '=', '>', '[', '\\', ']', 'a', 'e', '{', '}', 127, 128, 192, 224, 240, 255}; int step = T ? 1 : bytes; for (size_t i = 0; i < d.size(); i++) for (size_t k = 0; k < sizeof B / sizeof *B; k++) { if ((i + k) % (size_t)step) continue; string e = d; e[i] = (char)B[k]; f(e); }
}
static string rep(const string &s, long n) { string o; o.reserve(s.size() * (size_t)n); for (long i = 0; i < n; i++) o += s; return o; }
static const vector<string> X = {"0", "-0", "1", "-1", ".5", "2.5", "1e-320", "1e-15", "-1e-9", "1e-5", "1e4", "-1e5", "1e9", "-1e10", "1e15", "1e38", "-1e300", "1e308", "1e999", "-1e999", "4294967296", "2147483648", "99999999999999999999", ".", "-", "true", "PI", "\"x\"", "[]", "[1]", "[1,2]", "[1,2,3]", "[1,2,3,4]", "[[1]]", "[0:1:2]", "[1e308,1e-308,-1e308]", "undef"};
static void docs_scad(bool T) {
    static const char *D[] = {
        "cube([1,2,1.5],center=true);\nsphere(r=1,$fn=6);cylinder(h=2,r1=1,r2=.5,$fn=5);\n",
        "difference(){union(){cube(2);translate([1,1,0])cube(1);}\nrotate([0,90,30])cylinder(1,1,$fn=4);}\n",
        "polyhedron(points=[[0,0,0],[2,0,0],[0,2,0],[0,0,2]],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);",
        "linear_extrude(height=2,twist=90,slices=3,scale=[1,.5])difference(){square([2,1]);translate([.5,.5])circle(r=.3,$fn=5);}",
        "rotate_extrude(angle=270,$fn=6)translate([1,0])polygon([[0,0],[1,0],[0,1]],paths=[[0,1,2]]);",
        "hull(){cube(1);translate([2,0,0])sphere(1,$fn=5);}intersection(){cube(2);scale([1,2,1])mirror([1,0,0])cube([1,1,2],true);}",
        "multmatrix([[1,0,0,1],[0,1,0.5,2],[0,0,1,3],[0,0,0,1]])color(\"red\",.5)cube(1);// c\n/* d */%cube(1);*sphere(1);#cube(1);",
        "include <i.scad>\nlinear_extrude(1)projection(cut=true)cube(1);group(){import(\"t.stl\");linear_extrude(1)import(file=\"v.svg\",$fn=6);}resize([2,2,2])cube(1);",
        "linear_extrude(1){hull(){square(1);translate([2,0])circle(1);}offset(1)square(2);text(\"a\");rotate(30)square([1,2],center=true);}!render(convexity=2)cube(1);"};
    static const vector<string> R = {"", "(", ")", "{", "}", "[", "]", ",", ";", "=", ":", "<", ">", "\"", "1", "-1", "1e30", "x", "cube", "$fn", "union", "include", "use", "!", "*", "/*", "//", "\n", "undef", "true"};
    mc::phase("edits of SCAD files"); for (auto d : D) edits(d, R, [](const string &s) { scad1(s, "edit"); }, 9, T);
    mc::phase("every sequence of SCAD tokens"); static const vector<string> A = {"cube", "group", "(", ")", "{", "}", "[", "]", ",", ";", "=", "1", "\"s\"", "!", "*", "/*", "<a>", "include", "-", "x"};
    for (int n = 1; n <= 3 + T; n++) { vector<int> c((size_t)n, 0); for (;;) { string s; for (int k : c) s += A[(size_t)k]; scad1(s, "tokens", 0); int k = n - 1; while (k >= 0 && ++c[(size_t)k] == (int)A.size()) c[(size_t)k--] = 0; if (k < 0) break; } }
    mc::phase("every file of one byte or two"); for (int a = 0; a < 256; a++) { scad1(string(1, (char)a), "bytes"); for (int b = 0; b < 256; b += T ? 1 : a < 128 && b < 128 ? 7 : 37) scad1(string(1, (char)a) + (char)b, "bytes", 0); }
}
static void numbers(bool T) {
    mc::phase("every number of every functor"); static const char *D[] = {"cube(@);", "cube([@,@,@]);", "cube([1,1,1],center=@);", "sphere(@);", "sphere(r=1,$fn=@);", "sphere(d=@,$fn=@);", "sphere(r=@,$fa=@,$fs=@);", "cylinder(h=@,r=@,$fn=@);", "cylinder(h=1,r1=@,r2=@);", "cylinder(1,d1=@,d2=@,center=@);", "translate([@,@,@])cube(1);", "rotate(@)cube(1);", "rotate([@,@,@])cube(1);", "rotate(a=@,v=[@,@,@])cube(1);", "scale(@)cube(1);", "scale([@,@,@])cube(1);", "mirror([@,@,@])cube(1);", "multmatrix([[@,0,0,@],[0,1,@,0],[@,0,1,0],[0,0,0,1]])cube(1);", "multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[@,@,@,@]])cube(1);", "color(@,@)cube(1);", "color([@,@,@,@])cube(1);",
        "linear_extrude(@)square(1);", "linear_extrude(height=1,center=@,twist=@,scale=@)square(1);", "linear_extrude(height=1,scale=[@,@])square(1);", "linear_extrude(1,twist=@,$fn=@)square(1);", "rotate_extrude(@)translate([1,0])square(1);", "rotate_extrude(angle=@,$fn=@)translate([@,0])square(1);", "rotate_extrude($fn=4)polygon([[@,0],[2,@],[1,1]]);", "linear_extrude(1)square([@,@]);", "linear_extrude(1)circle(@,$fn=@);", "linear_extrude(1)polygon([[0,0],[@,0],[@,@],[0,1]]);", "linear_extrude(1)polygon([[0,0],[1,0],[1,1],[0,1]],paths=[[@,1,2,@]]);", "polyhedron([[0,0,0],[@,0,0],[0,@,0],[0,0,@]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[@,1,2],[0,3,1],[1,@,2],[2,3,0]]);", "hull(){cube(1);translate([@,@,@])cube(1);}", "linear_extrude(1)hull(){square(1);translate([@,@])square([@,1]);}", "linear_extrude(1)projection()translate([@,@,@])cube(1);", "linear_extrude(1)rotate(@)scale([@,@])square(1);", "difference(){cube(1);translate([@,0,0])rotate([0,@,0])cube([1,@,1]);}", "resize([@,@,@])cube(1);", "linear_extrude(1)offset(r=@,delta=@)square(1);", "render(convexity=@)cube(1);", "linear_extrude(1)import(\"v.svg\",dpi=@,center=@,$fn=@);", "import(@);", "import(file=\"t.stl\",layer=@,convexity=@);", "linear_extrude(1)text(@,size=@);", "group(@)cube(@);", "union(@,x=@)cube(1);", "linear_extrude(height=2,slices=@,twist=30)square(1);"};
    for (auto d0 : D) { string d = d0; vector<size_t> at; for (size_t p = 0; (p = d.find('@', p)) != string::npos; p++) at.push_back(p); auto fill = [&](const std::map<size_t,string> &m) { string s; for (size_t i = 0; i < d.size(); i++) if (d[i] == '@') { auto q = m.find(i); s += q == m.end() ? "1" : q->second; } else s += d[i]; return s; };
        bool slices = d.find("slices") != string::npos; auto okv = [&](const string &v) { return !slices || !(strtod(v.c_str(), nullptr) > 1e5); };
        for (auto p : at) for (auto &v : X) if (okv(v)) { string s = fill({{p, v}}); scad1(s, "number"); if (T) scad_all(s, "number"); }
        for (size_t a = 0; a < at.size(); a++) for (size_t b = a + 1; b < at.size(); b++) for (size_t i = 0; i < X.size(); i++) for (size_t k = 0; k < X.size(); k++) { if (i >= 24 || k >= 24) continue; if (!T && (i * 5 + k * 3 + a + b) % 11) continue; scad1(fill({{at[a], X[i]}, {at[b], X[k]}}), "numbers"); }
        if (at.size() > 1) for (auto &v : X) if (okv(v)) { std::map<size_t,string> m; for (auto p : at) m[p] = v; scad1(fill(m), "numbers"); } }
}
static void shapes(bool T) {
    mc::phase("every face of a polyhedron"); static const char *P = "polyhedron([[0,0,0],[2,0,0],[0,2,0],[0,0,2],[1,1,1]],["; auto f = [](int n, int c) { string s = "["; for (int i = 0; i < n; i++, c /= 7) s += (i ? "," : "") + std::to_string(c % 7 - 1); return s + "]"; };
    for (int n = 0; n <= 4; n++) { int m = 1; for (int i = 0; i < n; i++) m *= 7; for (int c = 0; c < m; c++) { scad1(P + f(n, c) + "]);", "faces"); if (n == 3 || c % 7 == 0) scad1(P + f(n, c) + ",[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);", "faces"); if (n == 3) scad1(P + f(n, c) + ",[0,3,1],[1,3,2],[2,3,0]]);", "faces"); } }
    // all pairs of triangles, plus their mirror images: closed but degenerate bodies
    for (int a = 0; a < 125; a++) for (int b = a; b < 125; b++) { if (!T && (a * 7 + b) % 5) continue; auto t = [](int c, bool r) { int x = c % 5, y = c / 5 % 5, z = c / 25; return r ? mc::strf("[%d,%d,%d]", z, y, x) : mc::strf("[%d,%d,%d]", x, y, z); }; scad1(P + t(a, false) + "," + t(b, false) + "," + t(a, true) + "," + t(b, true) + "]);", "faces"); }
    mc::phase("every polyhedron over few points: closed surfaces that touch or fold"); static const char *Q[] = {"[0,0,0],[1,0,0],[2,0,0],[0,2,0],[0,0,2]", "[0,0,0],[2,0,0],[0,2,0],[0,0,0],[0,0,2]", "[0,0,0],[2,0,0],[2,2,0],[0,2,0],[1,1,2]", "[0,0,0],[1,1,1],[2,2,2],[0,2,0],[2,0,0]", "[0,0,1],[1,0,1],[0,1,1],[1,1,1],[.5,.5,1]"};
    static const char *S[] = {"[0,1,2],[0,3,1],[1,3,2],[2,3,0]", "[0,1,2,3],[1,0,4],[2,1,4],[3,2,4],[0,3,4]", "[0,1,2],[2,3,0],[1,0,4],[2,1,4],[3,2,4],[0,3,4]", "[0,1,3],[0,4,1],[1,4,3],[3,4,0]", "[0,2,3],[0,4,2],[2,4,3],[3,4,0]", "[0,1,2,3],[3,2,1,0]", "[0,1,2],[0,2,1]", "[0,1,2],[0,3,1],[1,3,2],[2,3,0],[0,1,2],[0,3,1],[1,3,2],[2,3,0]", "[0,1,2],[0,3,1],[1,3,2],[2,3,0],[1,2,3],[1,4,2],[2,4,3],[3,4,1]", "[0,1,2,1,0]", "[0,1,1,2],[0,3,1],[1,3,2],[2,3,0]", "[0,1,2],[0,3,3,1],[1,3,2],[2,3,0]"};
    for (auto q : Q) for (auto s : S) for (const char *w : {"%", "rotate([90,0,0])%", "scale([1,1,0])%", "difference(){cube(2);%}", "hull()%", "linear_extrude(1)projection()%", "hull(){%cube(1);}", "mirror([1,1,1])%"}) { string b = string("polyhedron([") + q + "],[" + s + "]);", t = w; t.replace(t.find('%'), 1, b); scad1(t, "surface"); }
    mc::phase("every polygon over few points"); static const char *pt[] = {"[0,0]", "[2,0]", "[1,1]", "[0,2]", "[2,2]", "[1,0]"}; for (int n = 0; n <= 4 + T; n++) { int m = 1; for (int i = 0; i < n; i++) m *= 6; for (int c = 0; c < m; c++) { if (!T && n == 4 && c % 3) continue; string s; for (int i = 0, k = c; i < n; i++, k /= 6) s += string(i ? "," : "") + pt[k % 6]; static const char *w[] = {"linear_extrude(1)%", "linear_extrude(1)hull()%", "rotate_extrude($fn=4)%", "linear_extrude(1)difference(){square(2);%}", "rotate_extrude($fn=4,angle=90)hull()%", "linear_extrude(1,twist=90,slices=2)%"}; string t = w[(c + n) % 6]; t.replace(t.find('%'), 1, "polygon([" + s + "]);"); scad1(t, "polygon"); } }
    mc::phase("every nesting of operators without or with few children"); static const char *op[] = {"union()", "difference()", "intersection()", "hull()", "linear_extrude(1)", "rotate_extrude()", "projection()", "translate([1,0,0])", "rotate([90,0,0])", "scale([1,1,0])", "scale(0)", "mirror([0,0,0])", "color(\"red\")", "group()", "render()", "minkowski()", "offset(1)", "resize([1,1,1])", "multmatrix([[0,0,0,0],[0,0,0,0],[0,0,0,0],[0,0,0,1]])", "!", "*", "%", "#", "{}", "children()", "echo()"}; static const char *leaf[] = {";", "{}", "cube(1);", "square(1);", "{cube(1);square(1);}", "{cube(0);}", "import(\"t.stl\");", "import(\"v.svg\");", "polygon([]);", "polyhedron([],[]);", "circle(0);"};
    for (auto a : op) for (auto l : leaf) { for (const char *pol : {"", "warn", "ignore"}) { if (!mc::next()) continue; string t = string(a) + l; spit(scr("q.scad"), t); mc::desc_s(t + " " + pol); auto o = cmd("q.scad", (int)(mc::index() % 9)); if (*pol) for (const char *k : {"empty", "collapse", "outside-2d", "outside-3d", "unsupported-functor", "unknown-functor", "unknown-param"}) o.push_back(string("--") + k + "=" + pol); judge(run(o), "operator"); } for (auto b : op) { for (const char *pol : {"", "ignore"}) { if (!mc::next()) continue; string t = string(a) + b + l; spit(scr("q.scad"), t); mc::desc_s(t + " " + pol); auto o = cmd("q.scad", (int)(mc::index() % 9)); if (*pol) for (const char *k : {"empty", "collapse", "outside-2d", "outside-3d", "unsupported-functor", "unknown-functor", "unknown-param"}) o.push_back(string("--") + k + "=" + pol); judge(run(o), "operator"); } } }
}
static void sizes(bool T) {
    mc::phase("nesting and sizes"); static const struct { const char *a, *b, *c; } N[] = {{"{", "cube(1);", "}"}, {"group()", "cube(1);", ""}, {"group(){cube(1);", "", "}"}, {"union(){cube(1);", "sphere(1,$fn=4);", "}"}, {"difference(){cube(1);", "sphere(1,$fn=4);", "}"}, {"intersection(){cube(1);", "sphere(1,$fn=4);", "}"}, {"translate([0,0,0])", "cube(1);", ""}, {"rotate([90,0,0])", "cube(1);", ""}, {"color(\"red\")", "cube(1);", ""}, {"*", "cube(1);", ""}, {"#", "cube(1);", ""}, {"!", "cube(1);", ""}, {"hull()", "cube(1);", ""}, {"hull(){cube(1);", "", "}"}, {"cube(", "1", ")"}, {"", "cube(1", ");"}, {"x=[", "1", "];"}, {"linear_extrude(1)projection()", "cube(1);", ""}, {"minkowski()", "cube(1);", ""}, {"render()", "cube(1);", ""}, {"resize([1,1,1])", "cube(1);", ""}};
    auto big = [](const string &t, const string &d, int o) { if (!mc::next()) return; mc::desc_s(d); mc::sample(d); spit(scr("q.scad"), t); RUN_LIMIT = 60; judge(run(cmd("q.scad", o)), "size"); RUN_LIMIT = 25; };
    for (auto &n : N) for (long k : {10L, 100L, 1000L, 1990L, 2001L, 5000L, 20000L, 200000L, 1000000L}) for (int o : {0, 4, 5, 6, 7}) { if (o != 0 && k > 2500 && !T) continue; if (strstr(n.a, "hull") && (k > 1000 && k < 2001)) continue; string d = mc::strf("%ld times \"%s\", \"%s\", \"%s\"", k, n.a, n.b, n.c); big(rep(n.a, k) + n.b + rep(n.c, k), d, o); }
    for (long k : {10L, 100L, 1000L, 1990L, 2001L, 5000L, 100000L, 1000000L}) { big("cube(" + rep("[", k) + rep("]", k) + ");", mc::strf("%ld brackets", k), 0); big("cube(" + rep("[1,", k) + "1" + rep("]", k) + ");", mc::strf("%ld arrays", k), 5); big("cube(" + rep("[0:", k) + "1" + rep("]", k) + ");", mc::strf("%ld ranges", k), 5); big("cube(" + rep("-", k) + "1);", mc::strf("%ld minus signs", k), 0); big(rep("[", k), mc::strf("%ld open brackets", k), 0); big("polygon(" + rep("[", k) + "1", mc::strf("%ld open brackets in polygon", k), 0); big(rep("/*", k), mc::strf("%ld comments opened", k), 0); big(rep("(", k), mc::strf("%ld parentheses", k), 0); }
    for (long k : {1L, 4095L, 4096L, 4097L, 65536L, 1000000L}) { big("cube(" + rep("1", k) + ");", mc::strf("number of %ld digits", k), 0); big("cube(0." + rep("1", k) + ");", mc::strf("fraction of %ld digits", k), 0); big(rep("a", k) + "();", mc::strf("identifier of %ld characters", k), 0); big("color(\"" + rep("a", k) + "\")cube(1);", mc::strf("string of %ld characters", k), 0); big("group(" + rep("a", k) + "=1)cube(1);", mc::strf("parameter of %ld characters", k), 0); big("//" + rep("a", k) + "\ncube(1);", mc::strf("comment of %ld characters", k), 0); big("cube(1" + rep(" ", k) + "x);", mc::strf("error after %ld spaces", k), 0); big("import(\"" + rep("a", k) + ".stl\");", mc::strf("file name of %ld characters", k), 0); big("include <" + rep("a", k) + ">", mc::strf("include of %ld characters", k), 0); big("cube(1);\"" + rep("\\\\", k) + "\"", mc::strf("%ld escapes", k), 0); if (k < 70000) { big(rep("cube(1);", k < 5000 ? k : 5000), mc::strf("%ld cubes", k), 0); big("cube([" + rep("1,", k) + "1]);", mc::strf("%ld elements", k), 0); big("cube(" + rep("1,", k) + "1);", mc::strf("%ld arguments", k), 0); big("linear_extrude(1)polygon([" + rep("[1,2],", k < 5000 ? k : 5000) + "[0,0]]);", mc::strf("%ld equal points", k), 0); } big(rep("\n", k) + "x", mc::strf("error in line %ld", k), 0); big(rep(";", k), mc::strf("%ld semicolons", k), 0); big(rep("x", k), mc::strf("%ld letters", k), 0); }
    for (long k : {10L, 1000L, 4999L, 5001L, 20000L, 300000L}) for (int s = 0; s < 4; s++) { if (!mc::next()) continue; static const char *a[] = {"<g>", "<svg>", "<g transform=\"scale(1)\">", "<x>"}, *b[] = {"</g>", "</svg>", "</g>", "</x>"}; mc::desc_s(mc::strf("%ld elements %s", k, a[s])); spit(scr("n.svg"), "<svg>" + rep(a[s], k) + "<rect width=\"1\" height=\"1\"/>" + rep(b[s], k) + "</svg>"); spit(scr("q.scad"), "linear_extrude(1)import(\"n.svg\");"); RUN_LIMIT = 60; judge(run(cmd("q.scad", 0)), "size"); RUN_LIMIT = 25; }
}
static void formats(bool T) {
    auto with = [](const string &f, const string &body, const char *use, const string &kind) { if (!mc::next()) return; mc::desc_s(body.size() > 1500 ? body.substr(0, 1500) : body); mc::sample(body); spit(scr(f), body); spit(scr("q.scad"), use); judge(run(cmd("q.scad", (int)(mc::index() % 5))), kind); };
    static const char *US = "import(\"e.stl\");", *UV = "linear_extrude(1)import(\"e.svg\",$fn=6);";
    const string stl = "solid t\nfacet normal 0 0 -1\nouter loop\nvertex 0 0 0\nvertex 0 1 0\nvertex 1 0 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 0 0 1\nvertex 0 1 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 1 0 0\nvertex 0 1 0\nvertex 0 0 1\nendloop\nendfacet\nendsolid t\n";
    { mc::phase("edits of text STL"); edits(stl, {"", "solid", "facet", "vertex", "endloop", "endsolid", "0", "1", "-1", "1e300", "nan", "inf", "1e-320", "x", "\n"}, [&](const string &s) { with("e.stl", s, US, "text STL"); }, 7, T); }
    { mc::phase("every sequence of words of text STL"); static const char *w[] = {"solid", "facet", "normal 0 0 1", "outer", "loop", "vertex 0 0 1", "vertex 1 2 3", "endloop", "endfacet", "endsolid", "\n", "7"}; int W = 12; for (int n = 0; n <= 3 + T; n++) { int m = 1; for (int i = 0; i < n; i++) m *= W; for (int c = 0; c < m; c++) { string s = "solid"; for (int i = 0, k = c; i < n; i++, k /= W) s += string(" ") + w[k % W]; with("e.stl", s, US, "text STL"); } } }
    { mc::phase("every soup of facets"); static const char *p[] = {"0 0 0", "1 0 0", "0 1 0", "0 0 1", "1 0 0.0000001"}; auto fac = [&](int c) { return mc::strf("facet normal 0 0 0\nouter loop\nvertex %s\nvertex %s\nvertex %s\nendloop\nendfacet\n", p[c % 5], p[c / 5 % 5], p[c / 25]); }; for (int a = 0; a < 125; a++) { with("e.stl", "solid\n" + fac(a) + "endsolid\n", US, "soup"); for (int b = a; b < 125; b++) { if (T || (a + b) % 4 == 0) with("e.stl", "solid\n" + fac(a) + fac(b) + "endsolid\n", US, "soup"); } } for (int m = 0; m < 256; m++) { static const int t[8] = {0 + 2 * 5 + 1 * 25, 0 + 1 * 5 + 3 * 25, 0 + 3 * 5 + 2 * 25, 1 + 2 * 5 + 3 * 25, 0 + 1 * 5 + 2 * 25, 0 + 3 * 5 + 1 * 25, 4 + 2 * 5 + 3 * 25, 0 + 4 * 5 + 3 * 25}; string s = "solid\n"; for (int i = 0; i < 8; i++) if (m >> i & 1) s += fac(t[i]); with("e.stl", s + "endsolid\n", US, "soup"); } }
    { mc::phase("edits of binary STL"); string b(80, 'x'); auto u4 = [&](const void *q) { b.append((const char *)q, 4); }; unsigned n = 4; u4(&n); static const float v[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; static const int t[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}}; for (auto &q : t) { float z = 0; for (int i = 0; i < 3; i++) u4(&z); for (int k : q) for (int i = 0; i < 3; i++) u4(&v[k][i]); b += string(2, '\0'); }
      for (size_t i = 0; i <= b.size(); i++) with("e.stl", b.substr(0, i), US, "binary STL"); for (unsigned c : {0u, 1u, 3u, 5u, 8u, 0x100u, 0x51eb851eu, 0x51eb851fu, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { string e = b; memcpy(&e[80], &c, 4); with("e.stl", e, US, "binary STL"); memcpy(&e[0], "solid ", 6); with("e.stl", e, US, "binary STL"); }
      static const unsigned F[] = {0x7f800000, 0xff800000, 0x7fc00000, 0x7f7fffff, 0xff7fffff, 1, 0x80000000, 0x00800000, 0x5f000000, 0x3f800001}; for (int f = 0; f < 4; f++) for (int k = 0; k < 12; k++) for (unsigned x : F) { string e = b; memcpy(&e[(size_t)(84 + 50 * f + 4 * k)], &x, 4); with("e.stl", e, US, "binary STL"); }
      for (size_t i = 0; i < b.size(); i += T ? 1 : 3) for (int x : {0, 255, 128, 64, 115}) { string e = b; e[i] = (char)x; with("e.stl", e, US, "binary STL"); } }
    static const char *V[] = {"<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"4cm\" height=\"4\" viewBox=\"0 0 4 4\"><g transform=\"translate(1,1) rotate(30 1 1)\"><rect x=\"1\" y=\"1\" width=\"2\" height=\"2\" rx=\".2\"/></g></svg>",
        "<svg><path d=\"M0 0h2v1.5L1 3zm.5.5 c1,0 1,1 0,1 S0 2 0 1 Q1 1 1 2 T2 2 A1 .5 30 0 1 3 3 z\"/></svg>", "<svg><circle cx=\"1\" cy=\"1\" r=\"1\"/><ellipse cx=\"3\" cy=\"1\" rx=\"1\" ry=\"50%\"/><polygon points=\"0,0 1,0 1,1\"/><polyline points=\"2 2 3 2 3 3\"/><line x1=\"0\" y1=\"0\" x2=\"1\" y2=\"1\"/></svg>",
        "<svg width=\"10\" height=\"10\"><defs><rect id=\"a\" width=\"1\" height=\"1\"/></defs><g id=\"b\" transform=\"matrix(1 0 .5 1 2 3) skewX(10) skewY(5) scale(2)\"><svg x=\"1\" y=\"1\" width=\"5\" height=\"5\" viewBox=\"0 0 1 1\" preserveAspectRatio=\"xMidYMid slice\"><rect width=\"1\" height=\"1\"/></svg></g></svg>"};
    { mc::phase("edits of SVG"); for (auto v : V) edits(v, {"", "<", ">", "/", "\"", "=", "svg", "g", "rect", "1", "-1", "1e300", "1e-320", "0", "%", "M", "z", "A", "(", ")", ",", " "}, [&](const string &s) { with("e.svg", s, UV, "SVG"); }, 9, T); }
    { mc::phase("numbers in SVG"); static const char *S[] = {"<svg><rect x=\"@\" y=\"@\" width=\"@\" height=\"@\" rx=\"@\" ry=\"@\"/></svg>", "<svg><circle cx=\"@\" cy=\"@\" r=\"@\"/></svg>", "<svg><ellipse rx=\"@\" ry=\"@\"/></svg>", "<svg><path d=\"M@ @L@ @ 1 1z\"/></svg>", "<svg><path d=\"M0 0A@ @ @ 0 1 @ @z\"/></svg>", "<svg><path d=\"M0 0C@ 1 @ 2 @ 0Q@ 1 2 @z\"/></svg>", "<svg width=\"@\" height=\"@\" viewBox=\"@ @ @ @\"><rect width=\"1\" height=\"1\"/></svg>", "<svg><g transform=\"matrix(@ @ @ @ @ @)\"><rect width=\"1\" height=\"1\"/></g></svg>", "<svg><g transform=\"rotate(@ @ @) scale(@) skewX(@) translate(@)\"><rect width=\"1\" height=\"1\"/></g></svg>", "<svg><polygon points=\"@,@ @ 0 0,1\"/></svg>", "<svg><svg x=\"@\" y=\"@\" width=\"@\" height=\"@\" viewBox=\"0 0 @ @\"><rect width=\"1\" height=\"1\"/></svg></svg>"};
      static const vector<string> N = {"0", "-0", "1", "-1", "1e-320", "1e-15", "1e5", "-1e9", "1e15", "1e38", "-1e300", "1e308", "1e999", "", " ", ".", "-", "1e", "x", "1px", "1%", "1e9%", "1cm", "nan", "inf", "0x10", "1,1", "99999999999999999999", ".5.5", "--1", "1 1 1 1 1 1 1 1"};
      for (auto d0 : S) { string d = d0; vector<size_t> at; for (size_t p = 0; (p = d.find('@', p)) != string::npos; p++) at.push_back(p); auto fill = [&](const std::map<size_t,string> &m) { string s; for (size_t i = 0; i < d.size(); i++) if (d[i] == '@') { auto q = m.find(i); s += q == m.end() ? "1" : q->second; } else s += d[i]; return s; }; for (auto p : at) for (auto &v : N) with("e.svg", fill({{p, v}}), UV, "SVG number"); for (size_t a = 0; a < at.size(); a++) for (size_t b = a + 1; b < at.size(); b++) for (size_t i = 0; i < N.size(); i++) for (size_t k = 0; k < N.size(); k++) if (T || (i * 5 + k * 3 + a + b) % 23 == 0) with("e.svg", fill({{at[a], N[i]}, {at[b], N[k]}}), UV, "SVG number"); for (auto &v : N) { std::map<size_t,string> m; for (auto p : at) m[p] = v; with("e.svg", fill(m), UV, "SVG number"); } } }
    { mc::phase("every path of few commands"); static const char *c[] = {"M0 0", "m1 1", "L2 0", "l0 1", "H1", "v1", "C0 1 1 1 1 0", "s1 1 2 0", "Q1 1 2 0", "t1 0", "A1 1 0 0 0 2 0", "a1 2 30 1 1 0 0", "z", "Z", "1 1", ",", "x"}; int W = 17; for (int n = 0; n <= 3 + T; n++) { int m = 1; for (int i = 0; i < n; i++) m *= W; for (int k0 = 0; k0 < m; k0++) { string s; for (int i = 0, k = k0; i < n; i++, k /= W) s += c[k % W]; with("e.svg", "<svg><path d=\"" + s + "\"/></svg>", UV, "SVG path"); } } }
    { mc::phase("other files"); for (const char *f : {"e.stl", "e.svg", "e.dxf", "e.off", "e.png", "e", "e.STL", "e.stl.svg"}) for (const string &b : vector<string>{"", "\n", " ", string(1, '\0'), string(84, '\0'), string(83, '\0'), "solid", "solid ", "solid\n", "<", "<svg", "<svg>", "<svg/>", "<?xml?>", "\xef\xbb\xbf", "\xef\xbb\xbf<svg/>", "\xff\xfe<", "<!DOCTYPE", "<!--", "%PDF-1.4", string("PK\3\4", 4), string(1000, 'a'), string(10000, '\xff')}) for (const char *u : {"import(\"%\");", "linear_extrude(1)import(\"%\");", "include <%>", "use <%>"}) { string t = u; t.replace(t.find('%'), 1, f); with(f, b, t.c_str(), "other file"); } }
}
static void options(bool T) {
    mc::phase("every option with every value"); static const char *O[] = {"h", "q", "v", "o", "stl-bin", "stl-txt", "layer-gap", "min", "max", "step", "z", "max-fn", "opt-no-skip-empty", "opt-no-drop-collinear", "max-simultaneous", "grid", "no-auto-grid", "auto-grid", "auto-grid-max", "gran", "eps", "eps2", "empty", "collapse", "outside-3d", "outside-2d", "unsupported-functor", "unknown-functor", "unknown-param", "dump-syn", "dump-scad", "dump-csg3", "dump-csg2", "dump-ps", "dump-stl", "dump-stlb", "dump-js", "no-csg", "no-tri", "no-diff", "no-path", "js-color-rand", "js-group", "js-no-keep-ctxt", "ps-scale-fit", "ps-scale-max", "ps-no-single-page", "ps-no-tri", "ps-no-path", "ps-no-mark", "ps-no-wire", "ps-rot-x", "ps-rot-y", "ps-rot-z", "ps-scale", "ps-persp", "ps-color-path", "ps-color-tri", "ps-color-fill", "ps-color-vertex", "ps-color-mark", "ps-line-width", "none", "", "dump", "ps"};
    static const vector<string> Vv = {"", "0", "1", "-1", "2", "3", "10", ".5", "1e-9", "1e-300", "1e9", "-1e9", "1e300", "1e999", "nan", "inf", "2^3", "2^-20", "2^9999", "1/3", "1/0", "0/0", "0x1p-13", "99999999999999999999999", "4294967296", "256", "ff00ff", "zz", "true", "no", "error", "ignore", "warn", "x", "o2.stl", "a b,c;d", " 1", "1 ", "=", "==1", "-"};
    static const char *M[] = {"cube([1,2,1]);difference(){sphere(1,$fn=6);!cylinder(2,.5,$fn=5);}", "color(\"red\")cube(1);translate([3,0,0])difference(){cube(1);cube([.5,.5,2]);}", ""};
    auto heavy = [](const string &o, const string &v) { double d = strtod(v.c_str(), nullptr); return (o == "max" && d > 1e3) || (o == "min" && d < -1e3) || (o == "step" && d > 0 && d < 1e-3) || (o == "step" && (v == "2^-20" || v == "0x1p-13")); };
    for (int m = 0; m < 3; m++) spit(scr(mc::strf("m%d.scad", m)), M[m]);
    for (auto o : O) for (auto &v : Vv) for (int f = 0; f < 3; f++) for (int k = 0; k < 9; k++) { if (heavy(o, v)) continue; if (!T && (k + f * 3 + (int)(&v - &Vv[0])) % 5 && k) continue; if (!mc::next()) continue; vector<string> a = {"--step=.5", mc::strf("m%d.scad", k % 3)}; string out = OUT[k]; if (out[0] == '-') a.push_back(out); else { a.push_back("-o"); a.push_back(out); } if (f == 0) a.push_back(string("--") + o + "=" + v); else if (f == 1) { a.push_back(string("-") + o); a.push_back(v); } else a.push_back(string("----") + o); if (f == 2 && v != "") { continue; } mc::desc_s(a[a.size() - 2] + " " + a.back() + " " + out); mc::sample(cat(a)); judge(run(a), "option"); }
    mc::phase("every pair of options"); static const char *P[] = {"--no-csg", "--no-tri", "--no-diff", "--no-path=no", "--step=.1", "--step=3", "--z=.5", "--z=100", "--min=1", "--max=.3", "--max=-5", "--grid=1", "--grid=0", "--grid=2^20", "--no-auto-grid", "--auto-grid-max", "--max-fn=3", "--max-fn=0", "--max-simultaneous=2", "--layer-gap=0", "--layer-gap=5", "--layer-gap=-3", "--eps=1", "--eps2=1", "--stl-bin", "--js-color-rand=255", "--js-group=a", "--js-keep-ctxt", "--js-no-keep-ctxt=no", "--ps-scale-max", "--ps-scale-fit", "--ps-no-single-page", "--ps-no-wire", "--ps-rot-x=90", "--ps-persp=1", "--ps-scale=0", "--opt-no-skip-empty", "--opt-no-drop-collinear", "--empty=ignore", "-q", "-v"};
    int n = (int)(sizeof P / sizeof *P); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < 9; k++) { if (!T && (i * 3 + j + k) % 4) continue; if (!mc::next()) continue; vector<string> a = {mc::strf("m%d.scad", (i + j) % 3), P[i], P[j]}; string out = OUT[k]; if (out[0] == '-') a.push_back(out); else { a.push_back("-o"); a.push_back(out); } mc::desc_s(string(P[i]) + " " + P[j] + " " + out + ": " + M[(i + j) % 3]); judge(run(a), "options"); }
    mc::phase("command lines"); for (auto &a : vector<vector<string>>{{}, {""}, {"m0.scad"}, {"m0.scad", "m0.scad"}, {"-"}, {"--"}, {"-o"}, {"m0.scad", "-o"}, {"m0.scad", "-o", ""}, {"m0.scad", "-o", "o.stl", "-o", "o.js"}, {"-o", "o.stl"}, {"--dump-stl"}, {"--dump-js", "-q"}, {"m0.scad", "--step"}, {"m0.scad", "--js-group"}, {"m0.scad", "-o", "o.xyz"}, {"m0.scad", "-o", ".stl"}, {"none.scad"}, {"none.scad", "--dump-syn"}, {"m0.scad", ""}, {"", "-o", "o.stl"}, {"-h"}, {"-?"}, {"--help", "x"}, {"-q", "-q"}, {string(5000, '-')}, {string(5000, 'a')}, {"--" + string(5000, 'a') + "=1"}, {"--step=" + string(5000, '1')}, {"--js-group=" + string(5000, 'x'), "m0.scad", "-o", "o.js"}}) if (mc::next()) { string d; for (auto &x : a) d += "'" + x.substr(0, 60) + "' "; mc::desc_s(d); judge(run(a), "command line"); }
}
void mc_main() {
    bool T = mc::thorough; mc::set_hang(90); struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 64u << 20 : std::min<rlim_t>(64u << 20, rl.rlim_max); setrlimit(RLIMIT_STACK, &rl);
    spit(scr("i.scad"), "cube(1);"); spit(scr("t.stl"), "solid t\nfacet normal 0 0 -1\nouter loop\nvertex 0 0 0\nvertex 0 1 0\nvertex 1 0 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 0 0 1\nvertex 0 1 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 1 0 0\nvertex 0 1 0\nvertex 0 0 1\nendloop\nendfacet\nendsolid t\n"); spit(scr("v.svg"), "<svg><rect width=\"1\" height=\"1\"/></svg>");
#ifdef PART
    if (PART == 1) docs_scad(T); if (PART == 2) { numbers(T); shapes(T); } if (PART == 3) { formats(T); } if (PART == 4) { sizes(T); options(T); }
#endif
}
