// C13: the parser and the dumps.  PART 1: in process against a reference lexer and parser written from
// the grammar in doc/scadformat.md.  PART 2: dumps of models, through the program.
#ifndef PART2
#include "../mc.hpp"
#include "../pshim.h"
#include <cerrno>
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
#include <math.h>
using std::string; using std::vector;
// ---- reference lexer ---------------------------------------------------------------------------
enum { END = 0, ID = 256, INT, FLT, STR, PATH, BAD, ODD };
struct Tok { int t; string s; };
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
// ext: outside of the grammar, but accepted or rejected at will
static vector<Tok> lex(const string &s, bool &ext) {
    vector<Tok> r; size_t i = 0, n = s.size(); auto at = [&](size_t k) { return k < n ? s[k] : '\0'; };
    while (i < n) {
        char c = s[i]; if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { i++; continue; }
        if (c == '/' && at(i + 1) == '/') { while (i < n && s[i] != '\n') i++; continue; }
        if (c == '/' && at(i + 1) == '*') { size_t e = s.find("*/", i + 2); if (e == string::npos) { r.push_back({BAD, "comment"}); return r; } i = e + 2; continue; }
        size_t b = i;
        if (c == '+' || c == '-' || c == '.' || digit(c)) { bool f = false; if (c == '+' || c == '-') i++; while (digit(at(i))) i++; if (at(i) == '.') { f = true; i++; while (digit(at(i))) i++; } if (at(i) == 'e' || at(i) == 'E') { f = true; i++; if (at(i) == '+' || at(i) == '-') i++; while (digit(at(i))) i++; } r.push_back({f ? FLT : INT, s.substr(b, i - b)}); continue; }
        if (c == '$' || c == '_' || alpha(c)) { i++; while (alpha(at(i)) || digit(at(i)) || at(i) == '_') i++; r.push_back({ID, s.substr(b, i - b)}); continue; }
        if (c == '"') { i++; for (;;) { if (i >= n) { r.push_back({BAD, "string"}); return r; } if (s[i] == '"') break; if (s[i] == '\\') { i++; if (i >= n || (unsigned char)s[i] >= 128) { r.push_back({BAD, "escape"}); return r; } if (s[i] < 32 || s[i] == 127) ext = true; } if (s[i] == 0) ext = true; i++; } r.push_back({STR, s.substr(b + 1, i - b - 1)}); i++; continue; }
        if ((c < 32 && c >= 0) || c == 127 || c < 0) { r.push_back({BAD, "symbol"}); return r; }
        if (c == '<' && !r.empty() && r.back().t == ID && r.back().s == "use") { size_t e = s.find('>', i); if (e == string::npos) { r.push_back({BAD, "path"}); return r; } r.push_back({PATH, s.substr(i + 1, e - i - 1)}); i = e + 1; continue; }
        r.push_back({c, string(1, c)}); i++;
    }
    return r;
}
// ---- reference parser --------------------------------------------------------------------------
struct Parser {
    const vector<Tok> &t; size_t p = 0; bool ext = false, dead = false; string out;
    explicit Parser(const vector<Tok> &t) : t(t) {}
    int la() { return p < t.size() ? t[p].t : END; }
    bool eat(int k) { if (la() == k) { p++; return true; } return false; }
    bool need(int k) { if (eat(k)) return true; dead = true; return false; }
    bool value() {
        switch (la()) {
        case INT: { string n = t[p].s; errno = 0; long long v = strtoll(n.c_str(), nullptr, 10); if (errno != ERANGE) { p++; out += mc::strf("N%lld", v); return true; } } // fallthrough: too large for an integer
        case FLT: { string n = t[p].s; double v = strtod(n.c_str(), nullptr); if (std::isinf(v)) { dead = true; return false; } p++; out += mc::strf("F%.17g", v); return true; }
        case ID: out += "I" + t[p++].s; return true;
        case STR: out += "S\"" + t[p++].s + "\""; return true;
        case '[': { p++; if (eat(']')) { out += "A[]"; return true; } size_t at = out.size(); out += "A["; if (!value()) return false;
            if (eat(':')) { out[at] = 'R'; out += ":"; if (!value()) return false; if (eat(':')) { out += ":"; if (!value()) return false; } }
            else while (eat(',')) { if (la() == ']') { ext = true; break; } out += ","; if (!value()) return false; }
            out += "]"; return need(']'); }
        default: dead = true; return false;
        }
    }
    bool func() {
        int n = 0; unsigned m = 0; while (la() == '*' || la() == '!' || la() == '#' || la() == '%') { m |= la() == '#' ? 1 : la() == '%' ? 2 : la() == '*' ? 4 : 8; p++; n++; } if (n > 1) ext = true;
        for (int i = 0; i < 4; i++) if (m >> i & 1) out += "#%*!"[i];
        if (la() != ID) { dead = true; return false; } string f = t[p++].s; if (f == "use" || f == "include" || f == "module" || f == "function") { ext = true; } out += f + "("; if (!need('(')) return false;
        bool first = true; while (la() != ')') { if (la() == END) { dead = true; return false; } if (!first) out += ","; first = false;
            if (la() == ID && p + 1 < t.size() && t[p + 1].t == '=') { out += t[p].s + "="; p += 2; } if (!value()) return false; if (la() == ')') break; if (!need(',')) return false; if (la() == ')') ext = true; }
        if (!need(')')) return false; out += "){"; return true;
    }
    bool item() {
        if (la() == '{') { out += "{(){"; if (!block()) return false; out += "}"; return true; }
        if (!func()) return false;
        if (eat(';')) { out += "}"; return true; }
        if (la() == '{') { if (!block()) return false; out += "}"; return true; }
        if (!item()) return false; out += "}"; return true;
    }
    bool block() { if (!need('{')) return false; while (la() != '}') { if (la() == END) { dead = true; return false; } if (eat(';')) { ext = true; continue; } if (!item()) return false; } p++; return true; }
    bool file() { while (p < t.size()) { if (eat(';')) { ext = true; continue; } if (la() == ID && t[p].s == "use") { p++; if (la() != PATH) { dead = true; return false; } out += "use<" + t[p++].s + ">"; continue; } if (!item()) return false; } return true; }
};
enum Verdict { VALID, EITHER, INVALID, PREFIX };
static Verdict reference(const vector<Tok> &t, bool ext, string &tree) { for (auto &k : t) if (k.t == BAD) return ext ? EITHER : INVALID; Parser P(t); bool ok = P.file(); tree = P.out; if (!ok) return P.p >= t.size() ? PREFIX : INVALID; return P.ext || ext ? EITHER : VALID; }
static string show(const string &s) { string r; for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if ((unsigned char)c < 32 || (unsigned char)c >= 127) r += mc::strf("\\x%02x", (unsigned char)c); else r += c; return r; }
// numbers lose their type in a dump
static string norm(const string &t) { string r; bool str = false; for (size_t i = 0; i < t.size(); i++) { if (str) { r += t[i]; if (t[i] == '\\' && i + 1 < t.size()) r += t[++i]; else if (t[i] == '"') str = false; continue; } if (t[i] == '"') str = true; if ((t[i] == 'N' || t[i] == 'F') && i && strchr("(,=[:", t[i - 1])) { char *e; double d = strtod(t.c_str() + i + 1, &e); if (d == 0) d = 0; d += 0.0; r += mc::strf("#%.15g", d); i = (size_t)(e - t.c_str()) - 1; continue; } r += t[i]; } return r; }
// the sign of zero is not kept
static string zero(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '-' && s[i + 1] == '0' && !strchr(".0123456789e", s[i + 2] ? s[i + 2] : '0')) continue; r += s[i]; } return r; }
struct Out { int ok; string tree, dump; long loc; };
static Out parse(const string &s) { char *t, *d; Out o; o.ok = p_parse(s.data(), s.size(), &t, &d, &o.loc); o.tree = t; if (d) o.dump = d; free(t); free(d); mc::trace(); return o; }
static bool one(const string &s, Verdict v, const string &want) {
    Out o = parse(s); mc::trans();
    if (v == VALID && !o.ok) { mc::fail("rejected", "'%s' is valid but is rejected: %s", show(s).c_str(), o.tree.c_str()); return false; }
    if ((v == INVALID || v == PREFIX) && o.ok) { mc::fail("accepted", "'%s' is not in the grammar but is parsed as %s", show(s).c_str(), o.tree.c_str()); return false; }
    if (!o.ok) { if (o.tree.empty()) { mc::fail("no-message", "'%s' is rejected without a message", show(s).c_str()); return false; } if (o.loc < 0) { mc::fail("no-location", "'%s' is rejected without a location in the file (%ld): %s", show(s).c_str(), o.loc, o.tree.c_str()); return false; } return true; }
    if (o.tree != want) { mc::fail("tree", "'%s' is parsed as %s, expected %s", show(s).c_str(), o.tree.c_str(), want.c_str()); return false; }
    mc::state(mc::hash(want));
    Out d = parse(o.dump);
    if (!d.ok) { mc::fail("dump-syntax", "dump of '%s' is rejected: %s\n%s", show(s).c_str(), d.tree.c_str(), o.dump.c_str()); return false; }
    if (norm(d.tree) != norm(o.tree)) { mc::fail("dump-tree", "dump of '%s' is parsed as %s, the original as %s", show(s).c_str(), d.tree.c_str(), o.tree.c_str()); return false; }
    if (zero(d.dump) != zero(o.dump)) { mc::fail("dump-dump", "dump of '%s' is\n%sbut the dump of this dump is\n%s", show(s).c_str(), o.dump.c_str(), d.dump.c_str()); return false; }
    return true;
}
static bool text(const string &s) { bool ext = false; auto t = lex(s, ext); string tree; Verdict v = reference(t, ext, tree); return one(s, v, tree); }
// the parser does not release its memory: run a batch in a child
static void batch(const std::function<void()> &f) { int b[2]; if (pipe(b)) mc::harness_error("pipe"); fflush(stdout); mc::beat(); f(); close(b[0]); close(b[1]); }
struct Alpha { vector<string> w; };
static void dfs(const Alpha &A, const string &pre, const string &post, string cur, int depth, bool &ok) {
    // every extension of a viable prefix
    for (auto &w : A.w) { if (!ok) return; string s = cur + w + " ", full = s + post; bool ext = false; auto t = lex(full, ext); string tree; Verdict v = reference(t, ext, tree); ok = one(full, v, tree); if (!ok) return; mc::beat();
        bool e2 = false; string tr2; auto t2 = lex(s, e2); Verdict v2 = reference(t2, e2, tr2); if (v2 != INVALID && depth > 1) dfs(A, pre, post, s, depth - 1, ok); }
}
static void tree_of(const char *ph, const vector<string> &w, const string &pre, const string &post, int depth) {
    mc::phase(ph); Alpha A{w};
    for (auto &a : w) for (auto &b : w) for (auto &c : w) { if (!mc::next()) continue; string s = pre + a + " " + b + " " + c + " "; mc::desc_s("all continuations of: " + s); mc::sample(show(s)); bool ok = true;
        batch([&] { for (const string &q : {pre + a + " ", pre + a + " " + b + " ", s}) if (ok) ok = text(q + post);
            bool e = false; string tr; auto t = lex(s, e); if (ok && reference(t, e, tr) != INVALID) dfs(A, pre, post, s, depth - 3, ok); }); }
}
static void strings(const char *ph, const string &pre, const string &post, const vector<string> &ab, int len) {
    mc::phase(ph); size_t n = ab.size(); uint64_t lim = 1; for (int i = 0; i < len; i++) lim *= n + 1; const uint64_t B = 2000;
    for (uint64_t b = 0; b < lim; b += B) { if (!mc::next()) continue; mc::desc("%s: words %llu..", ph, (unsigned long long)b); bool ok = true;
        for (uint64_t k = b; ok && k < b + B && k < lim; k++) { string s; uint64_t x = k; bool gap = false, skip = false; for (int i = 0; i < len; i++, x /= n + 1) { size_t d = x % (n + 1); if (d == 0) gap = true; else if (gap) skip = true; else s += ab[d - 1]; } if (skip) continue; ok = text(pre + s + post); if (k == b) mc::sample(show(pre + s + post)); } }
}
void mc_main() {
    bool T = mc::thorough;
    tree_of("every token string whose proper prefixes are viable", {"a", "(", ")", "{", "}", ";", ",", "=", "[", "]", ":", "*", "!", "1", "2.5", "\"s\"", "use", "<p/q>", "x"}, "", "", T ? 9 : 8);
    tree_of("every argument list, within a call", {"a", ",", "=", "[", "]", ":", "-1", "2.5", "\"s\""}, "f(", ");", T ? 9 : 8);
    tree_of("every nesting of calls and blocks", {"a(1)", "b()", "{", "}", ";", "*", "#", "%", "!", "use<p>"}, "", "", T ? 9 : 8);
    strings("every number", "a(", ");", {"0", "1", "9", "+", "-", ".", "e", "E"}, T ? 7 : 5);
    strings("every number in an array", "a([1,", ",2]);", {"0", "1", "+", "-", ".", "e"}, T ? 6 : 5);
    strings("every string", "a(\"", "\");", {"a", "\\", "\"", "/", "*", "\n", "\xc3\xa9", "\xff", "\x01", string(1, '\0')}, T ? 6 : 5);
    strings("every comment between statements", "a(1);", "b();", {"/", "*", "a", "\n", "(", ")", ";", string(1, '\0')}, T ? 7 : 6);
    strings("every comment within a call", "a(", "1);", {"/", "*", "b", "\n", ",", "\"", "\xff"}, T ? 6 : 5);
    strings("every comment at the end", "a();", "", {"/", "*", "\n", "\r", "a", string(1, '\0'), "\xff"}, T ? 6 : 5);
    strings("every path", "use<", ">a();", {"a", "/", "\\", "\"", " ", ">", "*", "\n"}, T ? 6 : 4);
    mc::phase("number literals");
    for (const char *n : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e308", "1e309", "-1e400", "4.9e-324", "1e-400", "0.1", "017", "0x10", "1_0", "1.", ".5", "-.5", "+.5", "00012.500", "1e+3", "1E-3", "123456789.123456789", "0.30000000000000004", "2.2250738585072014e-308", "1e22", "1e23", "-0", "-0.0", "+0"}) for (const char *f : {"a(", "a(x=", "a([", "a([1,", "a([0:"}) { if (!mc::next()) continue; string s = string(f) + n + (strchr(f, '[') ? "]);" : ");"); mc::desc_s(s); mc::sample(s); text(s); }
    mc::phase("white space and comments in every pair of gaps");
    vector<vector<string>> base = {{"a", "(", ")", ";"}, {"a", "(", "x", "=", "1", ",", "[", "1", ":", "2", "]", ")", "b", "(", "\"s\"", ")", "{", "*", "c", "(", ")", ";", "}"}, {"use", "<p>", "{", "a", "(", "-1.5e3", ",", "$fn", "=", "7", ")", ";", "}"}, {"!", "a", "(", "[", "]", ",", "[", "true", ",", "[", "2", "]", "]", ")", "{", "}", "b", "(", ")", ";"}};
    vector<string> fill = {"", " ", "\t", "\n", "\r\n", "//x\n", "//\n", "/**/", "/***/", "/*/*/", "/* // */", "// /*\n", "/*\"*/", "//\"\n", "/*\n\n*/", "//\\\n", "/*\xff*/", "//*\n", string("//\0\n", 4), string("/*\0*/", 5), "/*;*/ //}\n"};
    for (auto &w : base) for (size_t i = 0; i <= w.size(); i++) for (size_t j = i + 1; j <= w.size(); j++) { if (!mc::next()) continue; mc::desc("gaps %zu and %zu", i, j); bool ok = true; string plain; for (auto &x : w) plain += x; bool ext = false; auto t = lex(plain, ext); string want; if (reference(t, ext, want) != VALID) mc::harness_error("base text '%s' is not valid", plain.c_str()); mc::sample(plain);
        for (auto &f : fill) for (auto &g : fill) { if (!ok) break; string s; for (size_t k = 0; k <= w.size(); k++) { if (k == i) s += f; if (k == j) s += g; if (k < w.size()) s += w[k]; } ok = one(s, VALID, want); } }
}
#else
#include "../models.hpp"
// the SCAD and syntax dumps of a model give the same model and reproduce themselves
static bool same(const string &a, const string &b) { return a == b; }
static bool roundtrip(const string &text, const vector<string> &args) {
    spit(scr("in.scad"), text); vector<string> a = args; a.insert(a.end(), {"in.scad", "-o", "out.stl"});
    mc::desc_s("hob3l" + jargs(a) + " on: " + text); mc::sample(text);
    Res r = run(a); string s0 = r.ok() ? slurp(scr("out.stl")) : ""; mc::state(mc::hash(s0));
    if (r.sig) { mc::fail(site(r), "%s: %s", r.how().c_str(), r.err.c_str()); return false; }
    for (const char *o : {"--dump-syn", "--dump-scad"}) {
        Res d = run({"in.scad", o}); mc::trans();
        if (!d.ok()) { if (r.ok()) { mc::fail(string(o) + "-fails", "%s %s: %s", o, d.how().c_str(), d.err.c_str()); return false; } continue; }
        spit(scr("dump.scad"), d.so); Res d2 = run({"dump.scad", o});
        if (!d2.ok()) { mc::fail(string(o) + "-syntax", "the dump is rejected: %s\n%s", d2.err.c_str(), d.so.c_str()); return false; }
        if (!same(d.so, d2.so)) { mc::fail(string(o) + "-dump", "dump:\n%s\ndump of the dump:\n%s", d.so.c_str(), d2.so.c_str()); return false; }
        vector<string> b = args; b.insert(b.end(), {"dump.scad", "-o", "out2.stl"}); Res r2 = run(b);
        if (r2.sig || r2.ok() != r.ok()) { mc::fail(string(o) + "-model", "the model gives %s, the dump %s: %s\n%s", r.how().c_str(), r2.how().c_str(), r2.err.c_str(), d.so.c_str()); return false; }
        if (r.ok() && slurp(scr("out2.stl")) != s0) { mc::fail(string(o) + "-model", "the dump denotes a different solid:\n%s", d.so.c_str()); return false; }
        if (r.ok() && text.find("color") != string::npos) { vector<string> c = args; c.insert(c.end(), {"in.scad", "-o", "out.js"}); run(c); string j = slurp(scr("out.js")); c = args; c.insert(c.end(), {"dump.scad", "-o", "out.js"}); run(c); if (j != slurp(scr("out.js"))) { mc::fail(string(o) + "-colour", "the dump has different colours:\n%s", d.so.c_str()); return false; } }
    }
    return true;
}
void mc_main() {
    bool T = mc::thorough; vector<string> args = {"--step=.7"};
    // square, circle...: 2D; the others 3D; {} takes children
    vector<string> two, three, op;
    for (const char *s : {"square()", "square(2)", "square([2,3],true)", "square(size=1.25,center=true)", "circle(2)", "circle(d=3,$fn=5)", "circle(r=1.75,$fn=9,$fa=1,$fs=.5)", "polygon([[0,0],[2,0],[1,2]])", "polygon([[0,0],[3,0],[3,3],[0,3],[1,1],[2,1],[2,2]],[[0,1,2,3],[4,5,6]])", "polygon(points=[[0,0],[2,0],[1,2]],paths=undef,convexity=3)", "text(\"abc\",size=3,tracking=.125)", "import(\"s.svg\")", "import(file=\"s.svg\",layer=\"b\",dpi=36,center=true,$fn=7)"}) two.push_back(s);
    for (const char *s : {"cube()", "cube(2)", "cube([1,2,3],true)", "cube(size=1.1,center=1)", "sphere(2)", "sphere(d=3,$fn=6)", "sphere(r=1.3,$fn=11,$fs=3)", "cylinder()", "cylinder(3,1,.5)", "cylinder(h=2,r=1,$fn=7,center=true)", "cylinder(d1=1,d2=3,h=2.25,$fn=8)", "cylinder(3,0,2,true,$fn=4)", "polyhedron([[0,0,0],[2,0,0],[0,2,0],[0,0,2]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]])", "polyhedron(points=[[0,0,0],[2,0,0],[0,2,0],[0,0,2]],triangles=[[2,1,0],[1,3,0],[2,3,1],[0,3,2]])", "import(\"t.stl\")", "import(\"t.stl\",convexity=4)", "cube(PI)", "sphere(1e0)", "cube(true)"}) three.push_back(s);
    for (const char *s : {"group()", "union()", "", "intersection()", "difference()", "translate([1,2,.25])", "translate([1,2])", "translate(v=[-1,0,3])", "rotate(30)", "rotate([10,20,30])", "rotate(a=45,v=[1,1,0])", "rotate(a=[0,0,90])", "mirror([1,0,0])", "mirror([1,2])", "scale(2)", "scale([1,2,3])", "scale([2,.5])", "multmatrix([[1,0,0,1],[0,2,0,2],[0,0,1,3],[0,0,0,1]])", "multmatrix([[1,.5,0],[0,1,0],[.25,0,1]])", "multmatrix([[1,.5],[0,1]])", "color(\"red\")", "color(\"#1a2b3c\",.3)", "color([.1,.2,.3])", "color([.123,.456,.789,.25])", "color(undef)", "color(undef,.7)", "color([1,0,0],alpha=.1)", "hull()", "projection(true)", "projection(cut=true)"}) op.push_back(s);
    spit(scr("s.svg"), "<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 90 90\"><rect x=\"10\" y=\"10\" width=\"30\" height=\"20\" id=\"a\"/><circle id=\"b\" cx=\"30\" cy=\"50\" r=\"20\"/></svg>");
    spit(scr("t.stl"), "solid x\nfacet normal 0 0 -1\nouter loop\nvertex 0 0 0\nvertex 0 2 0\nvertex 2 0 0\nendloop\nendfacet\nfacet normal 0 -1 0\nouter loop\nvertex 0 0 0\nvertex 2 0 0\nvertex 0 0 2\nendloop\nendfacet\nfacet normal 1 1 1\nouter loop\nvertex 2 0 0\nvertex 0 2 0\nvertex 0 0 2\nendloop\nendfacet\nfacet normal -1 0 0\nouter loop\nvertex 0 2 0\nvertex 0 0 0\nvertex 0 0 2\nendloop\nendfacet\nendsolid x\n");
    vector<string> ext = {"linear_extrude(2)", "linear_extrude(height=2.5,center=true,slices=3,twist=30.5,scale=[.5,2],$fn=5)", "linear_extrude(1,scale=0)", "linear_extrude(-2)", "rotate_extrude($fn=6)translate([5,0])", "rotate_extrude(angle=123.456789012,$fn=7,convexity=2)translate([5,0])"};
    vector<string> mods = {"", "#", "%", "*", "!"};
    auto wrap = [](const string &o, const string &c) { return o + "{" + c + "}"; };
    mc::phase("every primitive under every modifier");
    for (auto &m : mods) { for (auto &p : three) if (mc::next()) roundtrip("cube(.5);" + m + p + ";", args); for (auto &p : two) for (auto &e : ext) if (mc::next()) roundtrip("cube(.5);" + e + "{" + m + p + ";circle(.5);}", args); }
    mc::phase("every operation under every modifier, with none, one or two children");
    for (auto &o : op) for (auto &m : mods) for (const char *c : {"", "cube(2);", "cube(2);translate([1,1,0])sphere(2,$fn=6);", "square(2);"}) if (mc::next()) roundtrip("cube(.5);" + (o.empty() && !m.empty() ? m + "group()" : m + o) + "{" + c + "}", args);
    mc::phase("every pair of operations around a body");
    for (auto &o : op) for (auto &q : op) { if (!mc::next()) continue; roundtrip(wrap(o, wrap(q, "cube([1,2,3]);") + "translate([.5,0,0])cylinder(2,1,1,$fn=5);"), args); }
    mc::phase("every pair of operations in 2D");
    for (auto &o : op) for (auto &q : op) { if (!mc::next()) continue; roundtrip("linear_extrude(2)" + wrap(o, wrap(q, "square([1,2]);") + "translate([.5,0])circle(1,$fn=5);"), args); }
    mc::phase("families"); models_trees([&](const Model &m) { roundtrip(m.text, m.args); }, T);
    if (T) { models_round([&](const Model &m) { roundtrip(m.text, m.args); }); mc::phase("triples of operations"); for (auto &o : op) for (auto &q : op) for (auto &s : op) { if (!mc::next()) continue; roundtrip(wrap(o, wrap(q, wrap(s, "cube([1,2,3]);") + "sphere(1,$fn=5);") + "translate([.5,0,0])cylinder(2,1,1,$fn=5);"), args); } }
}
#endif
