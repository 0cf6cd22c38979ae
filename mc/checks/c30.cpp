// C30: every message about an input names the file, line and column of the construct it is about.
#include "../scad.hpp"
// the place is marked '@' in the text, a second one '~'
struct Doc { string file, text; size_t at = string::npos, at2 = string::npos; };
static Doc mk(const string &file, const string &t) { Doc d; d.file = file; for (char c : t) if (c == '@') d.at = d.text.size(); else if (c == '~') d.at2 = d.text.size(); else d.text += c; return d; }
// what the message must say about a place
struct Where { string head, quote; };
static Where where(const string &file, const string &t, size_t at) {
    size_t line = 1, b = 0; for (size_t i = 0; i < at; i++) if (t[i] == '\n') line++, b = i + 1;
    string q; size_t col = string::npos, x = 0; bool any = false; for (size_t i = b;; i++) {
        if (i == at) col = x; if (i >= t.size()) break; char c = t[i];
        if (c == '\t') { do q += ' ', x++; while (x % 4); } else if (c == '\n') { any = true; break; } else if (c == '\r' || (c >= 32 && c <= 126)) { q += c; x++; } else { if (!q.empty()) q += "[...binary...]"; break; } }
    Where w; w.head = mc::strf("%s:%zu:", file.c_str(), line); if (col != string::npos) w.head += mc::strf("%zu:", col + 1); w.head += " ";
    if (!q.empty() && col != string::npos) w.quote = " " + q + "\n " + string(col, ' ') + "^\n"; (void)any; return w;
}
static size_t count(const string &s, const string &p) { size_t n = 0, i = 0; while ((i = s.find(p, i)) != string::npos) n++, i += p.size(); return n; }
// the run must give this message at the place, and no other of its kind
static void judge(const Res &r, const string &kind, const string &file, const string &text, size_t at, const string &file2 = "", const string &text2 = "", size_t at2 = string::npos) {
    mc::trans(); if (kind == "Error" ? !r.rejected() : !r.ok()) { mc::fail("run:" + kind, "%s: %s", r.how().c_str(), r.err.substr(0, 300).c_str()); return; }
    Where w = where(file, text, at); mc::state(mc::hash(w.head + w.quote)); size_t p = r.err.find(w.head + kind + ": ");
    if (p == string::npos || (p && r.err[p - 1] != '\n')) { mc::fail("place:" + kind, "expected '%s%s: ', found: %s", w.head.c_str(), kind.c_str(), r.err.substr(0, 300).c_str()); return; }
    if (count(r.err, kind + ": ") != 1) { mc::fail("number:" + kind, "not one message: %s", r.err.substr(0, 300).c_str()); return; }
    size_t q = r.err.find(w.quote, p); if (!w.quote.empty() && (q == string::npos || r.err[q - 1] != '\n')) { mc::fail("quote:" + kind, "expected the line\n%sfound: %s", w.quote.c_str(), r.err.substr(0, 400).c_str()); return; }
    if (w.quote.empty() && r.err.find("^\n", p) != string::npos && at2 == string::npos) { mc::fail("mark:" + kind, "a mark without a line: %s", r.err.substr(0, 300).c_str()); return; }
    bool has2 = r.err.find("See also") != string::npos; if (has2 != (at2 != string::npos)) { mc::fail("second:" + kind, "%s second place: %s", has2 ? "surplus" : "missing", r.err.substr(0, 400).c_str()); return; }
    if (has2) { Where v = where(file2, text2, at2); string s = v.head + "Info: See also here.\n" + v.quote; size_t k = r.err.find(s, p); if (k == string::npos || r.err[k - 1] != '\n') mc::fail("second-place:" + kind, "expected '%s', found: %s", s.c_str(), r.err.substr(0, 500).c_str()); }
}
static const vector<string> strict = {"-q", "--empty=error", "--collapse=error", "--unknown-functor=error", "--unsupported-functor=error", "--unknown-param=error", "--outside-3d=error", "--outside-2d=error"};
static const vector<string> lax = {"-q", "--unknown-functor=warn", "--unsupported-functor=warn", "--unknown-param=warn"};
static Res go(vector<string> a, const string &f) { a.push_back(f); return run(a); }
// errors inside of a file
static const char *const err[] = {
    "cube(@,1);", "translate([1,2,3@;4]) cube(1);", "translate([1,2,3@) cube(1);", "cube(1);@]", "cube(1)@);", "cube(a @b);", "cube(@=1);", "cube(1@=2);", "@= cube(1);", "cube(0@x1);", "@}", "union(){cube(1);@)}", "union(){@use <foo.scad> cube(1);}", "include @\"foo.scad\"", "cube(1);@use <a>\n", "cube([@;]);", "cube([1,@=]);", "@()", "cube(1) @= 3;", "@1;", "cube(1)@ä;", "cube(size@\\=1);",
    "cube(1,2,@3,4);", "cube(size=1,@2);", "cube(size=@\"a\");", "cube(@undef);", "cube(size=@[1,2]);", "cube(size=[1,2,@\"a\"]);", "cube([1,@[2],3],center=[]);", "cylinder(h=@\"1\");", "@cylinder(r=1,d=2);", "@cylinder(1,2,3,d=2);", "sphere(r=@[1]);", "@foo();", "@foo(){cube(1);}", "@minkowski(){cube(1);}", "cube(1,foo=@2);", "color([0,0,0,@2])cube(1);", "color(@[0,0])cube(1);", "color(@\"re\")cube(1);", "import(\"@nix.stl\");", "linear_extrude(1)import(\"@nix.svg\");", "import(@1);", "include @<nix.scad>", "rotate(a=1,v=@2)cube(1);", "rotate(@\"a\")cube(1);", "@rotate(1,[0,0,0])cube(1);", "mirror(@[1,2,3,4])cube(1);", "@mirror([0,0,0])cube(1);",
    "multmatrix(@[[1,0],[0,1],[0,0],[0,0],[0,0]])cube(1);", "multmatrix([[1,@\"a\"],[0,1]])cube(1);", "@multmatrix([[1,2,3],[2,4,6],[0,0,1]])cube(1);", "scale(@\"b\")cube(1);", "@scale(0)cube(1);", "@translate()cube(1);", "polygon(@3);", "linear_extrude(1)polygon([@1,2,3]);", "linear_extrude(1)polygon([[0,0],[1,1],[1,2]],paths=@3);", "linear_extrude(1)polygon([[0,0],[1,1],[1,2]],paths=[[0,1,@2.5]]);", "linear_extrude(1)@polygon([[0,0],[1,1]]);", "linear_extrude(1)polygon([[0,0],[1,1],[1,0]],[@[0,1]]);", "linear_extrude(1)polygon([@[0,0],[1,1],~[0,0]]);", "linear_extrude(1)polygon(~[[0,0],[1,1],[1,0]],[[0,1,@3]]);",
    "polyhedron([@[0,0,0],[1,0,0],[0,1,0],~[0,0,0]],[[0,1,2],[0,1,3],[1,2,3],[0,2,3]]);", "polyhedron([@[0,0,0],\n[1,0,0],[0,1,0],\n\n~[0,0,0]],[[0,1,2],[0,1,3],[1,2,3],[0,2,3]]);", "polyhedron(~[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,1,3],[1,2,3],[0,2,@4]]);", "@polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,1,3],[1,2,3]]);", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],@[0,1],[1,2,3],[0,2,3]]);",
    "@linear_extrude(height=0)square(1);", "@linear_extrude(1,slices=0)square(1);", "linear_extrude(1)@linear_extrude(1)square(1);", "@rotate_extrude()translate([-1,0])square(2);", "rotate_extrude(angle=@\"a\")square(1);", "@projection()cube(1);", "linear_extrude(1)@projection()cube(1);", "linear_extrude(1)@projection(cut=false)cube(1);", "!~cube(1);translate([1,2,3])!@cube(2);", "!~cube(1);\nunion(){\n sphere(1);\n\t!@cube(2);}", "@hull(){cube(1);}", "@text(\"a\");", "cube($fn=@\"a\");", "@square(1);", "linear_extrude(1)@cube(1);", "@cube(0);", "@sphere(0);", "linear_extrude(1){square(1);\n@circle(0);}", "@cylinder(0);", "surface(\"@a\");",
};
// errors found when the file ends; white space and comments may follow
static const char *const eof[] = {"cube(1)", "union(){cube(1);", "cube(", "cube([1,2", "cube(size=", "!", "translate([1,2,3])", "include", "difference(){{cube(1);}"};
static const char *const open_[] = {"cube(1);@/* abc", "cube(@\"abc", "@\"", "@/*"};
static const char *const warn[] = {"cube(1,foo=@2);", "@foo();", "union(){cube(1);\n\t@foo(){cube(1);}\n}", "translate([1,2,3])@minkowski(){cube(1);}", "cube(1,foo=@\"ab\nc\");"};
static const char *const fill[] = {"\n", "\r\n", "  ", "\t", " \t", "cube(1);", "/*a*/", "/*\n*/", "//x\n", "cube([1,\n1,1]);", "/*\303\244*/", "//\303\244\n", "union(){}\t"};
static const char *const suf[] = {"", "\n", "\ncube(1);\n", "   // x\r\n\n", "cube(1);"};
static const char *const ws[] = {"", "\n", " ", "\n\n", "\n  ", "\t", "// c", "// c\n", "/* c */", "\r\n", " /*\n*/"};
static void one(const string &t, const char *kind) { if (!mc::next()) return; Doc d = mk("in.scad", t); mc::desc_s(d.text); mc::sample(d.text); spit(scr("in.scad"), d.text); judge(go(kind[0] == 'E' ? strict : lax, "in.scad"), kind, "in.scad", d.text, d.at, "in.scad", d.text, d.at2); }
template <class F> static void seqs(int n, const string &p, const F &f) { f(p); if (n) for (auto x : fill) seqs(n - 1, p + x, f); }
void mc_main() {
    int T = mc::thorough;
    mc::phase("every error behind every layout"); for (auto e : err) seqs(T ? 3 : 2, "", [&](const string &p) { for (auto s : suf) { if (!T && p.size() > 8 && s[0] && s != suf[2]) continue; one(p + e + s, "Error"); } });
    mc::phase("the end of the file"); for (auto e : eof) seqs(T ? 3 : 2, "", [&](const string &p) { for (auto s : ws) one(p + e + s + "@", "Error"); }); for (auto e : open_) seqs(T ? 3 : 2, "", [&](const string &p) { for (auto s : {"", "\n", "\n\nx", "\ncube(1);\n"}) one(p + e + s, "Error"); });
    mc::phase("warnings"); for (auto e : warn) seqs(T ? 3 : 2, "", [&](const string &p) { for (auto s : suf) one(p + e + s, "Warning"); });
    mc::phase("every line of files of every length"); int N = T ? 140 : 48; for (const char *l : {"cube(1);\n", "\n", "\r\n", "// a rather long line\n"}) for (const char *e : {"@foo();", " @foo();", "cube(1);\t@foo();", "\n@foo();"}) for (const char *nl : {"\n", ""}) for (int n = 1; n <= N; n++) for (int k = 0; k < n; k++) { string t; for (int i = 0; i < n; i++) t += i == k ? string(e) + (i == n - 1 ? nl : "\n") : string(l); one(t, "Error"); if (k % 7 == 3) one(t, "Warning"); }
    mc::phase("lines of every length"); for (int n = 0; n < (T ? 400 : 130); n++) for (char c : {' ', '\t'}) for (const char *e : {"@foo();", "cube(@[]);", "cube(1)@"}) for (const char *s : {"", "\n"}) { if (e[6] == ')' && *s) continue; one(string((size_t)n, c) + e + s, "Error"); one("cube(1);\n" + string((size_t)n, c) + e + s, "Error"); one("/*" + string((size_t)n, 'x') + "*/" + e + s, "Error"); }
    mc::phase("errors in included and imported files");
    { struct F { const char *name, *text, *how; }; static const F fs[] = {{"i.scad", "@foo();", "include <i.scad>\n"}, {"i.scad", "cube(@[]);\n", "include <i.scad>\n"}, {"i.scad", "cube(1)@", "include <i.scad>\n"}, {"i.scad", "union(){include @<nix.scad>}", "include <i.scad>\n"}, {"d/i.scad", "import(\"@nix.stl\");", "include <d/i.scad>\n"}, {"d/i.scad", "\n@}", "union(){include <d/i.scad>\n}"}, {"i.scad", "linear_extrude(1)polygon([@[0,0],[1,1],\n~[0,0]]);", "include <i.scad>\n"},
        {"w.svg", "<svg xmlns=\"http://www.w3.org/2000/svg\">\n <rect></@svg>", "linear_extrude(1)import(\"w.svg\");"}, {"d/w.svg", "<svg xmlns=\"http://www.w3.org/2000/svg\"><g><rect/>\n@", "linear_extrude(1)import(\"d/w.svg\");"}, {"v.stl", "solid\nfacet normal 0 0 @x\n", "import(\"v.stl\");"}, {"v.stl", "solid\n@faset normal 0 0 1\n", "import(\"v.stl\");"}, {"v.stl", "solid\nfacet normal 0 0 1\n outer loop\nvertex 1 2 @vertex\n", "import(\"v.stl\");"}};
      mkdir(scr("d").c_str(), 0700);
      for (auto &f : fs) for (string pre : {"", "cube(1);\n", "\n\n", "include <ok.scad>\n", "include <ok.scad>\n\tinclude <ok2.scad>\n"}) for (string inner : {"", "\n", "\n\n\n", "  ", "\t", "\r\n \n", "/*c*/", "<!-- x\n-->", " "}) for (string post : {"", "\ncube(1);\n", "@"}) for (int nest = 0; nest < 3; nest++) {
          bool stl = strstr(f.name, ".stl"), svg = strstr(f.name, ".svg"); if ((inner[0] == '/' && (stl || svg)) || (inner[0] == '<' && !svg)) continue; if (post == "@" && nest) continue;
          if (stl && inner.find_first_not_of(" \t") == string::npos && !inner.empty()) {} if (!mc::next()) continue;
          string ft = f.text; if (stl) { size_t p = ft.find("facet"); if (p == string::npos) p = ft.find("@faset"); ft.insert(p, inner); } else ft = inner + ft; Doc d = mk(f.name, ft); spit(scr(f.name), d.text); spit(scr("ok.scad"), "// fine\ncube(1);\n\nsphere(1);"); spit(scr("ok2.scad"), "");
          string m = pre + f.how + (post == "@" ? "" : post); if (nest) { spit(scr("n.scad"), m); m = nest == 1 ? "\ninclude <n.scad>\n" : "difference(){\ncube(3);include <n.scad>\n}cube(1);"; } spit(scr("in.scad"), m);
          mc::desc_s(m + "|" + d.text); mc::sample(d.text); judge(go(strict, "in.scad"), "Error", f.name, d.text, d.at, f.name, d.text, d.at2); } }
    mc::phase("two places in two files"); for (string a : {"", "\n", "\t", "cube(1);", "\n\n  "}) for (string b : {"", "\n", "\t", "cube(1);", "\n\n  "}) for (int first = 0; first < 2; first++) for (int where2 = 0; where2 < 2; where2++) { if (!mc::next()) continue;
        Doc i = mk("i.scad", b + "!@cube(1);" + a), m; // which of the two comes first decides which is reported
        if (first) m = mk("in.scad", a + "include <i.scad>\n" + b + "!@sphere(1);" + a); else m = mk("in.scad", a + "!@sphere(1);" + b + (where2 ? "translate([1,2,3]) {" : "") + "include <i.scad>\n" + (where2 ? "}" : "")); spit(scr("i.scad"), i.text); spit(scr("in.scad"), m.text); mc::desc_s(m.text + "|" + i.text); Res r = go(strict, "in.scad");
        if (first) judge(r, "Error", "in.scad", m.text, m.at, "i.scad", i.text, i.at); else judge(r, "Error", "i.scad", i.text, i.at, "in.scad", m.text, m.at); }
    mc::phase("several warnings"); for (auto p : fill) for (auto q : fill) for (auto e : warn) for (auto f : warn) { if (!mc::next()) continue; Doc d = mk("in.scad", string(p) + e + q), g = mk("in.scad", d.text + f); spit(scr("in.scad"), g.text); mc::desc_s(g.text); Res r = go(lax, "in.scad"); mc::trans(); if (!r.ok()) { mc::fail("warnings-run", "%s", r.how().c_str()); continue; }
        Where a = where("in.scad", g.text, d.at), b = where("in.scad", g.text, g.at); size_t x = r.err.find(a.head + "Warning: "), y = x == string::npos ? x : r.err.find(b.head + "Warning: ", x + (a.head == b.head)); if (y == string::npos || r.err.find(a.quote, x) > y || r.err.find(b.quote, y) == string::npos || count(r.err, "Warning: ") != 2) mc::fail("warnings", "expected '%s' and '%s', found %s", a.head.c_str(), b.head.c_str(), r.err.c_str()); mc::state(mc::hash(a.head + b.head)); }
}
