// C24: command line options. The table below is written from --help and README.
#include "../cli.hpp"
using std::map;
static inline string jargs(const vector<string> &a) { string s; for (auto &x : a) s += " " + x; return s; }
#include <functional>
// kind: 0 no value, 'b' optional boolean, otherwise the type of the mandatory value
struct Opt { vector<string> names; char kind; vector<string> vals; const char *dflt; };
static const vector<Opt> TAB = {
    {{"h", "?", "help"}, 0, {}, nullptr}, {{"q", "quiet"}, 0, {}, nullptr}, {{"v", "verbose"}, 0, {}, nullptr}, {{"o"}, 'f', {"o.js", "x/o.stl", "o.txt"}, nullptr},
    {{"stl-bin"}, 0, {}, nullptr}, {{"stl-txt"}, 0, {}, "-"}, {{"layer-gap"}, 'd', {"-1", "0", ".05", "1/16", "2^-3", "x"}, "-1"},
    {{"min"}, 'd', {"0", ".3", "-1", ""}, nullptr}, {{"max"}, 'd', {"0", ".7", "1e1", "1,5"}, nullptr}, {{"step"}, 'p', {".2", ".35", "1/3", "0", "-1"}, "0.2"}, {{"z"}, 'd', {".5", "-3", "a"}, nullptr},
    {{"max-fn"}, 'u', {"3", "7", "100", "2", "-1"}, "100"}, {{"opt-no-skip-empty"}, 'b', {}, "0"}, {{"opt-no-drop-collinear"}, 'b', {}, "0"},
    {{"max-simultaneous"}, 's', {"2", "5", "10", "99", "1", "x"}, "10"}, {{"grid"}, 'g', {"8192", "2^5", "100", "0", "-1"}, "8192"}, {{"no-auto-grid"}, 0, {}, nullptr}, {{"auto-grid"}, 0, {}, "-"}, {{"auto-grid-max"}, 0, {}, nullptr},
    {{"gran"}, 'p', {"0x1p-13", "1/128", ".01", "0"}, "0x1p-13"}, {{"eps"}, 'E', {"0x1p-15", "1e-9", "0", "q"}, "0x1p-15"}, {{"eps2"}, 'E', {"0x1p-30", "1e-12", "-1"}, "0x1p-30"},
    {{"empty"}, 'e', {"error", "warn", "ignore", "x"}, "error"}, {{"collapse"}, 'e', {"error", "warn", "ignore", ""}, "error"}, {{"outside-3d"}, 'e', {"error", "warn", "ignore", "x"}, "error"}, {{"outside-2d"}, 'e', {"error", "warn", "ignore", "x"}, "error"},
    {{"unsupported-functor"}, 'e', {"error", "warn", "ignore", "x"}, "warn"}, {{"unknown-functor"}, 'e', {"error", "warn", "ignore", "x"}, "error"}, {{"unknown-param"}, 'e', {"error", "warn", "ignore", "x"}, "warn"},
    {{"dump-syn"}, 0, {}, nullptr}, {{"dump-scad"}, 0, {}, nullptr}, {{"dump-csg3"}, 0, {}, nullptr}, {{"dump-csg2"}, 0, {}, nullptr}, {{"dump-ps"}, 0, {}, nullptr}, {{"dump-stl"}, 0, {}, nullptr}, {{"dump-stlb"}, 0, {}, nullptr}, {{"dump-js"}, 0, {}, nullptr},
    {{"no-csg"}, 'b', {}, "0"}, {{"no-tri"}, 'b', {}, "0"}, {{"no-diff"}, 'b', {}, "0"}, {{"no-path"}, 'b', {}, "0"},
    {{"js-color-rand"}, '8', {"0", "15", "255", "256", "-1"}, "0"}, {{"js-group"}, 't', {"a", "a,b;c d", ""}, ""}, {{"js-no-keep-ctxt"}, 'b', {}, "1"},
    {{"ps-scale-fit"}, 0, {}, nullptr}, {{"ps-scale-max"}, 0, {}, nullptr}, {{"ps-no-single-page"}, 'b', {}, "1"}, {{"ps-no-tri"}, 'b', {}, "0"}, {{"ps-no-path"}, 'b', {}, "0"}, {{"ps-no-mark"}, 'b', {}, "0"}, {{"ps-no-wire"}, 0, {}, nullptr},
    {{"ps-rot-x"}, 'd', {"30", "-1.5", "0", "x"}, "0"}, {{"ps-rot-y"}, 'd', {"30", "90"}, "0"}, {{"ps-rot-z"}, 'd', {"30", "180"}, "0"}, {{"ps-scale"}, 'd', {"2", "1/3", "1"}, "1"}, {{"ps-persp"}, 'd', {"1", "-.5", "0"}, "0"},
    {{"ps-color-path"}, 'c', {"0", "ff8000", "FFFFFF", "1000000", "x"}, "000000"}, {{"ps-color-tri"}, 'c', {"123456", ""}, "009999"}, {{"ps-color-fill"}, 'c', {"123456", "-1"}, "cccccc"}, {{"ps-color-vertex"}, 'c', {"123456", "fff "}, "ff0000"}, {{"ps-color-mark"}, 'c', {"123456", "g"}, "0000ff"},
    {{"ps-line-width"}, 'd', {".4", "2", "1e"}, "0.4"},
};
// the positive form of a boolean option: no-x -> x, a-no-x -> a-x
static string positive(const string &n) { size_t p = n.compare(0, 3, "no-") ? n.find("-no-") : 0; return p == string::npos ? "" : p == 0 && !n.compare(0, 3, "no-") ? n.substr(3) : n.substr(0, p) + n.substr(p + 3); }
static std::set<string> all_names() { std::set<string> s; for (auto &o : TAB) for (auto &n : o.names) { s.insert(n); if (o.kind == 'b') s.insert(positive(n)); } return s; }

static const char *M1 = "cube([1,2,1]);difference(){sphere(1,$fn=6);!cylinder(h=1,r=.5,$fn=5,bogus=1);}\n";
static const char *M2 = "union(){translate([.123456,0,0])cube([2,1,.9]);translate([2,0,0])cube(1);difference(){sphere(1.3,$fn=7);cube(1);}intersection(){cylinder(1.2,1,.5);rotate([20,30,40])cube(2,center=true);}minkowski(){cube(1);}}\n";
static const char *M3 = "translate([-5,-5,0])cube([2,3,1]);translate([3,0,0])difference(){cube([4,4,2]);translate([1,1,-1])cube([2,2,9]);}\n";
static const char *M4 = "!translate([1,2,3])rotate([10,20,30])color([1,0,0,.5])cube([1,2,3]);sphere(2);\n";
struct Obs { string s; bool ok = false; int sig = 0; Res r; };
static const char *OUTS[] = {"o.stl", "o.stlb", "o.js", "o.scad", "o.ps", "x/o.stl", "o.txt", "o2.stl"};
static void clear() { for (auto f : OUTS) unlink(scr(f).c_str()); }
// everything that can be seen of a run; of an error message only that it is there
static Obs see(const vector<string> &a) {
    clear(); Obs o; o.r = run(a); o.ok = o.r.ok(); o.sig = o.r.sig; o.s = o.r.how() + "\n";
    if (!o.ok) { if (!o.r.sig && (o.r.code != 1 || o.r.err.find("Error") == string::npos)) { mc::fail("no-message", "%s without a message: %s", o.r.how().c_str(), o.r.err.c_str()); } return o; }
    o.s += o.r.err + "\n--\n" + o.r.so; for (auto f : OUTS) if (exists(scr(f))) o.s += string("\n--") + f + "\n" + slurp(scr(f)); return o;
}
static bool same(const char *key, const vector<string> &a, const vector<string> &b) { // b is the reference
    Obs x = see(b), y = see(a); mc::trans(); mc::state(mc::hash(y.s)); if (x.s == y.s) return true;
    size_t i = 0; while (i < x.s.size() && i < y.s.size() && x.s[i] == y.s[i]) i++; size_t j = i > 40 ? i - 40 : 0;
    mc::fail(key, "hob3l%s gives\n...%s\nbut hob3l%s gives\n...%s", jargs(a).c_str(), (y.s.substr(j, 200) + " " + (y.ok ? "" : y.r.err)).c_str(), jargs(b).c_str(), (x.s.substr(j, 200) + " " + (x.ok ? "" : x.r.err)).c_str()); return false;
}
static void models() { mkdir(scr("x").c_str(), 0700); spit(scr("in.scad"), M1); spit(scr("m1.scad"), M1); spit(scr("m2.scad"), M2); spit(scr("m3.scad"), M3); spit(scr("m4.scad"), M4); }

#if PART == 1
// every spelling of every option does what the plain spelling does
static void spellings() {
    mc::phase("spellings"); bool T = mc::thorough;
    vector<const char *> files = {"m1.scad"}; if (T) files = {"m1.scad", "m2.scad", "m3.scad", "m4.scad"};
    for (auto &o : TAB) for (auto &n : o.names) for (auto m0 : files) for (const char *out : {"-o=o.stl", "-o=o.ps", "-o=o.js", "--dump-scad"}) {
        const char *m = o.kind == 'b' && !T ? "m2.scad" : m0; if (!mc::next()) continue; mc::desc_s("--" + n + " with " + out + ", " + m); mc::sample(n);
        struct W { string c; vector<vector<string>> sp; }; vector<W> ws; string pos = o.kind == 'b' ? positive(n) : "";
        if (o.kind == 0) { W w; w.c = "--" + o.names[0]; for (auto &a : o.names) for (const char *d : {"-", "--", "---", "-----"}) w.sp.push_back({d + a}); ws.push_back(w); }
        else if (o.kind == 'b') for (int v : {1, 0}) { W w; w.c = "--" + n + (v ? "=true" : "=false");
            for (const char *d : {"-", "--", "---"}) { for (const char *x : {"true", "1", "yes"}) w.sp.push_back({d + (v ? n : pos) + "=" + x}); for (const char *x : {"false", "0", "no"}) w.sp.push_back({d + (v ? pos : n) + "=" + x}); w.sp.push_back({d + (v ? n : pos)}); } ws.push_back(w); }
        else for (auto &v : o.vals) { W w; w.c = "--" + o.names[0] + "=" + v; for (auto &a : o.names) for (const char *d : {"-", "--", "---"}) { w.sp.push_back({d + a + "=" + v}); w.sp.push_back({d + a, v}); }
            if (o.kind == 'e') { static const map<string, vector<string>> syn = {{"error", {"err", "fail"}}, {"ignore", {"ign"}}, {"warn", {"warning"}}}; auto i = syn.find(v); if (i != syn.end()) for (auto &x : i->second) w.sp.push_back({"--" + n + "=" + x}); } ws.push_back(w); }
        for (auto &w : ws) { bool isO = o.names[0] == "o"; string rest = isO && !strncmp(out, "-o", 2) ? "-q" : out; bool ok = true;
            for (auto &s : w.sp) for (int p = 0; ok && p < 3; p++) { vector<string> a; if (p == 0) { a = s; a.push_back(m); a.push_back(rest); } else if (p == 1) { a = {m}; a.insert(a.end(), s.begin(), s.end()); a.push_back(rest); } else { a = {rest, m}; a.insert(a.end(), s.begin(), s.end()); }
                vector<string> ref = p == 0 ? vector<string>{w.c, m, rest} : p == 1 ? vector<string>{m, w.c, rest} : vector<string>{rest, m, w.c}; if (o.kind == 0 && o.names[0] == "h") ref = {"--help"}; ok = same("spelling", a, ref); } if (!ok) break; }
    }
}
static bool unknown(const string &arg, const char *why) {
    spit(scr("keep.stl"), "keep"); Res r = run({arg, "m1.scad", "-o", "keep.stl"}); mc::trans();
    if (!r.rejected() || r.err.find("Error") == string::npos) { mc::fail("unknown-accepted", "'%s' (%s) is not an option but: %s %s", arg.c_str(), why, r.how().c_str(), r.err.c_str()); return false; }
    if (!r.so.empty() || slurp(scr("keep.stl")) != "keep") { mc::fail("rejected-writes", "'%s' is rejected but something was written", arg.c_str()); return false; }
    return true;
}
static void neighbours() {
    mc::phase("every name with one change"); auto N = all_names(); string ab = "abcdefghijklmnopqrstuvwxyz0123456789-_?AZ. "; bool T = mc::thorough;
    for (auto &n : N) { if (!mc::next()) continue; mc::desc_s("changes of --" + n); mc::sample(n); std::set<string> c;
        for (size_t i = 0; i <= n.size(); i++) { c.insert(n.substr(0, i)); for (char x : ab) { c.insert(n.substr(0, i) + x + n.substr(i)); if (i < n.size()) c.insert(n.substr(0, i) + x + n.substr(i + 1)); }
            if (i < n.size()) { c.insert(n.substr(0, i) + n.substr(i + 1)); c.insert(n.substr(i)); } if (i + 1 < n.size()) { string s = n; std::swap(s[i], s[i + 1]); c.insert(s); } }
        if (T) for (auto &m : N) { c.insert(n + m); c.insert(n + "-" + m); c.insert("no-" + n); c.insert(n.substr(0, n.size() / 2) + m.substr(m.size() / 2)); }
        for (auto &s : c) { string t = s; while (!t.empty() && t[0] == '-') t = t.substr(1); if (N.count(t)) continue; if (!unknown("--" + s, "changed name")) break; if (!unknown("-" + s + "=1", "changed name with a value")) break; } }
    mc::phase("every short name"); string al = "abcdefghijklmnopqrstuvwxyz?0-_"; for (char a : al) { if (!mc::next()) continue; mc::desc("names that start with %c", a); bool ok = true;
        for (char b : al + " ") for (char c : al + " ") { string s(1, a); if (b != ' ') s += b; if (c != ' ') { if (b == ' ') continue; if (!T && strchr("dfghjklnpruvwxy0_", c)) continue; s += c; } string t = s; while (!t.empty() && t[0] == '-') t = t.substr(1); if (!N.count(t) && ok) ok = unknown("-" + s, "short name"); } }
}
static void missing() {
    mc::phase("missing and surplus"); 
    for (auto &o : TAB) for (auto &n : o.names) { if (!mc::next()) continue; mc::desc_s("missing and surplus values of --" + n); bool ok = true;
        auto rej = [&](vector<string> a, const char *why) { if (!ok) return; spit(scr("keep.stl"), "keep"); Res r = run(a); mc::trans(); if (!r.rejected() || r.err.find("Error") == string::npos) { ok = false; mc::fail("not-rejected", "hob3l%s (%s): %s %s", jargs(a).c_str(), why, r.how().c_str(), r.err.c_str()); } else if (slurp(scr("keep.stl")) != "keep") { ok = false; mc::fail("rejected-writes", "hob3l%s is rejected but writes", jargs(a).c_str()); } };
        if (o.kind && o.kind != 'b') { for (const char *d : {"-", "--"}) { rej({"m1.scad", d + n}, "no value"); rej({"m1.scad", "-o", "keep.stl", d + n}, "no value"); } if (o.kind != 't' && o.kind != 'f') rej({"--" + n + "=", "m1.scad", "-o", "keep.stl"}, "empty value"); }
        else if (o.kind == 0) for (const char *v : {"", "1", "true", "false", "x"}) rej({"--" + n + "=" + v, "m1.scad", "-o", "keep.stl"}, "value of an option that has none");
        else for (const string &f : {n, positive(n)}) for (const char *v : {"", "2", "on", "off", "TRUE", "True", "y", "n", "-1", "00", "01", " true", "true ", "tru", "truee", "noo", "yes,", "null"}) rej({"--" + f + "=" + v, "m1.scad", "-o", "keep.stl"}, "malformed boolean"); }
    auto one = [&](vector<string> a, const char *w) { if (!mc::next()) return; mc::desc_s("hob3l" + jargs(a)); spit(scr("keep.stl"), "keep"); Res r = run(a); mc::trans(); if (!r.rejected() || r.err.find("Error") == string::npos) mc::fail("not-rejected", "hob3l%s (%s): %s %s", jargs(a).c_str(), w, r.how().c_str(), r.err.c_str()); else if (r.err.find("(null)") != string::npos) mc::fail("message", "%s", r.err.c_str()); else if (slurp(scr("keep.stl")) != "keep") mc::fail("rejected-writes", "hob3l%s is rejected but writes", jargs(a).c_str()); };
    one({}, "no input file"); one({"-o", "keep.stl"}, "no input file"); one({"-q"}, "no input file"); one({"m1.scad", "m2.scad", "-o", "keep.stl"}, "two files"); one({"m1.scad", "-o", "keep.stl", "m1.scad"}, "two files"); one({"-", "m1.scad", "-o", "keep.stl"}, "-"); one({"--", "m1.scad", "-o", "keep.stl"}, "--"); one({"-=", "m1.scad", "-o", "keep.stl"}, "-="); one({"m1.scad", "-o", "nodir/o.stl"}, "no directory"); one({"m1.scad", "-o", ""}, "empty name");
    for (const char *s : {"keep", "keep.txt", "keep.stl.gz", "keep.STL", "keep.stlx", "keepstl", "keep.jss", "keep.sca", "keep.", "keep.csg2", "keep.stl ", "keep.ps/"}) { if (!mc::next()) continue; mc::desc_s(string("-o ") + s); bool dir = s[strlen(s) - 1] == '/'; if (!dir) spit(scr(s), "keep"); Res r = run({"m1.scad", "-o", s}); mc::trans(); if (!r.rejected()) mc::fail("ending", "-o '%s' is not rejected", s); else if (!dir && slurp(scr(s)) != "keep") mc::fail("rejected-writes", "-o '%s' is rejected but the file is overwritten", s); }
}
static void help() {
    mc::phase("help"); if (!mc::next()) return; mc::desc("--help names exactly the options and gives their defaults"); Res r = run({"--help"}); mc::trans(); if (!r.ok() || !r.err.empty()) { mc::fail("help", "--help: %s", r.how().c_str()); return; }
    std::set<string> got; map<string, string> text; vector<string> cur; bool names = false; size_t p = 0; while (p < r.so.size()) { size_t e = r.so.find('\n', p); string l = r.so.substr(p, e - p); p = e + 1; if (!l.compare(0, 6, "    --")) { if (!names) cur.clear(); names = true; string n = l.substr(6); n = n.substr(0, n.find('=')); got.insert(n); cur.push_back(n); } else { names = false; for (auto &c : cur) text[c] += l + "\n"; if (l.compare(0, 4, "    ") && !l.empty()) cur.clear(); } }
    auto N = all_names(); for (auto &n : N) if (!got.count(n)) { mc::fail("help", "--help does not name --%s", n.c_str()); return; } for (auto &n : got) if (!N.count(n)) { mc::fail("help", "--help names --%s, which is not in the table of options", n.c_str()); return; }
    for (auto &o : TAB) { string t = text[o.names[0]]; size_t i = t.find("efault: "); if (!o.dflt || i == string::npos) continue; string d = t.substr(i + 8); d = d.substr(0, d.find_first_of(" ),\n")); if (o.kind == 'b' || o.kind == 't' || d == "use") continue; mc::trans(); if (strtod(d.c_str(), nullptr) != strtod(o.dflt, nullptr) || (o.kind == 'e' && d != o.dflt)) mc::fail("help-default", "--help gives the default of --%s as '%s', it is '%s'", o.names[0].c_str(), d.c_str(), o.dflt); }
}
// giving the documented default changes nothing
static void defaults() {
    mc::phase("defaults"); spit(scr("e1.scad"), "cube(0);"); spit(scr("e2.scad"), "scale([1,0,1])cube(1);"); spit(scr("e3.scad"), "linear_extrude(1)cube(1);"); spit(scr("e4.scad"), "square(1);cube(1);"); spit(scr("e5.scad"), "surface();cube(1);"); spit(scr("e6.scad"), "foo()cube(1);cube(2);"); spit(scr("e7.scad"), "cube(1,foo=1);"); spit(scr("e8.scad"), "sphere(1);translate([5,0,0])sphere(1,$fn=100);translate([9,0,0])sphere(1,$fn=101);translate([0,9,0])cylinder(1,1,$fn=120);");
    for (auto &o : TAB) if (o.dflt) for (const char *m : {"m1.scad", "m2.scad", "m3.scad", "m4.scad", "e1.scad", "e2.scad", "e3.scad", "e4.scad", "e5.scad", "e6.scad", "e7.scad", "e8.scad"}) for (const char *out : {"o.stl", "o.js", "o.scad", "o.ps"}) {
        if (!mc::next()) continue; string a = "--" + o.names[0]; if (strcmp(o.dflt, "-")) a += string("=") + o.dflt; if (o.names[0] == "layer-gap" && 0) continue; mc::desc_s(a + " is the default: " + m + " -o " + out); mc::sample(a); same("default", {a, m, "-o", out}, {m, "-o", out}); }
}
void mc_main() { models(); help(); missing(); defaults(); spellings(); neighbours(); }
#endif

#if PART == 2
// ---- values ------------------------------------------------------------------------------------
enum { NO, YES, EITHER };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static size_t number(const string &s, size_t p, double &v) { // length of a decimal or hexadecimal number, 0 if there is none
    size_t b = p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; bool hex = p + 2 < s.size() && s[p] == '0' && (s[p + 1] == 'x' || s[p + 1] == 'X') && (isxdigit((unsigned char)s[p + 2]) || (s[p + 2] == '.' && p + 3 < s.size() && isxdigit((unsigned char)s[p + 3]))); if (hex) p += 2;
    size_t n = 0; auto d = [&](char c) { return hex ? isxdigit((unsigned char)c) != 0 : dig(c); }; while (p < s.size() && d(s[p])) p++, n++; if (p < s.size() && s[p] == '.') { p++; while (p < s.size() && d(s[p])) p++, n++; } if (!n) return 0;
    if (p < s.size() && (hex ? s[p] == 'p' || s[p] == 'P' : s[p] == 'e' || s[p] == 'E')) { size_t q = p + 1; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++; if (q < s.size() && dig(s[q])) { while (q < s.size() && dig(s[q])) q++; p = q; } }
    v = strtod(s.substr(b, p - b).c_str(), nullptr); return p - b;
}
static int dim(const string &s, double &v) {
    if (s.find("inf") != string::npos || s.find("INF") != string::npos || s.find("nan") != string::npos) return s.find_first_of("/^") != string::npos ? EITHER : NO;
    if (s.empty()) return NO; if (s.find_first_of(" \t\n") != string::npos) { return dig(s[s.size() - 1]) || s[s.size() - 1] == '.' ? EITHER : NO; }
    double a, b; size_t n = number(s, 0, a); if (!n) return NO; if (n == s.size()) { v = a; return std::isfinite(a) ? YES : NO; } char op = s[n]; if (op != '/' && op != '^') return NO; size_t k = number(s, n + 1, b); if (!k || n + 1 + k != s.size()) return NO; v = op == '/' ? a / b : pow(a, b); return std::isfinite(v) ? YES : NO;
}
static bool zval(const string &s) { // the value is seen in the height of the only layer
    double v = 0; int w = dim(s, v); Res r = run({"--z=" + s, "c.scad"}); mc::trans(); double got = NAN; bool ok = r.ok() && sscanf(r.err.c_str(), "Info: Z: min=%lf", &got) == 1;
    if (r.sig && r.err.find("numeric overflow:") == string::npos) { mc::fail(site(r), "--z='%s': %s", s.c_str(), r.err.c_str()); return false; } if (r.sig) return true;
    if (w == YES && !ok) { mc::fail("number-rejected", "--z='%s' is not accepted: %s", s.c_str(), r.err.c_str()); return false; } if (w == NO && !r.rejected()) { mc::fail("number-accepted", "--z='%s' is accepted: %s", s.c_str(), r.err.c_str()); return false; }
    if (w == YES && !(fabs(got - v) <= 1e-5 * fabs(v))) { mc::fail("number-value", "--z='%s' gives %g, not %g", s.c_str(), got, v); return false; } if (w == YES) mc::state(mc::hash(&v, sizeof v)); return true;
}
template <class F> static void words(const char *ph, const string &ab, int len, int split, F f) {
    mc::phase(ph); std::function<bool(string, int)> rec = [&](string s, int n) { if (!f(s)) return false; if (!n) return true; for (char c : ab) if (!rec(s + c, n - 1)) return false; return true; };
    std::function<void(string, int)> top = [&](string s, int n) { if (n == 0) { if (!mc::next()) return; mc::desc("%s: all words from '%s'", ph, s.c_str()); mc::sample(s); rec(s, len - split); return; } if (mc::next()) { mc::desc("%s: '%s'", ph, s.c_str()); f(s); } for (char c : ab) top(s + c, n - 1); }; top("", split);
}
static bool accept(const string &o, const string &v, int w, std::initializer_list<const char *> more = {}) {
    vector<string> a = {"--" + o + "=" + v, "c.scad"}; for (auto m : more) a.push_back(m); Res r = run(a); mc::trans();
    if (r.sig) { mc::fail(site(r), "--%s='%s': %s", o.c_str(), v.c_str(), r.err.c_str()); return false; } if (w == YES && !r.ok()) { mc::fail("value-rejected", "--%s='%s' is not accepted: %s", o.c_str(), v.c_str(), r.err.c_str()); return false; }
    if (w == NO && (!r.rejected() || r.err.find("Error") == string::npos)) { mc::fail("value-accepted", "--%s='%s' is accepted: %s", o.c_str(), v.c_str(), r.err.c_str()); return false; } return true;
}
static int integer(const string &s, unsigned long long lo, unsigned long long hi) { size_t p = 0; int w = YES; while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++, w = EITHER; if (p < s.size() && s[p] == '+') p++, w = EITHER; if (p == s.size()) return NO; unsigned long long v = 0; for (; p < s.size(); p++) { if (!dig(s[p])) return NO; if (v > (~0ull - (unsigned)(s[p] - '0')) / 10) return NO; v = v * 10 + (unsigned)(s[p] - '0'); } return v >= lo && v <= hi ? w : NO; }
static int color(const string &s, unsigned &v) { int w = s.size() == 6 ? YES : EITHER; if (s.empty()) return NO; size_t p = 0; v = 0; if (s[0] == '+' || s[0] == ' ' || !s.compare(0, 2, "0x")) { p = s[0] == '0' ? 2 : 1; w = EITHER; if (p == s.size()) return NO; } if (s.size() > 2 && (s[0] == '+' || s[0] == ' ') && s.find_first_not_of("+ 0123456789abcdefABCDEFx") == string::npos) return s.find('x', 1) == string::npos && s.find_last_of("+ ") != s.size() - 1 && s.size() < 8 ? EITHER : 3; unsigned long long x = 0; for (; p < s.size(); p++) { if (!isxdigit((unsigned char)s[p])) return NO; x = x * 16 + (unsigned)(dig(s[p]) ? s[p] - '0' : (s[p] | 32) - 'a' + 10); if (x > 0xffffff) return NO; } v = (unsigned)x; return w; }
void mc_main() {
    models(); spit(scr("c.scad"), "linear_extrude(1)circle(1,$fn=1000);"); bool T = mc::thorough;
    words("every number", "012.-/^ex+", T ? 6 : 4, 2, zval);
    words("every quotient and power", "1230.-/^", T ? 6 : 4, 2, [](const string &s) { return zval("1" + s) && zval("2/" + s) && zval("2^" + s); });
    mc::phase("special numbers"); for (const char *s : {"inf", "-inf", "nan", "infinity", "INF", "nan(1)", "1e308", "1e309", "-1e309", "1e-400", "0x1p-13", "0x1.8p3", "0X1P4", "0x", "0x.", "0x.8", "1/0", "-1/0", "0/0", "1/inf", "inf/1", "1/nan", "2^1024", "2^-20", "2^1023", "0^-1", "0^0", "-2^2", "-2^-1", "-2^.5", "(-2)^2", "1/8192", "1/0x10", "0x10/0x8", "2^0x3", "1/2/3", "2^2^2", "1/2^2", "2^2/1", "1 /2", "1/ 2", " 1", "1 ", "1,5", "1.5.", "--1", "+-1", "1-", "1+1", "1*2", "1e", "1e+", "1e1.5", "1d0", "1f", "1l", "\xc2\xb5", "1\xc2\xa0", "0b1", "1_0", "$1", "'1'", "\"1\""}) { if (!mc::next()) continue; mc::desc("--z='%s'", s); zval(s); }
    mc::phase("every option that takes a number"); for (auto &o : TAB) if (o.kind == 'd' || o.kind == 'p' || o.kind == 'g' || o.kind == 'E') for (const char *s : {"1", "0.5", "1/8", "2^-3", "0x1p-3", "+.25", "5e-1", "0", "-1", "-0.5", "-1/4", "1/0", "1/", "/1", "^1", "2^", "x", "1x", "", "nan", "inf", "1e999", "2^9999", "1;", "-0", "0/1", "1e-300", "0x", "."}) { if (!mc::next()) continue; mc::desc("--%s='%s'", o.names[0].c_str(), s); double v = 0; int w = dim(s, v); if (w == YES && ((o.kind == 'p' && !(v > 0)) || (o.kind == 'g' && v < 0) || (o.kind == 'E' && !(v > 1e-290)))) w = NO; if ((o.kind == 'p' || o.kind == 'g') && v > 0 && v < 1e-100) continue; accept(o.names[0], s, w); }
    words("every integer", "0123-+ x", T ? 5 : 3, 1, [](const string &s) { return accept("max-simultaneous", s, integer(s, 2, ~0ull)) && accept("max-fn", s, integer(s, 3, 0xffffffffu)) && accept("js-color-rand", s, integer(s, 0, 255)); });
    mc::phase("integers at the limits"); for (const char *s : {"0", "1", "2", "3", "255", "256", "257", "512", "65536", "65791", "4294967295", "4294967296", "4294967299", "4294967551", "8589934597", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999", "-1", "-2", "-18446744073709551615", "-18446744073709551606", "1e1", "1.5", "10.", "0x10", "010", "1/1", "2^3", ""}) for (const char *o : {"max-simultaneous", "max-fn", "js-color-rand"}) { if (!mc::next()) continue; mc::desc("--%s='%s'", o, s); if (!strcmp(o, "max-fn") && strlen(s) > 6 && integer(s, 3, 0xffffffffu) == YES) { spit(scr("c.scad"), "cube(1);"); accept(o, s, YES); spit(scr("c.scad"), "linear_extrude(1)circle(1,$fn=1000);"); continue; } accept(o, s, !strcmp(o, "js-color-rand") ? integer(s, 0, 255) : !strcmp(o, "max-fn") ? integer(s, 3, 0xffffffffu) : integer(s, 2, ~0ull)); }
    mc::phase("value of --max-fn"); for (int n = 3; n < (T ? 400 : 130); n++) { if (!mc::next()) continue; mc::desc("--max-fn=%d", n); mc::sample(std::to_string(n)); Res r = run({mc::strf("--max-fn=%d", n), "c.scad", "-o", "o.stl"}); mc::trans(); Stl s = stl_text(slurp(scr("o.stl"))); if (!r.ok() || !s.ok || s.f.size() != (size_t)(5 * (2 * n + 2 * (n - 2)))) mc::fail("max-fn", "%zu facets for a circle of %d corners in 5 layers", s.f.size(), n); }
    words("every color", "01fAg-+x ", T ? 7 : 4, 2, [T](const string &s) { unsigned v = 0; int w = color(s, v); if (w == 3) return true; if (!accept("ps-color-path", s, w)) return false; return true; });
    mc::phase("value of a color"); for (unsigned k = 0; k < 256; k++) for (int c = 0; c < 3; c++) { if (!mc::next()) continue; static const char *on[] = {"tri", "fill", "vertex"}; for (int j = 0; j < 3; j++) { unsigned v = (k << (8 * c)) | (0x10203u & ~(255u << (8 * c))); mc::desc("--ps-color-%s=%06x", on[j], v); Res r = run({mc::strf("--ps-color-%s=%06x", on[j], v), "m3.scad", "--step=2", "-o", "o.ps"}); mc::trans(); string t = slurp(scr("o.ps")), w = mc::strf("%g %g %g setrgbcolor", ((v >> 16) & 255) / 255., ((v >> 8) & 255) / 255., (v & 255) / 255.); if (!r.ok() || t.find(w) == string::npos) { mc::fail("color", "%s is not in the output", w.c_str()); break; } } }
    static const vector<string> BW = {"true", "1", "yes", "false", "0", "no"};
    mc::phase("every boolean"); { std::set<string> ws = {""}; for (auto &b : BW) for (size_t i = 0; i <= b.size(); i++) for (char x = 32; x < 127; x++) { ws.insert(b.substr(0, i) + x + b.substr(i)); if (i < b.size()) { ws.insert(b.substr(0, i) + x + b.substr(i + 1)); ws.insert(b.substr(0, i) + b.substr(i + 1)); ws.insert(b.substr(0, i)); } }
        for (auto &w : ws) { if (!mc::next()) continue; mc::desc_s("--ps-no-path=" + w); accept("ps-no-path", w, std::find(BW.begin(), BW.end(), w) != BW.end() ? YES : NO); } }
    static const vector<string> EW = {"error", "err", "fail", "warn", "warning", "ignore", "ign"};
    mc::phase("every policy"); { std::set<string> ws = {""}; for (auto &b : EW) for (size_t i = 0; i <= b.size(); i++) for (char x = 32; x < 127; x += T ? 1 : 3) { ws.insert(b.substr(0, i) + x + b.substr(i)); if (i < b.size()) { ws.insert(b.substr(0, i) + x + b.substr(i + 1)); ws.insert(b.substr(0, i) + b.substr(i + 1)); ws.insert(b.substr(0, i)); } }
        for (auto &o : TAB) if (o.kind == 'e') for (auto &w : ws) { if (!mc::next()) continue; mc::desc_s("--" + o.names[0] + "=" + w); if (!accept(o.names[0], w, std::find(EW.begin(), EW.end(), w) != EW.end() ? YES : NO)) break; } }
}
#endif

#if PART == 3
// ---- sequences of options: the last one wins -----------------------------------------------------
typedef vector<string> V;
static void sequences(const char *ph, const V &opts, int len, const std::function<void(const V &)> &f) {
    mc::phase(ph); std::function<void(V, int)> rec = [&](V s, int n) { if (!s.empty() && mc::next()) { mc::desc_s(jargs(s)); mc::sample(jargs(s)); f(s); } if (!n) return; for (auto &o : opts) { V t = s; t.push_back(o); rec(t, n - 1); } }; rec({}, len);
}
static double val(const string &s) { string v = s.substr(s.find('=') + 1); size_t p = v.find_first_of("/^"); double a = strtod(v.c_str(), nullptr); if (p == string::npos) return a; double b = strtod(v.c_str() + p + 1, nullptr); return v[p] == '/' ? a / b : pow(a, b); }
static string key(const string &s) { return s.substr(0, s.find('=')); }
static V cat(V a, const V &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool info(const Res &r, double &mn, double &st, unsigned long &cnt, string &grid) { char g[100]; double mx; size_t p = r.err.find("Info: Z:"); if (p == string::npos || sscanf(r.err.c_str() + p, "Info: Z: min=%lf, step=%lf, layer_cnt=%lu, max=%lf, grid=%99s", &mn, &st, &cnt, &mx, g) != 5) return false; grid = g; return true; }
static void heights(const V &s) {
    double mn = NAN, mx = NAN, st = .2; for (auto &o : s) { if (key(o) == "--min") mn = val(o); if (key(o) == "--max") mx = val(o); if (key(o) == "--z") mn = mx = val(o); if (key(o) == "--step") st = val(o); }
    if (std::isnan(mn)) mn = 0 + st / 2; if (std::isnan(mx)) mx = 1; V c = {mc::strf("--min=%.17g", mn), mc::strf("--max=%.17g", mx), mc::strf("--step=%.17g", st), "s.scad", "-o", "o.stl"}; if (!same("last-wins", cat(s, {"s.scad", "-o", "o.stl"}), c)) return;
    Res r = run(c); double a, b; unsigned long n; string g; double q = (mx - mn) / st; unsigned long e = q < -1e-9 ? 1 : fabs(q) < 1e-9 ? 1 : (unsigned long)ceil(q - 1e-9); if (!info(r, a, b, n, g) || fabs(a - mn) > 1e-5 || fabs(b - st) > 1e-5 || n != e) mc::fail("heights", "min %g step %g max %g: %s", mn, st, mx, r.err.c_str());
}
static void grids(const V &s, double size) { // size: largest coordinate of the model
    double g = 8192; int au = 1; for (auto &o : s) { if (key(o) == "--grid") g = val(o); if (key(o) == "--gran") g = 1 / val(o); if (o == "--auto-grid") au = 1; if (o == "--no-auto-grid") au = 0; if (o == "--auto-grid-max") au = 2; }
    int e; frexp(size, &e); int e2; frexp(std::max(size, 1.), &e2); double lim = std::min(pow(2, (au == 2 ? 30 : 24) - e), pow(2, 30 - e2)), want = g; if (au && (g == 0 || g > lim)) want = lim; /* the model is 1 high */ if (g == 0 && !au) want = 8192; // by the documentation of --grid and --auto-grid
    spit(scr("g.scad"), mc::strf("cube([%.17g,%.17g,1]);", size, size / 3)); V a = cat(s, {"g.scad", "--step=1", "-o", "o.stl"}); Res r = run(a); mc::trans(); double x, y; unsigned long n; string gs; if (r.sig && r.err.find("numeric overflow:") != string::npos) { if (size * want < 1.9e9) mc::fail("overflow", "size %g grid %g overflows", size, want); return; }
    if (!r.ok() || !info(r, x, y, n, gs)) { mc::fail("grid-run", "%s: %s", r.how().c_str(), r.err.c_str()); return; } double p = gs.compare(0, 2, "2^") ? strtod(gs.c_str(), nullptr) : pow(2, atof(gs.c_str() + 2));
    if (fabs(p - want) > 1e-5 * want) { mc::fail("grid", "size %g: grid is %s, expected %.9g", size, gs.c_str(), want); return; }
    Stl t = stl_text(slurp(scr("o.stl"))); if (!t.ok || t.f.empty()) { mc::fail("grid-stl", "%s", t.why.c_str()); return; } double ex[2] = {size, size / 3}; mc::state(mc::hash(&p, sizeof p));
    for (auto &f : t.f) for (auto &v : f.v) for (int k = 0; k < 2; k++) { double w = fabs(v[k]) < ex[k] / 2 ? 0 : round(ex[k] * want) / want; if (fabs(v[k] - w) > 1e-12 * size + (fabs(ex[k] * want - floor(ex[k] * want) - .5) < 1e-6 ? 1 / want : 0)) { mc::fail("grid-round", "size %g grid %.9g: coordinate %.17g, expected %.17g", size, want, v[k], w); return; } }
}
static string kind(const string &s) { if (s.empty()) return "none"; if (!s.compare(0, 12, "solid model\n")) return "stl"; if (!s.compare(0, 15, "%!PS-Adobe-3.0\n")) return "ps"; if (s.find("scene.push") != string::npos || s.find("scene") != string::npos) return "js"; if (s.size() > 84 && s.size() == 84 + 50 * (size_t)((unsigned char)s[80] | (unsigned char)s[81] << 8 | (unsigned char)s[82] << 16)) return "stlb"; for (const char *o : {"dump-syn", "dump-scad", "dump-csg3", "dump-csg2"}) { Res r = run({string("--") + o, "m3.scad"}); if (r.so == s) return o; } return "?"; }
static void formats(const V &s, const string &file) {
    string d; bool bin = false; for (auto &o : s) { if (!o.compare(0, 7, "--dump-")) d = o.substr(2); else if (o == "--stl-bin") bin = true; else if (o == "--stl-txt") bin = false; }
    auto end = [&](const char *e) { size_t n = strlen(e); return file.size() >= n && !file.compare(file.size() - n, n, e); };
    string w; bool rej = false; if (!d.empty()) w = d == "dump-stl" ? "stl" : d == "dump-stlb" ? "stlb" : d == "dump-js" ? "js" : d == "dump-ps" ? "ps" : d; else if (file.empty()) w = "none"; else if (end(".stl")) w = bin ? "stlb" : "stl"; else if (end(".stb") || end(".stlb")) w = "stlb"; else if (end(".js")) w = "js"; else if (end(".scad") || end(".csg")) w = "dump-csg2"; else if (end(".ps")) w = "ps"; else rej = true;
    if (!file.empty()) unlink(scr(file).c_str()); V a = cat(s, {"m3.scad"}); if (!file.empty()) a = cat(a, {"-o", file}); Res r = run(a); mc::trans(); if (rej) { if (!r.rejected() || exists(scr(file))) mc::fail("format-accepted", "hob3l%s: %s", jargs(a).c_str(), r.how().c_str()); return; }
    if (!r.ok()) { mc::fail("format-run", "hob3l%s: %s %s", jargs(a).c_str(), r.how().c_str(), r.err.c_str()); return; } string c = file.empty() ? r.so : slurp(scr(file)), got = kind(c); if (got != w) { mc::fail("format", "hob3l%s writes %s, not %s", jargs(a).c_str(), got.c_str(), w.c_str()); return; } if (!file.empty() && !r.so.empty()) mc::fail("format-stdout", "hob3l%s also prints", jargs(a).c_str()); if (!file.empty()) unlink(scr(file).c_str());
}
// ---- PostScript ------------------------------------------------------------------------------------
struct Ln { char k; double z; V pre; string text; vector<double> xy; string rest; }; // kind of drawing, height of its layer
struct Ps { string head; vector<Ln> l; int pages = 0; };
static bool ps(const string &s, Ps &o) {
    size_t p = 0; double z = NAN; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) return false; string l = s.substr(p, e - p); p = e + 1; const char *c = l.c_str(); double q; if (sscanf(c, "10 10 moveto (z=%lf", &q) == 1) { z = q; continue; } if (!l.compare(0, 8, "%%Page: ")) { o.pages++; continue; } if (l.compare(0, 8, "newpath ")) { if (o.l.empty()) o.head += l + "\n"; continue; }
        Ln n; n.z = z; n.text = l; const char *t = c + 8; int w = 0; for (;;) { double x, y; const char *u = t; if (!num_at(t, x) || !num_at(t, y)) { t = u; break; } while (*t == ' ') t++; const char *v = t; while (*v && *v != ' ') v++; string cmd(t, v); if (cmd != "moveto" && cmd != "lineto") { if (l.find(" arc ") != string::npos) { n.xy.push_back(x); n.xy.push_back(y); } t = u; break; } n.xy.push_back(x); n.xy.push_back(y); t = v; w++; } while (*t == ' ') t++; n.rest = t;
        n.k = l.find(" arc ") != string::npos ? 'v' : l.find("fill") != string::npos ? 't' : l.find("closepath") != string::npos ? 'p' : 'm'; o.l.push_back(n); }
    return true;
}
static bool getps(const V &a, Ps &o, string *raw = nullptr) { V b = cat(a, {"-o", "o.ps"}); unlink(scr("o.ps").c_str()); Res r = run(b); mc::trans(); string s = slurp(scr("o.ps")); if (raw) *raw = s; if (!r.ok() || !ps(s, o)) { mc::fail("ps-run", "hob3l%s: %s %s", jargs(b).c_str(), r.how().c_str(), r.err.c_str()); return false; } return true; }
static string lines(const Ps &p, const char *kinds) { string s; for (auto &l : p.l) if (strchr(kinds, l.k)) s += l.text + "\n"; return s; }
static void repl(string &s, const string &a, const string &b) { size_t p = 0; while ((p = s.find(a, p)) != string::npos) { s.replace(p, a.size(), b); p += b.size(); } }
typedef std::array<std::array<double, 4>, 4> M4x;
static M4x unit() { M4x m{}; for (int i = 0; i < 4; i++) m[(size_t)i][(size_t)i] = 1; return m; }
static M4x mul(const M4x &a, const M4x &b) { M4x m{}; for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) for (size_t k = 0; k < 4; k++) m[i][j] += a[i][k] * b[k][j]; return m; }
static void psform(const V &s, const char *model) {
    M4x m = unit(); double per = 0; for (auto &o : s) { double v = val(o), c = cos(v * M_PI / 180), n = sin(v * M_PI / 180); M4x x = unit(); if (key(o) == "--ps-rot-x") { x[1][1] = x[2][2] = c; x[1][2] = -n; x[2][1] = n; } else if (key(o) == "--ps-rot-y") { x[0][0] = x[2][2] = c; x[0][2] = n; x[2][0] = -n; } else if (key(o) == "--ps-rot-z") { x[0][0] = x[1][1] = c; x[0][1] = -n; x[1][0] = n; } else if (key(o) == "--ps-scale") x[0][0] = x[1][1] = x[2][2] = v; else { per = v; continue; } m = mul(x, m); }
    if (per != 0) { M4x x = unit(); x[3][2] = -per / 1000; m = mul(x, m); }
    Ps a, b; if (!getps({model, "--step=.5"}, a) || !getps(cat({model, "--step=.5"}, s), b)) return; if (a.l.size() != b.l.size() || a.pages != b.pages) { mc::fail("ps-transform", "%zu drawings, %zu without transformation", b.l.size(), a.l.size()); return; }
    double k = 72 / 25.4, cx, cy; { Ps o; if (!getps({model, "--step=.5", "--ps-scale=1e-9"}, o) || o.l.empty() || o.l[0].xy.empty()) return; cx = o.l[0].xy[0]; cy = o.l[0].xy[1]; if (fabs(cx - 297.5) > 1 || fabs(cy - 421) > 1) { mc::fail("ps-centre", "the centre is drawn at (%g,%g)", cx, cy); return; } } // A4 in mm
    for (size_t i = 0; i < a.l.size(); i++) { auto &p = a.l[i], &q = b.l[i]; if (p.k == 'm') continue; if (p.k != q.k || p.xy.size() != q.xy.size()) { mc::fail("ps-transform", "drawing %zu differs: %s / %s", i, p.text.c_str(), q.text.c_str()); return; }
        for (size_t j = 0; j < p.xy.size(); j += 2) { double v[4] = {(p.xy[j] - cx) / k, (p.xy[j + 1] - cy) / k, p.z, 1}, w[4]; for (size_t r = 0; r < 4; r++) { w[r] = 0; for (size_t c = 0; c < 4; c++) w[r] += m[r][c] * v[c]; } double ex = cx + k * w[0] / w[3], ey = cy + k * w[1] / w[3], sc = 2e-2 * (1 + fabs(val(s.back())) * 0) + 2e-5 * (fabs(ex) + fabs(ey)); double lo = 1; for (auto &o : s) if (key(o) == "--ps-scale") lo *= std::max(1., fabs(val(o))); sc *= lo;
            if (fabs(q.xy[j] - ex) > sc || fabs(q.xy[j + 1] - ey) > sc) { mc::fail("ps-transform", "point (%g,%g,%g) is drawn at (%g,%g), expected (%g,%g)", v[0], v[1], v[2], q.xy[j], q.xy[j + 1], ex, ey); return; } } }
}
static void pseffects() {
    struct C { const char *opt; const char *from; const char *kinds; }; static const C col[] = {{"path", "0 0 0", "p"}, {"tri", "0 0.6 0.6", "t"}, {"fill", "0.8 0.8 0.8", "t"}, {"vertex", "1 0 0", "v"}, {"mark", "0 0 1", "m"}};
    mc::phase("PostScript: what is drawn"); for (const char *m : {"m1.scad", "m2.scad", "m3.scad"}) for (unsigned x = 0; x < 256; x++) { if (!mc::next()) continue; V o; bool nt = x & 1, np = x & 2, nm = x & 4, sp = x & 8, wi = x & 16; int c = (int)(x >> 5); if (nt) o.push_back("--ps-no-tri"); if (np) o.push_back("--ps-no-path"); if (nm) o.push_back("--ps-no-mark"); if (wi) { o.push_back("--ps-no-wire"); nt = np = nm = true; } if (sp) o.push_back("--ps-single-page"); if (c >= 1 && c <= 5) o.push_back(string("--ps-color-") + col[c - 1].opt + "=336699"); if (c == 6) o.push_back("--ps-line-width=2.5"); if (c == 7) o.push_back("--ps-line-width=0");
        mc::desc_s(string(m) + jargs(o)); mc::sample(jargs(o)); Ps a, b; string raw; if (!getps({m}, a) || !getps(cat({m}, o), b, &raw)) continue; string e; auto line = [&](Ln l) { if (l.k == 't' && nt) { repl(l.text, "gsave ", ""); repl(l.text, " grestore 0 0.6 0.6 setrgbcolor stroke", ""); } if (c >= 1 && c <= 5 && strchr(col[c - 1].kinds, l.k)) repl(l.text, string(col[c - 1].from) + " setrgbcolor", "0.2 0.4 0.6 setrgbcolor"); return l.text + "\n"; };
        for (auto &l : a.l) { if (l.k != 't' && np) continue; if (l.k == 'm' && nm) continue; e += line(l); } string g = lines(b, "tpvm"); if (e != g) { size_t i = 0; while (i < e.size() && i < g.size() && e[i] == g[i]) i++; size_t s0 = e.rfind('\n', i); s0 = s0 == string::npos ? 0 : s0 + 1; mc::fail("ps-drawing", "expected '%s', drawn '%s'", e.substr(s0, 200).c_str(), g.substr(std::min(s0, g.size()), 200).c_str()); continue; }
        mc::state(mc::hash(g)); if (sp ? b.pages != 1 : b.pages != a.pages) mc::fail("ps-pages", "%d pages, %d layers", b.pages, a.pages); string lw = mc::strf("\n%g setlinewidth\n", c == 6 ? 2.5 : c == 7 ? 0. : .4); if (b.pages && raw.find(lw) == string::npos) mc::fail("ps-line-width", "no '%s'", lw.c_str()); }
}
static void dead(const char *opt, const std::function<bool()> &f) { if (!mc::next()) return; mc::desc("%s has its documented effect", opt); if (!f()) mc::fail(string("no-effect:") + opt, "%s has no effect", opt); }
void mc_main() {
    models(); spit(scr("s.scad"), "translate([.1,.2,0])rotate([0,0,0])cylinder(1,1,.5,$fn=7);"); bool T = mc::thorough;
    sequences("heights", {"--min=.3", "--min=.52", "--max=.7", "--max=.91", "--z=.6", "--z=0.1", "--step=.1", "--step=1/3"}, T ? 4 : 3, heights);
    for (double size : {1., 3.7, 1000., 12345.678}) sequences(mc::strf("grids, size %g", size).c_str(), {"--grid=64", "--grid=100", "--grid=2^20", "--grid=0", "--gran=1/128", "--gran=2^-20", "--auto-grid", "--no-auto-grid", "--auto-grid-max"}, T ? 4 : 2, [size](const V &s) { grids(s, size); });
    for (double size = .25; size < 20000; size *= 1.37) { mc::phase("grid by size"); for (const char *o : {"--grid=8192", "--grid=0", "--grid=2^24", "--grid=2^18"}) for (const char *a : {"--auto-grid", "--auto-grid-max"}) { if (!mc::next()) continue; mc::desc("size %g %s %s", size, o, a); grids({o, a}, size); } }
    for (const char *f : {"", "f.stl", "f.stb", "f.stlb", "f.js", "f.scad", "f.csg", "f.ps", "f.txt", "f", ".stl", "f.scad.stl", "f.stl.js", "stl", "f.js.stb", "x/f.ps", "fstl", "fstb", "stlb", "fstlb", "fjs", "fps", "fscad", "fcsg", "f.stl.", "f.STL", "f.stlb.txt", "f.tl", "f.sstl", "stl.f", "f.jss", "f.s", "b"}) { mc::phase(("format of '" + string(f) + "'").c_str()); if (mc::next()) { mc::desc("no option, -o '%s'", f); formats({}, f); } sequences(("formats of '" + string(f) + "'").c_str(), {"--dump-syn", "--dump-scad", "--dump-csg3", "--dump-csg2", "--dump-ps", "--dump-stl", "--dump-stlb", "--dump-js", "--stl-bin", "--stl-txt"}, T ? 4 : 2, [f](const V &s) { formats(s, f); }); }
    sequences("several output files", {"-o=o.stl", "-o=o.js", "-o=o.ps", "-o=o2.stl", "-o=nodir/x.stl"}, 3, [](const V &s) { if (s.back() == "-o=nodir/x.stl") return; same("last-wins", cat(s, {"m3.scad"}), {s.back(), "m3.scad"}); });
    sequences("verbosity", {"-q", "--quiet", "-v", "--verbose"}, 4, [](const V &s) { int v = 1; for (auto &o : s) if (o == "-q" || o == "--quiet") v = 0; else v++; Res r = run(cat(s, {"m3.scad"})); mc::trans(); if (!r.ok() || (r.err.find("Info:") != string::npos) != (v > 0) || (v == 0 && !r.err.empty())) mc::fail("verbosity", "%s", r.err.c_str()); });
    for (auto &o : TAB) if (o.kind == 'b' || (o.kind && o.kind != 'f' && o.kind != 't' && o.names[0].compare(0, 7, "ps-rot-") && o.names[0] != "ps-scale")) { V vs; if (o.kind == 'b') for (const char *v : {"", "=true", "=false"}) { vs.push_back("--" + o.names[0] + v); vs.push_back("--" + positive(o.names[0]) + v); } else for (size_t i = 0; i < 3 && i < o.vals.size(); i++) { if (run({"--" + o.names[0] + "=" + o.vals[i], "m3.scad"}).ok()) vs.push_back("--" + o.names[0] + "=" + o.vals[i]); }
        sequences(("last of --" + o.names[0]).c_str(), vs, T ? 4 : 3, [&](const V &s) { for (const char *f : {"o.stl", "o.ps"}) { V a = s, b = {s.back()}; if (o.names[0] == "no-csg" && f[2] == 's' && f[3] == 't') f = "o.ps"; if (!same("last-wins", cat(a, {"m2.scad", "-o", f}), cat(b, {"m2.scad", "-o", f}))) return; } }); }
    sequences("groups", {"--js-group=a", "--js-group=b,c", "--js-group= d;e\tf,", "--js-group=", "--js-group=a'b\\", "--js-group=,;"}, T ? 4 : 3, [](const V &s) { string l = "'group':{"; for (auto &o : s) { string v = o.substr(o.find('=') + 1), w; for (char c : v + " ") if (strchr(" ,;\t", c)) { if (!w.empty()) { l += "'"; for (char d : w) { if (d == '\'' || d == '\\') l += '\\'; l += d; } l += "':true,"; } w.clear(); } else w += c; } l += "},"; unlink(scr("o.js").c_str()); Res r = run(cat(s, {"m3.scad", "-o", "o.js"})); mc::trans(); string t = slurp(scr("o.js")); if (!r.ok() || t.find(l + "\n") == string::npos) { size_t p = t.find("'group'"); mc::fail("js-group", "expected %s, found %s", l.c_str(), p == string::npos ? "nothing" : t.substr(p, t.find('\n', p) - p).c_str()); } });
    for (const char *m : {"m2.scad", "m3.scad"}) sequences(mc::strf("PostScript transformations of %s", m).c_str(), {"--ps-rot-x=30", "--ps-rot-y=-50", "--ps-rot-z=90", "--ps-rot-z=12.5", "--ps-scale=2", "--ps-scale=1/3", "--ps-persp=2"}, T ? 4 : 3, [m](const V &s) { psform(s, m); });
    sequences("fit", {"--ps-scale-fit", "--ps-scale-max"}, 3, [](const V &s) { same("last-wins", cat(s, {"m2.scad", "-o", "o.ps"}), {s.back(), "m2.scad", "-o", "o.ps"}); });
    pseffects();
    mc::phase("layer gap"); for (double gap : {-1., 0., .01, .05, .125, .199, .2, .3}) for (double st : {.2, .5, .35}) for (const char *f : {"o.stl", "o.stlb"}) { if (!mc::next()) continue; mc::desc("gap %g, step %g, %s", gap, st, f); unlink(scr(f).c_str()); Res r = run({mc::strf("--layer-gap=%g", gap), mc::strf("--step=%g", st), "m3.scad", "-o", f}); mc::trans(); string t = slurp(scr(f)); Stl s = strstr(f, "b") ? stl_bin(t) : stl_text(t); if (!r.ok() || !s.ok) { mc::fail("gap-run", "%s %s", r.how().c_str(), s.why.c_str()); continue; } double g = gap == -1 ? .01 : gap; if (g >= st) continue; double th = st - g; for (auto &x : s.f) { double a = std::min({x.v[0][2], x.v[1][2], x.v[2][2]}), b = std::max({x.v[0][2], x.v[1][2], x.v[2][2]}); if (b - a > 1e-9 && fabs(b - a - th) > 1e-6) { mc::fail("layer-gap", "layer is %g high, expected %g", b - a, th); break; } } }
    mc::phase("max-fn of spheres"); for (int fn : {0, 3, 5, 8, 9, 20, 21, 30, 100, 101, 200}) for (int mf : {8, 20, 21, 100, 150}) { if (!mc::next()) continue; mc::desc("$fn=%d --max-fn=%d", fn, mf); spit(scr("k.scad"), mc::strf("sphere(10,$fn=%d);", fn)); run({mc::strf("--max-fn=%d", mf), "k.scad", "--z=.1", "-o", "o.stl"}); mc::trans(); Stl s = stl_text(slurp(scr("o.stl"))); int n = fn == 0 || fn > mf ? mf : std::max(fn, 3); std::set<std::pair<double, double>> v; for (auto &f : s.f) for (auto &p : f.v) v.insert({p[0], p[1]}); if (v.size() != (size_t)n) mc::fail("max-fn", "%zu corners, expected %d", v.size(), n); }
    mc::phase("documented effects"); auto out = [&](const V &a, const char *f) { unlink(scr(f).c_str()); Res r = run(cat(a, {"-o", f})); mc::trans(); return r.ok() ? slurp(scr(f)) : r.how(); };
    dead("--no-csg", [&] { Ps a; return getps({"m3.scad", "--z=.5", "--no-csg"}, a) && !a.l.empty(); });
    dead("--opt-drop-collinear", [&] { spit(scr("k.scad"), "cube(1);translate([1,0,0])cube(1);"); return out({"k.scad", "--z=.5", "--opt-drop-collinear"}, "o.stl") != out({"k.scad", "--z=.5", "--opt-no-drop-collinear"}, "o.stl"); });
    dead("--no-tri", [&] { return out({"m3.scad"}, "o.scad") != out({"m3.scad", "--no-tri"}, "o.scad") || out({"m3.scad"}, "o.ps") != out({"m3.scad", "--no-tri"}, "o.ps"); });
    dead("--path", [&] { return out({"m3.scad", "--path"}, "o.ps") != out({"m3.scad", "--no-path"}, "o.ps"); });
    dead("--no-diff", [&] { return out({"m3.scad"}, "o.js") != out({"m3.scad", "--no-diff"}, "o.js"); });
    dead("--js-color-rand", [&] { return out({"m3.scad"}, "o.js") != out({"m3.scad", "--js-color-rand=255"}, "o.js"); });
}
#endif
