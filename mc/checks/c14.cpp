// C14: arguments bind to parameters by position and name.  Every functor has a table of its documented
// parameters; the tree that the program builds is read through its SCAD dump.
#include "../mc.hpp"
#include "../pshim.h"
#include <math.h>
#include <map>
#include <set>
#include <algorithm>
using std::string; using std::vector; using std::map;
// values: text and what it denotes: numbers are #%.15g, vectors flattened
struct Val { string text, den; };
enum Type { F, U, B, S, V23, VS, V3F, V2F, V2Fs, ROTA, V3, M4, PTS3, FACES, PTS2, PATHS, COL, GREY };
static string num(double d) { if (d == 0) d = 0; return mc::strf("#%.12g", d); }
static string vec(std::initializer_list<double> l) { string s = "A["; bool f = true; for (double d : l) { if (!f) s += ","; f = false; s += num(d); } return s + "]"; }
static vector<Val> good(Type t) {
    switch (t) {
    case F: return {{"2.5", num(2.5)}, {"3", num(3)}, {"-.5", num(-.5)}, {"true", num(1)}, {"PI", num(M_PI)}, {"false", num(0)}, {"1e2", num(100)}};
    case U: return {{"7", num(7)}, {"0", num(0)}, {"true", num(1)}, {"4294967295", num(4294967295.)}};
    case B: return {{"true", "Itrue"}, {"false", "Ifalse"}, {"1", "Itrue"}, {"0", "Ifalse"}, {"5", "Itrue"}};
    case S: return {{"\"ab\"", "S\"ab\""}, {"\"\"", "S\"\""}, {"\"a\\\\\\\"\"", "S\"a\\\\\\\"\""}};
    case V23: return {{"[1,2,3]", vec({1, 2, 3})}, {"[4,5]", vec({4, 5, 0})}, {"[PI,true,-1.5]", vec({M_PI, 1, -1.5})}};
    case VS: return {{"[2,3,4]", vec({2, 3, 4})}, {"[4,5]", vec({4, 5, 1})}, {"6", vec({6, 6, 6})}};
    case V3F: return {{"[1,2,3]", vec({1, 2, 3})}, {"4", vec({4, 4, 4})}, {"1.5", vec({1.5, 1.5, 1.5})}};
    case V2F: case V2Fs: return {{"[1,2]", vec({1, 2})}, {"4", vec({4, 4})}, {"1.5", vec({1.5, 1.5})}};
    case V3: return {{"[1,2,3]", vec({1, 2, 3})}, {"[0,-1,.5]", vec({0, -1, .5})}};
    case ROTA: return {{"30", num(30)}, {"[10,20,30]", vec({10, 20, 30})}, {"-1.5", num(-1.5)}};
    case M4: return {{"[[1,2,3,4],[5,6,7,8],[9,10,11,12],[0,0,0,1]]", "A[" + vec({1,2,3,4}) + "," + vec({5,6,7,8}) + "," + vec({9,10,11,12}) + "," + vec({0,0,0,1}) + "]"}, {"[[1,2,3],[5,6,7],[9,10,11]]", "A[" + vec({1,2,3,0}) + "," + vec({5,6,7,0}) + "," + vec({9,10,11,0}) + "," + vec({0,0,0,1}) + "]"}, {"[[1,2,3,4],[5,6,7,8],[9,10,11,12]]", "A[" + vec({1,2,3,4}) + "," + vec({5,6,7,8}) + "," + vec({9,10,11,12}) + "," + vec({0,0,0,1}) + "]"}, {"[[1,2],[3,4]]", "A[" + vec({1,2,0,0}) + "," + vec({3,4,0,0}) + "," + vec({0,0,1,0}) + "," + vec({0,0,0,1}) + "]"}, {"[[1,2,3,4],[5,6,7,8]]", "A[" + vec({1,2,3,4}) + "," + vec({5,6,7,8}) + "," + vec({0,0,1,0}) + "," + vec({0,0,0,1}) + "]"}};
    case PTS3: return {{"[[0,0,0],[2,0,0],[0,2,0],[0,0,2]]", "A[" + vec({0,0,0}) + "," + vec({2,0,0}) + "," + vec({0,2,0}) + "," + vec({0,0,2}) + "]"}, {"[[0,0,0],[2,0,0],[0,2,PI],[0,0,2],[9,9,9]]", "A[" + vec({0,0,0}) + "," + vec({2,0,0}) + "," + vec({0,2,M_PI}) + "," + vec({0,0,2}) + "," + vec({9,9,9}) + "]"}};
    case FACES: return {{"[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]", "A[" + vec({0,1,2}) + "," + vec({0,3,1}) + "," + vec({1,3,2}) + "," + vec({2,3,0}) + "]"}, {"[[0,1,2,3],[3,2,1]]", "A[" + vec({0,1,2,3}) + "," + vec({3,2,1}) + "]"}};
    case PTS2: return {{"[[0,0],[2,0],[0,2]]", "A[" + vec({0,0}) + "," + vec({2,0}) + "," + vec({0,2}) + "]"}, {"[[0,0],[4,0],[4,3],[-1,.5]]", "A[" + vec({0,0}) + "," + vec({4,0}) + "," + vec({4,3}) + "," + vec({-1,.5}) + "]"}};
    case PATHS: return {{"[[0,1,2]]", "A[" + vec({0,1,2}) + "]"}, {"[[2,1,0],[0,1,2]]", "A[" + vec({2,1,0}) + "," + vec({0,1,2}) + "]"}, {"undef", "?"}};
    case COL: return {{"\"red\"", vec({1, 0, 0})}, {"\"DarkSlateGray\"", vec({47/255., 79/255., 79/255.})}, {"[.2,.4,.6]", vec({.2, .4, .6})}, {"[.2,.4,.6,.8]", vec({.2, .4, .6, .8})}, {"undef", "undef"}, {"\"#0f8\"", vec({0, 1, .533})}, {"\"#336699\"", vec({.2, .4, .6})}};
    case GREY: return {{".4", num(.4)}, {"1", num(1)}, {"0", num(0)}, {"true", num(1)}};
    }
    return {};
}
static vector<string> bad(Type t) {
    switch (t) {
    case F: case GREY: { vector<string> v = {"\"s\"", "[1]", "[]", "undef", "[1:2]", "foo", "[[1]]"}; if (t == GREY) { v.push_back("1.1"); v.push_back("-.1"); v.push_back("2"); } return v; }
    case U: return {"\"s\"", "[1]", "[]", "undef", "[1:2]", "foo", "1.5", "-1", "4294967296", "PI", "2.0"};
    case B: return {"\"s\"", "[1]", "[]", "[1:2]", "foo", "-1"};
    case S: return {"1", "1.5", "[1]", "[\"a\"]", "undef", "foo", "true"};
    case V23: return {"1", "[1]", "[]", "[1,2,3,4]", "[1,\"a\"]", "[1,2,undef]", "\"s\"", "undef", "[[1,2]]", "[1:2]", "[1:2:3]", "foo"};
    case VS: return {"[1]", "[]", "[1,2,3,4]", "[1,\"a\"]", "\"s\"", "undef", "[[1,2]]", "[1:2]", "foo"};
    case V3F: return {"[1]", "[1,2]", "[]", "[1,2,3,4]", "[1,2,\"a\"]", "\"s\"", "undef", "[1:2]", "foo"};
    case V2F: case V2Fs: return {"[1]", "[]", "[1,2,3]", "[1,\"a\"]", "\"s\"", "undef", "[1:2]", "foo"};
    case V3: return {"1", "[1,2]", "[1,2,3,4]", "\"s\"", "[1,2,foo]", "[1:2:3]"};
    case ROTA: return {"[1,2]", "[1,2,3,4]", "\"s\"", "[1,2,\"a\"]", "undef", "[1:2:3]", "foo", "[]"};
    case M4: return {"1", "[1,2,3]", "[]", "[[1,2]]", "[[1],[2]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4],[0,0,0,2]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4],[1,0,0,1]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4],[0,0,0,1],[0,0,0,0]]", "[[1,2,3,4,5],[1,2,3,4,5]]", "\"s\"", "[[1,2,3],[1,2,3],1]", "[[1,2,3],[1,2,3],[1,2,\"a\"]]", "undef"};
    case PTS3: return {"1", "[1]", "[[1,2]]", "[[1,2,3,4]]", "\"s\"", "[[1,2,\"a\"]]", "undef", "[0:1]"};
    case FACES: return {"1", "[1]", "[[0,1]]", "[[]]", "[[0,1,9]]", "[[0,1,-1]]", "[[0,1,1.5]]", "[[0,1,\"a\"]]", "\"s\"", "[[0,1,2],[0,1,5]]", "[[0:2]]", "[[0,1,9223372036854775807]]"};
    case PTS2: return {"1", "[1]", "[[1,2,3]]", "[[1]]", "\"s\"", "[[1,\"a\"]]", "undef", "[0:1]"};
    case PATHS: return {"1", "[1]", "[[0,1]]", "[[]]", "[[0,1,9]]", "[[0,1,-1]]", "[[0,1,1.5]]", "\"s\"", "[[0,1,2],[0,1,4]]", "foo"};
    case COL: return {"1", "[1,1]", "[]", "[0,0,0,0,0]", "\"nocolour\"", "\"\"", "[0,0,2]", "[0,0,-.1]", "[0,0,\"a\"]", "\"#12\"", "\"#12345\"", "\"#12345678\"", "\"#12g\"", "\"red \"", "\"re\"", "foo", "[0:1]"};
    }
    return {};
}
struct Par { string name; Type t; bool pos, must; };
struct Fun { string name; vector<Par> p; vector<vector<string>> excl; vector<vector<string>> one; bool body; string dump; };
static vector<Fun> table() {
    auto P = [](const char *n, Type t, bool must = false) { return Par{n, t, true, must}; }; auto N = [](const char *n, Type t) { return Par{n, t, false, false}; };
    vector<Fun> r;
    r.push_back({"cube", {P("size", V3F), P("center", B)}, {}, {}, false, "cube"});
    r.push_back({"square", {P("size", V2F), P("center", B)}, {}, {}, false, "square"});
    r.push_back({"sphere", {P("r", F), N("d", F), N("$fn", U), N("$fa", F), N("$fs", F)}, {{"r", "d"}}, {}, false, "sphere"});
    r.push_back({"circle", {P("r", F), N("d", F), N("$fn", U), N("$fa", F), N("$fs", F)}, {{"r", "d"}}, {}, false, "circle"});
    r.push_back({"cylinder", {P("h", F), P("r1", F), P("r2", F), P("center", B), N("d", F), N("d1", F), N("d2", F), N("r", F), N("$fn", U), N("$fa", F), N("$fs", F)}, {{"r", "r1"}, {"r", "r2"}, {"d", "d1"}, {"d", "d2"}, {"d", "r"}, {"r1", "d1"}, {"r2", "d2"}}, {}, false, "cylinder"});
    r.push_back({"polyhedron", {P("points", PTS3, true), P("faces", FACES), N("triangles", FACES), N("convexity", U)}, {{"faces", "triangles"}}, {{"faces", "triangles"}}, false, "polyhedron"});
    r.push_back({"polygon", {P("points", PTS2, true), P("paths", PATHS), P("convexity", U)}, {}, {}, false, "polygon"});
    r.push_back({"import", {P("file", S, true), P("layer", S), P("convexity", U), N("center", B), N("dpi", F), N("$fn", U), N("$fa", F), N("$fs", F), N("id", S)}, {}, {}, false, "import"});
    r.push_back({"text", {P("text", S, true), N("size", F), N("font", S), N("halign", S), N("valign", S), N("spacing", F), N("tracking", F), N("direction", S), N("language", S), N("script", S)}, {}, {}, false, "text"});
    r.push_back({"linear_extrude", {P("height", F, true), N("center", B), N("slices", U), N("twist", F), N("scale", V2Fs), N("convexity", U), N("$fn", U), N("$fa", F), N("$fs", F)}, {}, {}, true, "linear_extrude"});
    r.push_back({"rotate_extrude", {N("angle", F), N("convexity", U), N("$fn", U), N("$fa", F), N("$fs", F)}, {}, {}, true, "rotate_extrude"});
    r.push_back({"projection", {P("cut", B), N("convexity", U)}, {}, {}, true, "projection"});
    r.push_back({"multmatrix", {P("m", M4, true)}, {}, {}, true, "multmatrix"});
    r.push_back({"translate", {P("v", V23, true)}, {}, {}, true, "translate"});
    r.push_back({"mirror", {P("v", V23, true)}, {}, {}, true, "mirror"});
    r.push_back({"scale", {P("v", VS, true)}, {}, {}, true, "scale"});
    r.push_back({"rotate", {P("a", ROTA, true), P("v", V3)}, {}, {}, true, "rotate"});
    r.push_back({"color", {P("c", COL, true), P("alpha", GREY)}, {}, {}, true, "color"});
    return r;
}
typedef map<string, Val> Args;
enum Verdict { OK, EITHER, REJECT };
// what the documentation says about a set of arguments; out: the parameters of the dump
static Verdict meaning(const Fun &f, const Args &a, map<string, string> &out) {
    for (auto &p : f.p) if (p.must && !a.count(p.name)) return REJECT;
    for (auto &e : f.excl) if (a.count(e[0]) && a.count(e[1])) return REJECT;
    for (auto &e : f.one) if (!a.count(e[0]) && !a.count(e[1])) return REJECT;
    auto get = [&](const char *n, const string &def) { auto i = a.find(n); return i == a.end() ? def : i->second.den; };
    auto half = [&](const char *n) { return num(strtod(a.at(n).den.c_str() + 1, nullptr) / 2); };
    auto detail = [&] { out["$fn"] = get("$fn", num(0)); };
    const string &n = f.name;
    if (n == "cube") { out["size"] = get("size", vec({1, 1, 1})); out["center"] = get("center", "Ifalse"); }
    else if (n == "square") { out["size"] = get("size", vec({1, 1})); out["center"] = get("center", "Ifalse"); }
    else if (n == "sphere" || n == "circle") { out["r"] = a.count("d") ? half("d") : get("r", num(1)); detail(); }
    else if (n == "cylinder") { if ((a.count("d") && (a.count("r1") || a.count("r2"))) || (a.count("r") && (a.count("d1") || a.count("d2")))) return EITHER; out["h"] = get("h", num(1)); out["r1"] = get("r1", num(1)); out["r2"] = get("r2", num(1)); if (a.count("r")) out["r1"] = out["r2"] = a.at("r").den; if (a.count("d")) out["r1"] = out["r2"] = half("d"); if (a.count("d1")) out["r1"] = half("d1"); if (a.count("d2")) out["r2"] = half("d2"); out["center"] = get("center", "Ifalse"); detail(); }
    else if (n == "polyhedron") { out["points"] = a.at("points").den; out["faces"] = a.count("faces") ? a.at("faces").den : a.at("triangles").den; }
    else if (n == "polygon") { out["points"] = a.at("points").den; string p = get("paths", "?"); if (p == "?") { size_t k = std::count(out["points"].begin(), out["points"].end(), 'A') - 1; p = "A[A["; for (size_t i = 0; i < k; i++) p += (i ? "," : "") + num((double)i); p += "]]"; } out["paths"] = p; }
    else if (n == "import") { out["file"] = a.at("file").den; if (a.count("layer")) out["layer"] = a.at("layer").den; if (a.count("id")) out["id"] = a.at("id").den; out["center"] = get("center", "Ifalse"); out["dpi"] = get("dpi", num(72)); detail(); }
    else if (n == "text") { out["text"] = a.at("text").den; out["size"] = get("size", num(10)); out["font"] = get("font", "S\"Nozzl3 Sans\""); out["halign"] = get("halign", "S\"left\""); out["valign"] = get("valign", "S\"baseline\""); out["spacing"] = get("spacing", num(1)); out["tracking"] = get("tracking", num(0)); out["direction"] = get("direction", "S\"ltr\""); out["language"] = get("language", "S\"en\""); if (a.count("script")) out["script"] = a.at("script").den; }
    else if (n == "linear_extrude") { out["height"] = a.at("height").den; out["center"] = get("center", "Ifalse"); out["slices"] = get("slices", num(1)); out["twist"] = get("twist", num(0)); out["scale"] = get("scale", vec({1, 1})); }
    else if (n == "rotate_extrude") { out["angle"] = get("angle", num(360)); detail(); }
    else if (n == "projection") { out["cut"] = get("cut", "Ifalse"); }
    else if (n == "multmatrix") out["m"] = a.at("m").den;
    else if (n == "translate" || n == "mirror" || n == "scale") out["v"] = a.at("v").den;
    else if (n == "rotate") { bool arr = a.at("a").den[0] == 'A'; if (arr && a.count("v")) return REJECT; out["a"] = a.at("a").den; if (!arr) out["v"] = get("v", vec({0, 0, 1})); }
    else if (n == "color") { string c = a.at("c").den; int comps = c[0] == 'A' ? 1 + (int)std::count(c.begin(), c.end(), ',') : 0; if (a.at("c").text[0] == '[' && comps == 4 && a.count("alpha")) return REJECT; string al = get("alpha", num(1)); if (c == "undef") { out["c"] = "Iundef"; out["alpha"] = al; } else if (c == "?") { out["?rebeccapurple"] = ""; } else { if (comps == 3) c = c.substr(0, c.size() - 1) + "," + al + "]"; out["c"] = c; } }
    return OK;
}
// "f(a=..,b=..){...}" of the canonical tree
static bool split(const string &t, string &fn, map<string, string> &kv, string &rest) {
    size_t p = t.find('('); if (p == string::npos) return false; fn = t.substr(0, p); p++; int dep = 0; bool str = false; string cur; vector<string> parts;
    for (; p < t.size(); p++) { char c = t[p]; if (str) { cur += c; if (c == '\\' && p + 1 < t.size()) cur += t[++p]; else if (c == '"') str = false; continue; } if (c == '"') str = true; if (c == '[') dep++; if (c == ']') dep--; if (dep == 0 && (c == ',' || c == ')')) { parts.push_back(cur); cur.clear(); if (c == ')') break; continue; } cur += c; }
    if (p >= t.size()) return false; rest = t.substr(p + 1);
    for (auto &x : parts) { if (x.empty()) continue; size_t e = x.find('='); if (e == string::npos) return false; kv[x.substr(0, e)] = x.substr(e + 1); }
    return true;
}
static string norm(const string &t) { string r; bool str = false; for (size_t i = 0; i < t.size(); i++) { if (str) { r += t[i]; if (t[i] == '\\' && i + 1 < t.size()) r += t[++i]; else if (t[i] == '"') str = false; continue; } if (t[i] == '"') str = true; if ((t[i] == 'N' || t[i] == 'F') && (!i || strchr("(,=[:", t[i - 1]))) { char *e; double d = strtod(t.c_str() + i + 1, &e); r += num(d); i = (size_t)(e - t.c_str()) - 1; continue; } r += t[i]; } return r; }
static bool near(const string &a, const string &b, double tol) { // equal up to numbers
    const char *p = a.c_str(), *q = b.c_str(); for (;;) { if (*p == '#' && *q == '#') { char *e, *g; double x = strtod(p + 1, &e), y = strtod(q + 1, &g); if (!(fabs(x - y) <= tol * std::max(1., fabs(x)))) return false; p = e; q = g; continue; } if (*p != *q) return false; if (!*p) return true; p++; q++; }
}
static bool call(const Fun &f, const string &args, Verdict v, const map<string, string> &want) {
    static const char *body = "{sphere();}", *bodyc = "sphere(){}";
    string text = f.name + "(" + args + ")" + (f.body ? body : ";"); char *t; long loc; int ok = p_scad(text.data(), text.size(), 0, &t, &loc); string tree = t; free(t); mc::trace(); mc::trans(); mc::beat();
    if (v == EITHER) { mc::count("combinations without documented meaning"); return true; }
    if (v == REJECT) { if (ok) { mc::fail("accepted:" + f.name, "'%s' must be rejected, but is taken as %s", text.c_str(), tree.c_str()); return false; } if (tree.empty() || loc < 0) { mc::fail("no-message:" + f.name, "'%s' is rejected without a message and location", text.c_str()); return false; } mc::state(mc::hash(f.name + tree)); return true; }
    if (!ok) { mc::fail("rejected:" + f.name, "'%s' is rejected: %s", text.c_str(), tree.c_str()); return false; }
    string fn, rest; map<string, string> kv; if (!split(norm(tree), fn, kv, rest)) { mc::fail("dump:" + f.name, "cannot read the dump of '%s': %s", text.c_str(), tree.c_str()); return false; }
    mc::state(mc::hash(norm(tree)));
    if (fn != f.dump) { mc::fail("functor:" + f.name, "'%s' becomes %s", text.c_str(), tree.c_str()); return false; }
    if (f.body) { string c, r2; map<string, string> k2; if (rest.size() < 2 || rest[0] != '{' || !split(rest.substr(1), c, k2, r2) || c != "sphere" || r2 != "{}}") { mc::fail("children:" + f.name, "children of '%s': %s", text.c_str(), rest.c_str()); return false; } } (void)bodyc;
    double tol = f.name == "color" ? 3e-3 : 1e-11;
    for (auto &w : want) { if (w.first[0] == '?') continue; auto i = kv.find(w.first); if (i == kv.end() || !near(w.second, i->second, tol)) { mc::fail("binding:" + f.name + "." + w.first, "'%s': %s should be %s but is %s", text.c_str(), w.first.c_str(), w.second.c_str(), i == kv.end() ? "missing" : i->second.c_str()); return false; } }
    return true;
}
static bool try_args(const Fun &f, const vector<size_t> &order, size_t npos, const vector<Val> &vals) {
    Args a; string s; for (size_t i = 0; i < order.size(); i++) { const Par &p = f.p[order[i]]; if (i) s += ","; if (i >= npos) s += p.name + "="; s += vals[i].text; a[p.name] = vals[i]; }
    map<string, string> want; Verdict v = meaning(f, a, want); return call(f, s, v, want);
}
static size_t posidx_count(const vector<Par> &p) { size_t n = 0; for (auto &x : p) n += x.pos; return n; }
void mc_main() {
    bool T = mc::thorough; auto tab = table(); size_t MAXN = T ? 5 : 4;
    mc::phase("every set of parameters in every order, by position and by name, with every value");
    for (auto &f : tab) {
        vector<size_t> posidx; for (size_t i = 0; i < f.p.size(); i++) if (f.p[i].pos) posidx.push_back(i);
        // ordered selections of parameters
        vector<size_t> sel; std::function<void()> rec = [&] {
            if (mc::next()) {
                string ns; for (size_t i : sel) ns += f.p[i].name + " "; mc::desc_s(f.name + "( " + ns + ")"); mc::sample(f.name + "( " + ns + ")"); bool ok = true;
                vector<vector<Val>> g; size_t prod = 1; for (size_t i : sel) { auto v = good(f.p[i].t); size_t lim = sel.size() <= 2 ? v.size() : sel.size() == 3 ? std::min<size_t>(v.size(), 3) : 2; v.resize(std::min(lim, v.size())); g.push_back(v); prod *= v.size(); }
                for (size_t np = 0; ok && np <= sel.size(); np++) { if (np && !(np <= posidx.size() && sel[np - 1] == posidx[np - 1])) break;
                    for (size_t k = 0; ok && k < prod; k++) { vector<Val> v; size_t x = k; for (auto &q : g) { v.push_back(q[x % q.size()]); x /= q.size(); } ok = try_args(f, sel, np, v); } }
            }
            if (sel.size() == MAXN) return;
            for (size_t i = 0; i < f.p.size(); i++) if (std::find(sel.begin(), sel.end(), i) == sel.end()) { sel.push_back(i); rec(); sel.pop_back(); }
        };
        rec();
    }
    mc::phase("wrong types, surplus and misplaced arguments, unknown names");
    for (auto &f : tab) {
        // a minimal valid call, by name
        vector<size_t> min; vector<Val> mv; for (size_t i = 0; i < f.p.size(); i++) { bool one = !f.one.empty() && f.p[i].name == f.one[0][0]; if (f.p[i].must || one) { min.push_back(i); mv.push_back(good(f.p[i].t)[0]); } }
        auto txt = [&](size_t skip, bool pos) { string s; for (size_t i = 0; i < min.size(); i++) if (min[i] != skip) s += (s.empty() ? "" : ",") + (pos ? "" : f.p[min[i]].name + "=") + mv[i].text; return s; };
        for (size_t i = 0; i < f.p.size(); i++) for (auto &b : bad(f.p[i].t)) { if (!mc::next()) continue; if (f.name == "polyhedron" && f.p[i].name == "triangles") { auto s = "points=" + mv[0].text + ",triangles=" + b; mc::desc_s(s); call(f, s, REJECT, {}); continue; } string s = txt(i, false); s += (s.empty() ? "" : ",") + f.p[i].name + "=" + b; mc::desc_s(f.name + ": " + s); mc::sample(f.name + "(" + s + ")"); call(f, s, REJECT, {});
            // also by position, where all before it are given
            if (f.p[i].pos) { string q; bool all = true; for (size_t k = 0; k < i; k++) { if (!f.p[k].pos) all = false; else q += good(f.p[k].t)[0].text + ","; } if (all) call(f, q + b, REJECT, {}); } }
        if (mc::next()) { // surplus positional arguments
            mc::desc_s(f.name + ": surplus"); string s; for (auto &p : f.p) if (p.pos) s += (s.empty() ? "" : ",") + good(p.t)[f.name == "rotate" ? 0 : 0].text; for (const char *x : {"1", "true", "\"s\"", "[1,2,3]", "undef"}) { call(f, s + (s.empty() ? "" : ",") + x, REJECT, {}); call(f, s + (s.empty() ? "" : ",") + x + "," + x, REJECT, {}); } }
        for (const char *u : {"foo", "s", "$f", "$fx", "radius", "Size", "cente", "centerx", "hh"}) { if (!mc::next()) continue; mc::desc_s(f.name + ": unknown " + u); string s = txt(99, false); call(f, s + (s.empty() ? "" : ",") + u + "=1", REJECT, {}); call(f, string(u) + "=1" + (s.empty() ? "" : ",") + s, REJECT, {}); }
        // a positional argument after a named one
        for (size_t i = 0; i < f.p.size(); i++) for (size_t k = 0; k < posidx_count(f.p); k++) { if (i == k || !mc::next()) continue; mc::desc_s(f.name + ": positional after " + f.p[i].name); call(f, f.p[i].name + "=" + good(f.p[i].t)[0].text + "," + good(f.p[k].t)[0].text, REJECT, {}); }
    }
    mc::phase("case and spelling of functors");
    for (auto &f : tab) { if (!mc::next()) continue; mc::desc_s(f.name); for (string n : {f.name + "x", f.name.substr(0, f.name.size() - 1), string(1, (char)(f.name[0] - 32)) + f.name.substr(1), "_" + f.name, f.name + "_"}) { Fun g = f; g.name = n; call(g, "", REJECT, {}); } }
}
