// C16: every problem class under every policy in every position of an expression.
#include "../scad.hpp"
struct Off { string cls, text; bool d2; enum { EMPTY, GONE } eff; bool count = true; NP good = nullptr; }; // effect when it is not an error
static NP raw(const string &t, bool ignored) { // a construct without volume
    if (ignored) { auto n = Group({}); n->head = t; return n; }
    return leaf(t, [](V) { return false; });
}
static NP A2() { return leaf("square([3,2])", [](V p) { return p.x > 0 && p.x < 3 && p.y > 0 && p.y < 2; }); }
static NP B2() { return Xf("translate([1,1])", m_translate(1, 1, 0), {leaf("square([3,2])", [](V p) { return p.x > 0 && p.x < 3 && p.y > 0 && p.y < 2; })}); }
static NP A3() { return Cube(0, 0, 0, 3, 2, 2); }
static NP B3() { return Cube(1, 1, 0, 3, 2, 1); }
static NP ext(const vector<NP> &c) { auto n = op(FN, "linear_extrude(2)", c); n->fn = [](const vector<NP> &c, V p) { if (p.z < 0 || p.z >= 2) return false; for (auto &x : c) if (x->has({p.x, p.y, 0})) return true; return false; }; return n; }
static vector<Off> offences() {
    vector<Off> r; auto E = [&](const string &t, bool d2) { r.push_back({"empty", t, d2, Off::EMPTY}); };
    for (auto t : {"cube(0)", "cube([1,0,2])", "sphere(0)", "sphere(d=0,$fn=5)", "sphere(-1)", "cylinder(h=0)", "cylinder(1,0,0)", "cylinder(1,-1,1)", "linear_extrude(0){square(1);}", "linear_extrude(2,slices=0){square(3);}", "rotate_extrude(angle=0){square(2);}", "polyhedron([[0,0,0],[1,0,0],[0,1,0]],[[0,1,2],[0,1,2],[0,1,2],[0,1,2]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,1,3],[1,2,3]])"}) E(t, false);
    for (auto t : {"circle(0)", "circle(-1)", "circle(d=0)", "square(0)", "square([0,1])", "polygon([[0,0],[1,1]])"}) E(t, true);
    auto C = [&](const string &t, bool d2, bool gone) { r.push_back({"collapse", t, d2, gone ? Off::GONE : Off::EMPTY}); };
    C("scale(0){cube(3);}", false, false); C("scale([1,0,1]){cube(3);}", false, false); C("scale([1,1,0]){cube(3);sphere(1);}", false, false); C("multmatrix([[1,0],[0,0]]){cube(3);}", false, false); C("scale(0){union(){group(){cube(1);}}}", false, false); C("scale(0){}", false, true); C("scale(0){group(){}}", false, true); C("multmatrix([[1,0],[0,0]]){union(){}}", false, true);
    C("scale([1,0]){square(3);}", true, false); C("scale(0){circle(3);}", true, false); C("multmatrix([[1,1],[1,1]]){square(1);}", true, false); C("scale([0,0]){}", true, true);
    for (auto t : {"circle(2)", "square(3)", "polygon([[0,0],[3,0],[0,3]])", "text(\"a\")"}) r.push_back({"outside-2d", t, false, Off::EMPTY});
    for (auto t : {"sphere(2)", "cube(3)", "cylinder(2,1,1)", "polyhedron([[0,0,0],[3,0,0],[0,3,0],[0,0,3]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]])"}) r.push_back({"outside-3d", t, true, Off::GONE});
    for (bool d2 : {false, true}) {
        for (auto t : {"minkowski(){cube(3);sphere(1);}", "offset(r=2){cube(1);}", "resize([1,2,3]){cube(2);}", "for(i=[0:2]){cube(3);}", "intersection_for(i=[0:2]){cube(3);}", "echo(\"a\")"}) r.push_back({"unsupported-functor", t, d2, Off::GONE});
        for (auto t : {"foo()", "foo(1,a=[1,2]){cube(3);}", "Cube(3)", "cubes(3){}", "foo(){bar(){cube(1);}}"}) r.push_back({"unknown-functor", t, d2, Off::GONE});
    }
    auto U = [&](NP n, const string &t, bool d2) { r.push_back({"unknown-param", t, d2, Off::EMPTY, true, n}); };
    U(Cube(0,0,0,2,1,1), "cube([2,1,1],foo=1)", false); U(Cube(0,0,0,2,1,1), "cube(foo=\"x\",size=[2,1,1])", false); U(Cyl(2, 1, .5, 5), "cylinder(2,1,$x=[1,2],r2=.5,$fn=5)", false); U(Sphere(2, 6), "sphere(bar=undef,r=2,$fn=6)", false); U(Xf("", m_translate(1, 0, 0), {Cube(0,0,0,1,3,1)}), "translate(a=1,v=[1,0,0]){cube([1,3,1]);}", false);
    U(leaf("", [](V p) { return p.x > 0 && p.x < 2 && p.y > 0 && p.y < 3; }), "square([2,3],what=false)", true); U(leaf("", [](V p) { return p.x > 0 && p.x < 3 && p.y > 0 && p.y < 1 && p.x + 3 * p.y < 3; }), "polygon(q=7,points=[[0,0],[3,0],[0,1]])", true);
    return r;
}
static NP node_of(const Off &o) {
    if (o.good) { auto n = leaf(o.text, [=](V p) { return o.good->has(p); }); if (o.text.back() == '}') { n = op(FN, o.text, {o.good}); n->fn = [=](const vector<NP> &, V p) { return o.good->has(p); }; } return n; }
    return raw(o.text, o.eff == Off::GONE);
}
struct Pos { string text; std::function<NP(NP x, NP y)> f; };
static vector<Pos> positions(bool d2) {
    NP a = d2 ? A2() : A3(), b = d2 ? B2() : B3(); string A = a->text(), B = b->text(); Mat tr = m_translate(1, .5, 0), mi = m_mirror(1, 0, 0);
    vector<Pos> r;
    auto P = [&](const string &t, std::function<NP(NP, NP)> f) { string s; for (size_t i = 0; i < t.size(); i++) { if (t[i] == 'A') s += A; else if (t[i] == 'B') s += B; else s += t[i]; } r.push_back({s, f}); };
    P("X", [=](NP x, NP) { return Group({x}); }); P("AX", [=](NP x, NP) { return Group({a, x}); }); P("union(){XA}", [=](NP x, NP) { return Union({x, a}); });
    P("difference(){XA}", [=](NP x, NP) { return Diff({x, a}); }); P("difference(){AX}", [=](NP x, NP) { return Diff({a, x}); }); P("difference(){ABX}", [=](NP x, NP) { return Diff({a, b, x}); }); P("difference(){XAB}", [=](NP x, NP) { return Diff({x, a, b}); }); P("difference(){AXB}", [=](NP x, NP) { return Diff({a, x, b}); });
    P("intersection(){XA}", [=](NP x, NP) { return Inter({x, a}); }); P("intersection(){AX}", [=](NP x, NP) { return Inter({a, x}); }); P("intersection(){AXB}", [=](NP x, NP) { return Inter({a, x, b}); });
    P("difference(){group(){X}A}", [=](NP x, NP) { return Diff({Group({x}), a}); }); P("difference(){union(){XB}A}", [=](NP x, NP) { return Diff({Union({x, b}), a}); }); P("difference(){difference(){XB}A}", [=](NP x, NP) { return Diff({Diff({x, b}), a}); }); P("intersection(){intersection(){AX}B}", [=](NP x, NP) { return Inter({Inter({a, x}), b}); }); P("intersection(){union(){X}A}", [=](NP x, NP) { return Inter({Union({x}), a}); });
    P("difference(){translate([1,.5]){X}A}", [=](NP x, NP) { return Diff({Xf("", tr, {x}), a}); }); P("difference(){A mirror([1,0]){X}}", [=](NP x, NP) { return Diff({a, Xf("", mi, {x})}); }); P("intersection(){color(\"red\"){X}A}", [=](NP x, NP) { return Inter({Group({x}), a}); }); P("difference(){group(){}X A}", [=](NP x, NP) { return Diff({x, a}); });
    P("A{X}", [=](NP x, NP) { return Group({a, Group({x})}); });
    P("difference(){XYA}", [=](NP x, NP y) { return Diff({x, y, a}); }); P("intersection(){AXY}", [=](NP x, NP y) { return Inter({a, x, y}); }); P("union(){XA}difference(){AY}", [=](NP x, NP y) { return Group({Union({x, a}), Diff({a, y})}); });
    return r;
}
static const char *CLS[] = {"empty", "collapse", "outside-2d", "outside-3d", "unsupported-functor", "unknown-functor", "unknown-param"};
static const char *DEF[] = {"error", "error", "error", "error", "warn", "error", "warn"};
static int cls(const string &c) { for (int i = 0; i < 7; i++) if (c == CLS[i]) return i; return -1; }
static size_t cnt(const string &s, const char *k) { size_t n = 0, p = 0; while ((p = s.find(k, p)) != string::npos) n++, p++; return n; }
static void one(const Pos &p, const Off &x, const Off *y, const vector<string> &pol /* per class, "" = default */) {
    bool d2 = x.d2; auto stmt = [](const string &t) { return t.back() == '}' ? t : t + ";"; };
    string t; for (size_t i = 0; i < p.text.size(); i++) { char c = p.text[i]; if (c == 'X') t += "\n" + stmt(x.text) + "\n"; else if (c == 'Y') t += "\n" + stmt(y ? y->text : "group()") + "\n"; else t += c; }
    if (d2) t = "linear_extrude(2){" + t + "}";
    vector<string> args; size_t nwarn = 0; bool err = false;
    for (int i = 0; i < 7; i++) if (!pol[(size_t)i].empty()) args.push_back("--" + string(CLS[i]) + "=" + pol[(size_t)i]);
    for (auto o : {&x, y}) if (o) { int c = cls(o->cls); string q = pol[(size_t)c].empty() ? DEF[c] : pol[(size_t)c]; if (q == "error") err = true; if (q == "warn") nwarn++; }
    mc::desc_s("hob3l" + jargs(args) + " on: " + t); mc::sample(t); spit(scr("in.scad"), t);
    vector<string> a = args; for (auto s : {"--min=.5", "--step=1", "--max=2", "in.scad", "-o", "out.stl"}) a.push_back(s);
    Res r = run(a); mc::trans(); string K = x.cls + ":";
    if (err) { if (!r.rejected()) { mc::fail(K + "not-rejected", "must be rejected: %s\n%s", r.how().c_str(), r.err.substr(0, 400).c_str()); return; } if (r.err.find("in.scad:") == string::npos || r.err.find("Error:") == string::npos) mc::fail(K + "no-location", "no located error: %s", r.err.substr(0, 300).c_str()); return; }
    if (!r.ok()) { mc::fail(K + "rejected", "must be accepted: %s\n%s", r.how().c_str(), r.err.substr(0, 400).c_str()); return; }
    size_t w = cnt(r.err, "Warning:"); if (w != nwarn) { mc::fail(K + "warnings", "expected %zu warnings, got %zu:\n%s", nwarn, w, r.err.substr(0, 600).c_str()); return; }
    if (cnt(r.err, "in.scad:") < nwarn) { mc::fail(K + "warning-location", "warnings without location:\n%s", r.err.substr(0, 600).c_str()); return; }
    if (!nwarn) { size_t q = 0; string rest; while (q < r.err.size()) { size_t e = r.err.find('\n', q); if (e == string::npos) e = r.err.size(); string l = r.err.substr(q, e - q); if (l.compare(0, 5, "Info:")) rest += l; q = e + 1; } if (!rest.empty()) { mc::fail(K + "not-silent", "unexpected message: %s", rest.c_str()); return; } }
    NP n = p.f(node_of(x), y ? node_of(*y) : Group({})); if (d2) n = ext({n});
    std::map<long,Layer> ls; string why; Stl s = stl_text(slurp(scr("out.stl"))); if (!s.ok || !layers_of(s, ls, why)) { mc::fail(K + "stl", "%s%s", s.why.c_str(), why.c_str()); return; }
    compare(*n, ls, .5, 1, 2, {-4.13, -3.17, .61, .43, 16, 16}, 2e-3, K.c_str());
}
void mc_main() {
    bool T = mc::thorough; auto O = offences(); vector<Pos> P[2] = {positions(false), positions(true)}; static const char *PV[] = {"error", "warn", "ignore", ""};
    mc::phase("every offence in every position under every policy");
    for (auto &x : O) for (auto &p : P[x.d2]) { if (p.text.find('Y') != string::npos) continue; for (auto v : PV) { if (!mc::next()) continue; vector<string> pol(7); pol[(size_t)cls(x.cls)] = v; one(p, x, nullptr, pol); } }
    mc::phase("pairs of offences, each class under its own policy");
    for (size_t i = 0; i < O.size(); i++) for (size_t j = 0; j < O.size(); j++) { if (O[i].d2 != O[j].d2) continue; for (auto &p : P[O[i].d2]) { if (p.text.find('Y') == string::npos) continue; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) { if (O[i].cls == O[j].cls && u != v) continue; if (!T && (i * 7 + j * 3 + (size_t)(u * 3 + v)) % 4) continue; if (!mc::next()) continue; vector<string> pol(7); pol[(size_t)cls(O[i].cls)] = PV[u]; pol[(size_t)cls(O[j].cls)] = PV[v]; one(p, O[i], &O[j], pol); } } }
    mc::phase("a policy has no effect on other classes");
    for (auto &x : O) for (int c = 0; c < 7; c++) for (auto v : {"error", "warn", "ignore"}) { if (c == cls(x.cls) || !mc::next()) continue; vector<string> pol(7); pol[(size_t)c] = v; one(P[x.d2][4], x, nullptr, pol); }
}
