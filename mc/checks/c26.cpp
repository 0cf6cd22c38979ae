// C26: every placement of one and of two modifiers in every tree of the family, against a rewriting.
#include "../scad.hpp"
static string T(const NP &n) { string s = n->mod + n->head; if (n->c.empty() && n->k == LEAF) return s + ";"; s += "{"; for (auto &x : n->c) s += T(x); return s + "}"; }
static NP lin(const string &h, double ht, const vector<NP> &c) { auto n = op(FN, h, c); n->fn = [ht](const vector<NP> &c, V p) { if (p.z < 0 || p.z >= ht) return false; for (auto &x : c) if (x->has({p.x, p.y, 0})) return true; return false; }; return n; }
// hull of boxes: the program is tested with axis-parallel squares; the hull of one or two of them
struct Sq { double x, y, w, h; };
static std::map<const Node *, Sq> SQ;
static NP square(double x, double y, double w, double h) { string t = "polygon([[" + nm(x) + "," + nm(y) + "],[" + nm(x + w) + "," + nm(y) + "],[" + nm(x + w) + "," + nm(y + h) + "],[" + nm(x) + "," + nm(y + h) + "]])"; auto n = leaf(t, [=](V p) { return p.x > x && p.x < x + w && p.y > y && p.y < y + h; }); SQ[n.get()] = {x, y, w, h}; return n; }
static double cr(Pt a, Pt b, Pt c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool in_hull(vector<Pt> v, double x, double y) { // gift wrapping by half planes
    if (v.size() < 3) return false;
    for (auto &a : v) for (auto &b : v) { if (a.x == b.x && a.y == b.y) continue; bool left = true; for (auto &c : v) if (cr(a, b, c) < 0) { left = false; break; } if (left && cr(a, b, {x, y}) < 0) return false; }
    return true;
}
static void pts_of(const NP &n, vector<Pt> &o) { auto i = SQ.find(n.get()); if (i != SQ.end()) { auto &q = i->second; o.push_back({q.x, q.y}); o.push_back({q.x + q.w, q.y}); o.push_back({q.x, q.y + q.h}); o.push_back({q.x + q.w, q.y + q.h}); } for (auto &c : n->c) pts_of(c, o); }
static NP hull(const vector<NP> &c) { auto n = op(FN, "hull()", c); n->fn = [](const vector<NP> &c, V p) { vector<Pt> v; for (auto &x : c) pts_of(x, v); return in_hull(v, p.x, p.y); }; return n; }
static NP rotx(const vector<NP> &c) { auto n = op(FN, "rotate_extrude($fn=4)", c); n->fn = [](const vector<NP> &c, V p) { double s = fabs(p.x) + fabs(p.y); for (auto &x : c) if (x->has({s, p.z, 0})) return true; return false; }; return n; }
static NP proj(const vector<NP> &c) { auto n = op(FN, "projection(cut=true)", c); n->fn = [](const vector<NP> &c, V p) { for (auto &x : c) if (x->has({p.x, p.y, 0})) return true; return false; }; return n; }
static NP copy(const NP &n) { auto m = std::make_shared<Node>(*n); for (auto &x : m->c) x = copy(x); auto i = SQ.find(n.get()); if (i != SQ.end()) SQ[m.get()] = i->second; return m; }
static void all(const NP &n, vector<Node *> &o) { o.push_back(n.get()); for (auto &x : n->c) all(x, o); }
static bool has(const string &s, char c) { return s.find(c) != string::npos; }
static NP strip(const NP &n) { if (has(n->mod, '*') || has(n->mod, '%')) return nullptr; auto m = std::make_shared<Node>(*n); m->c.clear(); m->mod = ""; auto i = SQ.find(n.get()); if (i != SQ.end()) SQ[m.get()] = i->second; for (auto &x : n->c) if (auto y = strip(x)) m->c.push_back(y); return m; }
static NP find_root(const NP &n) { if (has(n->mod, '!')) return n; for (auto &x : n->c) if (auto y = find_root(x)) return y; return nullptr; }
static bool in2d(const NP &n, const Node *w, bool d2, bool &res) { if (n.get() == w) { res = d2; return true; } bool d = d2; const string &h = n->head; if (h.find("_extrude") != string::npos) d = true; if (h.find("projection") == 0) d = false; for (auto &x : n->c) if (in2d(x, w, d, res)) return true; return false; }
static bool under_gone(const NP &n, const Node *w, bool gone) { if (n.get() == w) return gone; bool g = gone || has(n->mod, '*') || has(n->mod, '%'); for (auto &x : n->c) if (under_gone(x, w, g)) return true; return false; }
static vector<NP> trees(bool T) {
    auto A = [] { return Cube(0,0,0,3,2,2); }; auto B = [] { return Cube(1,1,0,3,2,1); }; auto C = [] { return Cyl(2, 1.5, 1, 4); };
    auto a = [] { return square(0,0,3,2); }; auto b = [] { return square(1,1,3,2); }; auto tr = m_translate(1, .5, .5); auto mi = m_mirror(1, 0, 0);
    vector<NP> r; typedef std::function<NP(const vector<NP> &)> F; vector<F> ops = {Union, Diff, Inter};
    for (auto &f : ops) { r.push_back(f({A(), B()})); r.push_back(f({A(), B(), C()})); for (auto &g : ops) { r.push_back(f({g({A(), B()}), C()})); r.push_back(f({A(), g({B(), C()})})); if (T) r.push_back(f({g({A(), B()}), g({C(), A()})})); } }
    for (auto &f : ops) { r.push_back(f({Xf("translate([1,.5,.5])", tr, {A(), B()}), C()})); r.push_back(f({A(), Xf("mirror([1,0,0])", mi, {B()})})); r.push_back(Xf("translate([1,.5,.5])", tr, {f({A(), B()})})); { auto n = Group({A(), C()}); n->head = "color(\"red\")"; r.push_back(f({n, B()})); }
        r.push_back(lin("linear_extrude(2)", 2, {f({a(), b()})})); r.push_back(f({lin("linear_extrude(2)", 2, {a(), b()}), C()})); r.push_back(f({A(), lin("linear_extrude(1)", 1, {hull({a(), b()})})})); r.push_back(f({rotx({a(), b()}), A()})); r.push_back(lin("linear_extrude(2)", 2, {f({proj({A(), B()}), a()})})); r.push_back(rotx({f({a(), b()})})); }
    for (auto &n : r) { auto g = Group({n}); g->k = UNION; n = g; } // the file: children of the root are the top-level statements
    return r;
}
static void one(const NP &file) {
    string t; for (auto &x : file->c) t += T(x); mc::desc_s("hob3l on: " + t); mc::sample(t);
    NP root = find_root(file), m; bool reject = false;
    if (root) { if (under_gone(file, root.get(), false)) { mc::count("'!' below '*' or '%': not specified"); return; } bool d2 = false; in2d(file, root.get(), false, d2); if (d2 && !has(root->mod, '*') && !has(root->mod, '%')) { mc::count("'!' on a 2D object: not specified"); return; } m = strip(root); if (!m) m = Group({}); else m = Group({m}); }
    else m = strip(file);
    { int n = 0; vector<Node *> v; all(file, v); for (auto x : v) n += has(x->mod, '!'); reject = n > 1; }
    spit(scr("in.scad"), t); Res r = run({"--min=.5", "--step=.5", "--max=2.6", "in.scad", "-o", "out.stl"}); mc::trans();
    if (reject) { if (!r.rejected()) mc::fail("two-roots", "two '!' must be rejected: %s", r.how().c_str()); return; }
    if (!r.ok()) { mc::fail(site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 600).c_str()); return; }
    std::map<long,Layer> ls; string why; Stl s = stl_text(slurp(scr("out.stl"))); if (!s.ok || !layers_of(s, ls, why)) { mc::fail("stl", "%s%s", s.why.c_str(), why.c_str()); return; }
    compare(*m, ls, .5, .5, 5, {-5.13, -5.17, .61, .57, 19, 19}, 2e-3);
}
void mc_main() {
    auto R = trees(mc::thorough); static const char *M[] = {"*", "%", "#", "!", "#*", "!#", "!*", "%#", "!%", "**", "!!"};
    mc::phase("every position of every modifier");
    for (auto &t : R) { vector<Node *> v; all(t, v); for (size_t i = 1; i < v.size(); i++) for (auto m : M) { if (!mc::next()) continue; v[i]->mod = m; if (string(m) == "!!") { /* repeated in one place */ } one(t); v[i]->mod = ""; } }
    mc::phase("every pair of positions of every pair of modifiers");
    for (auto &t : R) { vector<Node *> v; all(t, v); for (size_t i = 1; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) for (int p = 0; p < 4; p++) for (int q = 0; q < 4; q++) { if (!mc::next()) continue; v[i]->mod = M[p]; v[j]->mod = M[q]; one(t); v[i]->mod = v[j]->mod = ""; } }
    if (!mc::thorough) return;
    mc::phase("every three positions");
    for (auto &t : R) { vector<Node *> v; all(t, v); if (v.size() > 8) continue; for (size_t i = 1; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) for (size_t k = j + 1; k < v.size(); k++) for (int p = 0; p < 64; p++) { if (!mc::next()) continue; v[i]->mod = M[p & 3]; v[j]->mod = M[p >> 2 & 3]; v[k]->mod = M[p >> 4]; one(t); v[i]->mod = v[j]->mod = v[k]->mod = ""; } }
}
