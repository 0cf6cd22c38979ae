// Models: tree + text + exact membership, independent of the program.
#pragma once
#include "cli.hpp"
#include <memory>
#include <functional>
struct V { double x, y, z; };
struct Mat { double m[3][4]; };
static inline V mul(const Mat &a, V p) { return {a.m[0][0]*p.x + a.m[0][1]*p.y + a.m[0][2]*p.z + a.m[0][3], a.m[1][0]*p.x + a.m[1][1]*p.y + a.m[1][2]*p.z + a.m[1][3], a.m[2][0]*p.x + a.m[2][1]*p.y + a.m[2][2]*p.z + a.m[2][3]}; }
static inline Mat mul(const Mat &a, const Mat &b) { Mat r; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { r.m[i][j] = j == 3 ? a.m[i][3] : 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static inline double det(const Mat &a) { auto &m = a.m; return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static inline Mat inverse(const Mat &a) { auto &m = a.m; double d = det(a); Mat r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int i1 = (j+1)%3, i2 = (j+2)%3, j1 = (i+1)%3, j2 = (i+2)%3; r.m[i][j] = (m[i1][j1]*m[i2][j2] - m[i1][j2]*m[i2][j1]) / d; } for (int i = 0; i < 3; i++) r.m[i][3] = -(r.m[i][0]*m[0][3] + r.m[i][1]*m[1][3] + r.m[i][2]*m[2][3]); return r; }
static inline Mat unit() { return {{{1,0,0,0},{0,1,0,0},{0,0,1,0}}}; }
static inline Mat m_translate(double x, double y, double z) { return {{{1,0,0,x},{0,1,0,y},{0,0,1,z}}}; }
static inline Mat m_scale(double x, double y, double z) { return {{{x,0,0,0},{0,y,0,0},{0,0,z,0}}}; }
static inline double sind(double a) { a = fmod(a, 360); if (a < 0) a += 360; if (a == 0 || a == 180) return 0; if (a == 90) return 1; if (a == 270) return -1; if (a == 30 || a == 150) return .5; if (a == 210 || a == 330) return -.5; return sin(a * M_PI / 180); }
static inline double cosd(double a) { return sind(a + 90); }
static inline Mat m_rot_axis(double a, double X, double Y, double Z) { double l = sqrt(X*X+Y*Y+Z*Z), x = X/l, y = Y/l, z = Z/l, c = cosd(a), s = sind(a), d = 1-c; return {{{x*x*d+c, x*y*d-z*s, x*z*d+y*s, 0},{x*y*d+z*s, y*y*d+c, y*z*d-x*s, 0},{x*z*d-y*s, y*z*d+x*s, z*z*d+c, 0}}}; }
static inline Mat m_rot(double x, double y, double z) { return mul(m_rot_axis(z,0,0,1), mul(m_rot_axis(y,0,1,0), m_rot_axis(x,1,0,0))); }
static inline Mat m_mirror(double X, double Y, double Z) { double l = sqrt(X*X+Y*Y+Z*Z), x = X/l, y = Y/l, z = Z/l; return {{{1-2*x*x,-2*x*y,-2*x*z,0},{-2*x*y,1-2*y*y,-2*y*z,0},{-2*x*z,-2*y*z,1-2*z*z,0}}}; }

struct Node; typedef std::shared_ptr<Node> NP;
enum Kind { LEAF, UNION, DIFF, INTER, XF, FN };
struct Node {
    Kind k = LEAF; string head; vector<NP> c; Mat inv = unit();
    std::function<bool(V)> in;                      // LEAF
    std::function<bool(const vector<NP>&, V)> fn;   // FN: membership from the children
    string mod;
    bool ign() const { if (k == LEAF) return false; for (auto &x : c) if (!x->ign()) return false; return true; }
    bool has(V p) const {
        switch (k) {
        case LEAF: return in(p);
        case FN: return fn(c, p);
        case XF: p = mul(inv, p); // fallthrough
        case UNION: for (auto &x : c) if (x->has(p)) return true; return false;
        case DIFF: { bool first = true, r = false; for (auto &x : c) { if (first) { if (x->ign()) continue; first = false; r = x->has(p); if (!r) return false; } else if (x->has(p)) return false; } return r; }
        case INTER: { bool any = false; for (auto &x : c) { if (x->ign()) continue; any = true; if (!x->has(p)) return false; } return any; }
        }
        return false;
    }
    string text() const { string s = mod + head; if (k == LEAF) return s + ";"; s += "{"; for (auto &x : c) s += x->text(); return s + "}"; }
};
static inline NP leaf(const string &t, std::function<bool(V)> in) { auto n = std::make_shared<Node>(); n->head = t; n->in = in; return n; }
static inline NP op(Kind k, const string &h, const vector<NP> &c) { auto n = std::make_shared<Node>(); n->k = k; n->head = h; n->c = c; return n; }
static inline NP Union(const vector<NP> &c) { return op(UNION, "union()", c); }
static inline NP Group(const vector<NP> &c) { return op(UNION, "group()", c); }
static inline NP Diff(const vector<NP> &c) { return op(DIFF, "difference()", c); }
static inline NP Inter(const vector<NP> &c) { return op(INTER, "intersection()", c); }
static inline NP Xf(const string &h, const Mat &m, const vector<NP> &c) { auto n = op(XF, h, c); n->inv = inverse(m); return n; }
static inline string nm(double d) { string s = mc::strf("%.17g", d); for (int p = 1; p < 17; p++) { string t = mc::strf("%.*g", p, d); if (strtod(t.c_str(), 0) == d && (t.find('e') == string::npos || fabs(d) < 1e-4 || fabs(d) >= 1e15)) return t; } return s; }
static inline string v3(double x, double y, double z) { return "[" + nm(x) + "," + nm(y) + "," + nm(z) + "]"; }
static inline NP Cube(double x, double y, double z, double sx, double sy, double sz) {
    NP c = leaf("cube(" + v3(sx, sy, sz) + ")", [=](V p) { return p.x > 0 && p.x < sx && p.y > 0 && p.y < sy && p.z >= 0 && p.z < sz; });
    if (x == 0 && y == 0 && z == 0) return c;
    return Xf("translate(" + v3(x, y, z) + ")", m_translate(x, y, z), {c});
}
// regular polygon with one corner on the positive x axis
static inline bool in_ngon(double x, double y, double r, long n) { if (r <= 0) return false; double a = atan2(y, x), st = 2 * M_PI / (double)n; if (a < 0) a += 2 * M_PI; double k = floor(a / st), mid = (k + .5) * st; return x * cos(mid) + y * sin(mid) < r * cos(st / 2); }
static inline NP Cyl(double h, double r1, double r2, long fn, bool center = false) {
    return leaf("cylinder(" + nm(h) + "," + nm(r1) + "," + nm(r2) + (center ? ",true" : "") + ",$fn=" + std::to_string(fn) + ")", [=](V p) { double z = center ? p.z + h / 2 : p.z; if (z < 0 || z >= h) return false; return in_ngon(p.x, p.y, r1 + (r2 - r1) * z / h, fn); });
}
static inline double sphere_r(double z, double r, long fn) { long rings = (fn + 1) / 2; double pz = 0, pr = 0; for (long i = 0; i < rings; i++) { double phi = M_PI * ((double)i + .5) / (double)rings, zz = r * cos(phi), rr = r * sin(phi); if (i && z <= pz && z > zz) return pr + (rr - pr) * (pz - z) / (pz - zz); pz = zz; pr = rr; } return 0; }
static inline NP Sphere(double r, long fn) { return leaf("sphere(" + nm(r) + ",$fn=" + std::to_string(fn) + ")", [=](V p) { return in_ngon(p.x, p.y, sphere_r(p.z, r, fn), fn); }); }
// even-odd
typedef vector<Pt> Path;
static inline bool evenodd(const vector<Path> &ps, double x, double y) { bool r = false; for (auto &p : ps) for (size_t i = 0, n = p.size(); i < n; i++) { auto &a = p[i], &b = p[(i + 1) % n]; if ((a.y > y) != (b.y > y) && x < a.x + (y - a.y) * (b.x - a.x) / (b.y - a.y)) r = !r; } return r; }

// ---- comparing a run with a model ----------------------------------------------------------------
// expected membership at (x,y,z) if it is decided there: +1/0, -1 if a boundary is nearer than eps
static inline int decided_at(const Node &n, double x, double y, double z, double eps) {
    bool w = n.has({x, y, z});
    static const double d[8][3] = {{1,0,1},{-1,0,1},{0,1,0},{0,-1,1},{.7,.7,0},{-.7,.7,.5},{.7,-.7,0},{-.7,-.7,.5}};
    for (auto &k : d) if (n.has({x + eps * k[0], y + eps * k[1], z + eps * k[2]}) != w) return -1;
    return w;
}
static inline int decided_dense(const Node &n, double x, double y, double z, double eps) {
    bool w = n.has({x, y, z});
    for (int i = -4; i <= 4; i++) for (int j = 0; j < 24; j++) for (int k = 1; k <= 3; k++) { double t = i * M_PI / 8, f = j * M_PI / 12, r = eps * k / 3; if (n.has({x + r * cos(t) * cos(f), y + r * cos(t) * sin(f), z + r * sin(t)}) != w) return -1; }
    return w;
}
struct Grid { double x0, y0, dx, dy; int nx, ny; double x(int i, int j) const { return x0 + dx * (i + 0.03 * (j % 5)); } double y(int i, int j) const { return y0 + dy * (j + 0.02 * (i % 7)); } };
struct Cfg { vector<string> args; Grid g; double eps = 1e-3; double zeps = 0; };
static inline string jargs(const vector<string> &a) { string s; for (auto &x : a) s += " " + x; return s; }
// compares all layers min, min+step, ... (cnt layers) of the STL with the model
static bool compare(const Node &m, const std::map<long,Layer> &ls, double zmin, double step, long cnt, const Grid &g, double eps, const char *pre = "") {
    std::set<long> want; string sig; bool res = true;
    for (long i = 0; i < cnt && res; i++) {
        double z = zmin + step * (double)i; long q = lround(z * 1e6); auto it = ls.find(q); if (it == ls.end()) { it = ls.lower_bound(q - 2); if (it == ls.end() || it->first > q + 2) it = ls.end(); } if (it != ls.end()) want.insert(it->first);
        for (int b = 0; b < g.ny && res; b++) for (int a = 0; a < g.nx; a++) {
            double x = g.x(a, b), y = g.y(a, b); int w = decided_at(m, x, y, z, eps); mc::trans(); sig += (char)('1' + w); if (w < 0) { mc::count("undecided samples"); continue; }
            int nb = it == ls.end() ? 0 : cover(it->second.bot, x, y), nt = it == ls.end() ? 0 : cover(it->second.top, x, y);
            if (nb != w || nt != w) {
                // at the border of a triangle, or a boundary that the eight directions missed?
                bool real = decided_dense(m, x, y, z, eps) == w;
                for (int k = 0; k < 3 && real; k++) { static const double o[3][2] = {{.31,.17},{-.23,.29},{.11,-.37}}; double X = x + eps * o[k][0], Y = y + eps * o[k][1]; int b2 = it == ls.end() ? 0 : cover(it->second.bot, X, Y), t2 = it == ls.end() ? 0 : cover(it->second.top, X, Y); if (b2 == w && t2 == w) real = false; }
                if (!real) { mc::count("undecided samples"); continue; }
 mc::fail(string(pre) + (nb > 1 || nt > 1 ? "covered-twice" : w ? "missing" : "surplus"), "layer z=%g, point (%g,%g): expected %d, bottom covers it %d times, top %d times", z, x, y, w, nb, nt); res = false; break; }
        }
    }
    if (res && want.size() != ls.size()) { mc::fail(string(pre) + "layer-height", "%zu layers in the output, %zu of them at one of the %ld expected heights", ls.size(), want.size(), cnt); res = false; }
    mc::state(mc::hash(sig));
    return res;
}
// runs text -> STL and reads it back; false (and reported) if that failed
static bool stl_run(const string &text, const vector<string> &args, std::map<long,Layer> &ls, Info &inf, Stl *keep = nullptr, const char *pre = "") {
    spit(scr("in.scad"), text); vector<string> a = args; a.push_back("in.scad"); a.push_back("-o"); a.push_back("out.stl");
    Res r = run(a); if (!r.ok()) { mc::fail(string(pre) + site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 2000).c_str()); return false; }
    inf = info_of(r.err); Stl s = stl_text(slurp(scr("out.stl"))); if (!s.ok) { mc::fail(string(pre) + "stl-syntax", "%s", s.why.c_str()); return false; }
    string why; if (!layers_of(s, ls, why)) { mc::fail(string(pre) + "stl-structure", "%s", why.c_str()); return false; }
    if (keep) *keep = std::move(s);
    return true;
}
static bool check_model(const Node &n, const vector<string> &args, const Grid &g, double eps = 1e-3, const char *pre = "") {
    string t = n.text(); mc::desc_s("hob3l" + jargs(args) + " on: " + t); std::map<long,Layer> ls; Info inf;
    if (!stl_run(t, args, ls, inf, nullptr, pre)) return false;
    if (!inf.ok) { mc::fail(string(pre) + "no-info", "no layer report"); return false; }
    return compare(n, ls, inf.min, inf.step, inf.cnt, g, eps, pre);
}

// the corners of a layer are exactly these points (up to tol)?
static bool corners(const Layer &l, const vector<Pt> &want, double tol, string &why) {
    vector<Pt> have; for (auto v : {&l.bot, &l.top}) for (auto &t : *v) for (auto &p : t) have.push_back(p);
    auto near = [&](const vector<Pt> &v, Pt p) { for (auto &q : v) if (fabs(q.x - p.x) <= tol && fabs(q.y - p.y) <= tol) return true; return false; };
    for (auto &p : want) if (!near(have, p)) { why = mc::strf("no corner at (%.6g,%.6g)", p.x, p.y); return false; }
    for (auto &p : have) if (!near(want, p)) { why = mc::strf("unexpected corner at (%.6g,%.6g)", p.x, p.y); return false; }
    return true;
}
static inline vector<Pt> ngon(double r, long n) { vector<Pt> v; for (long i = 0; i < n; i++) v.push_back({r * cosd(360. * (double)i / (double)n), r * sind(360. * (double)i / (double)n)}); return v; }
// a solid known by membership and (if given) by the corners of its sections
struct Solid { string text; std::function<bool(V)> in; V lo, hi; std::function<vector<Pt>(double)> sect; };
static bool check_solid(const Solid &b, const vector<string> &extra, int nz, int ng, double eps, double tol = 1.6e-4) {
    double st = std::max(1., floor((b.hi.z - b.lo.z) * 64 / nz)) / 64, z0 = floor(b.lo.z * 64) / 64 + 1. / 128 + floor(st * 64 * .3) / 64, mx = b.hi.z + .001;
    Grid g = {b.lo.x - .11, b.lo.y - .13, (b.hi.x - b.lo.x + .2) / (ng - 1), (b.hi.y - b.lo.y + .2) / (ng - 1), ng, ng};
    vector<string> a = extra; a.push_back("--min=" + nm(z0)); a.push_back("--step=" + nm(st)); a.push_back("--max=" + nm(mx));
    mc::desc_s("hob3l" + jargs(a) + " on: " + b.text); mc::sample(b.text);
    std::map<long,Layer> ls; Info inf; if (!stl_run(b.text, a, ls, inf)) return false;
    long cnt = std::max(1L, (long)floor((mx - z0) / st + 1e-9) + 1); auto n = leaf(b.text, b.in);
    if (!compare(*n, ls, z0, st, cnt, g, eps)) return false;
    if (b.sect) for (auto &l : ls) { string why; mc::trans(); if (!corners(l.second, b.sect(l.second.z0), tol, why)) { mc::fail("corner", "layer z=%g: %s", l.second.z0, why.c_str()); return false; } }
    return true;
}
