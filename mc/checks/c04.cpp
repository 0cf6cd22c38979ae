// C04: linear_extrude, rotate_extrude, hull and projection against their documented solids.
#include "../scad.hpp"
#include "bodies.hpp"
static string pts_text(const Path &p) { string s = "["; for (size_t i = 0; i < p.size(); i++) s += (i ? ",[" : "[") + nm(p[i].x) + "," + nm(p[i].y) + "]"; return s + "]"; }
// 2D shape: text, outline paths (disjoint)
struct Shape { string text; vector<Path> ps; };
// paths turned so that the area is on the left
static vector<Path> oriented(vector<Path> ps) {
    auto all = ps; for (auto &p : ps) { Pt a = p[0], b = p[1]; double l = hypot(b.x - a.x, b.y - a.y), k = 1e-5; double X = (a.x + b.x) / 2 - (b.y - a.y) / l * k + 1e-9, Y = (a.y + b.y) / 2 + (b.x - a.x) / l * k + 1e-9; if (!evenodd(all, X, Y)) std::reverse(p.begin(), p.end()); }
    return ps;
}
struct Lin { double h = 1; bool c = false; long sl = 1; double tw = 0, sx = 1, sy = 1; };
static vector<Path> lin_section(const vector<Path> &op, const Lin &l, double z) {
    double t = (z + (l.c ? l.h / 2 : 0)) / l.h * (double)l.sl; long k = (long)floor(t); if (k < 0) k = 0; if (k >= l.sl) k = l.sl - 1; double f = t - (double)k;
    bool cone = l.sx == 0;
    auto at = [&](long k2, Pt p) { double u = (double)k2 / (double)l.sl, c = cosd(-l.tw * u), s = sind(-l.tw * u); double x = p.x * c - p.y * s, y = p.x * s + p.y * c; return Pt{x * (1 + (l.sx - 1) * u), y * (1 + (l.sy - 1) * u)}; };
    auto lerp = [&](Pt a, Pt b) { return Pt{a.x + (b.x - a.x) * f, a.y + (b.y - a.y) * f}; };
    vector<Path> r;
    for (auto &p : op) { Path q; size_t n = p.size(); for (size_t j = 0; j < n; j++) {
            Pt a = p[j], b = p[(j + 1) % n], a0 = at(k, a), a1 = at(k + 1, a), b0 = at(k, b), b1 = at(k + 1, b), va = lerp(a0, a1), vb = lerp(b0, b1); q.push_back(va);
            if (l.tw != 0 && !(cone && k == l.sl - 1)) { Pt d = lerp(a0, b1), e = lerp(b0, a1); double cr = (vb.x - va.x) * (d.y - va.y) - (vb.y - va.y) * (d.x - va.x); q.push_back(cr > 0 ? d : e); } }
        r.push_back(q); }
    return r;
}
// Does a broken side face have its inward diagonal where a plain twist has it?  (With different scales in x and y it may not.)
static bool plain_twist(const vector<Path> &op, const Lin &l) {
    if (l.tw == 0 || l.sx == l.sy) return true;
    for (long k = 0; k < l.sl; k++) for (auto &p : op) for (size_t j = 0; j < p.size(); j++) { auto e = [&](long k2) { Pt a = p[j], b = p[(j + 1) % p.size()]; double u = (double)k2 / (double)l.sl, c = cosd(-l.tw * u), s = sind(-l.tw * u), x = b.x - a.x, y = b.y - a.y; return Pt{(x * c - y * s) * (1 + (l.sx - 1) * u), (x * s + y * c) * (1 + (l.sy - 1) * u)}; }; Pt a = e(k), b = e(k + 1); if ((a.x * b.y - a.y * b.x) * (l.tw > 0 ? -1 : 1) <= 1e-9) return false; }
    return true;
}
static vector<Shape> shapes() {
    vector<Shape> r; auto P = [&](const Path &p) { r.push_back({"polygon(" + pts_text(p) + ");", {p}}); };
    P({{0,0},{2,0},{.5,1.5}}); P({{1,1},{3,1},{3,2},{2,2},{2,3},{1,3}}); P({{-1,-1},{1,-1},{1,1},{-1,1}}); P({{-2,-.5},{0,-2},{2,-.5},{0,.5}}); P({{0,2},{-1,0},{1,0}});
    Path sq = {{-2,-2},{2,-2},{2,2},{-2,2}}, ho = {{-1,-1},{1,-1},{1,1},{-1,1}}, is = {{-.5,-.5},{.5,-.5},{.5,.5},{-.5,.5}}, fa = {{3,0},{4,0},{4,1},{3,1}};
    r.push_back({"difference(){square(4,true);square(2,true);}", {sq, ho}});
    r.push_back({"polygon(points=[[-2,-2],[2,-2],[2,2],[-2,2],[-1,-1],[1,-1],[1,1],[-1,1]],paths=[[0,1,2,3],[4,5,6,7]]);", {sq, ho}});
    r.push_back({"union(){difference(){square(4,true);square(2,true);}square(1,true);}", {sq, ho, is}});
    r.push_back({"square(1,true);translate([3,0])square(1);", {is, fa}});
    r.push_back({"square(2);translate([1,1])square(2);", {{{0,0},{2,0},{2,1},{3,1},{3,3},{1,3},{1,2},{0,2}}}});
    r.push_back({"intersection(){square(3);translate([1,1])square(3);}", {{{1,1},{3,1},{3,3},{1,3}}}});
    r.push_back({"difference(){translate([-1,-1])square(3);translate([1,0])square([2,1]);}", {{{-1,-1},{2,-1},{2,0},{1,0},{1,1},{2,1},{2,2},{-1,2}}}});
    r.push_back({"polygon(points=[[0,0],[2,0],[2,2],[0,2],[1,1],[3,1],[3,3],[1,3]],paths=[[0,1,2,3],[4,5,6,7]]);", {{{0,0},{2,0},{2,1},{1,1},{1,2},{0,2}},{{2,1},{3,1},{3,3},{1,3},{1,2},{2,2}}}}); // overlap counts twice
    r.push_back({"circle(2,$fn=5);", {ngon(2, 5)}});
    return r;
}
static void bounds(const vector<Path> &ps, double &lx, double &ly, double &hx, double &hy) { lx = ly = 1e9; hx = hy = -1e9; for (auto &p : ps) for (auto &v : p) lx = std::min(lx, v.x), ly = std::min(ly, v.y), hx = std::max(hx, v.x), hy = std::max(hy, v.y); }
static Solid lin(const Shape &s, const Lin &l, const string &args) {
    auto op = std::make_shared<vector<Path>>(oriented(s.ps)); double z0 = l.c ? -l.h / 2 : 0, R = 0; for (auto &p : s.ps) for (auto &v : p) R = std::max(R, hypot(v.x, v.y)); double lx, ly, hx, hy; bounds(s.ps, lx, ly, hx, hy);
    double sx = std::max(1., l.sx), sy = std::max(1., l.sy); if (l.tw != 0) { lx = ly = -R; hx = hy = R; } lx = std::min(lx, lx * sx); hx = std::max(hx, hx * sx); ly = std::min(ly, ly * sy); hy = std::max(hy, hy * sy); if (l.sx == 0) lx = std::min(lx, 0.), ly = std::min(ly, 0.), hx = std::max(hx, 0.), hy = std::max(hy, 0.);
    auto cz = std::make_shared<double>(1e99); auto cs = std::make_shared<vector<Path>>();
    return {"linear_extrude(" + args + "){" + s.text + "}", [=](V p) { if (p.z < z0 || p.z >= z0 + l.h) return false; if (*cz != p.z) { *cz = p.z; *cs = lin_section(*op, l, p.z); } return evenodd(*cs, p.x, p.y); }, {lx, ly, z0}, {hx, hy, z0 + l.h}, nullptr};
}
static string largs(const Lin &l, int form) {
    string sc = form & 1 || l.sx != l.sy ? "[" + nm(l.sx) + "," + nm(l.sy) + "]" : nm(l.sx); vector<string> v; string h = form & 2 ? "height=" + nm(l.h) : nm(l.h);
    if (!(form & 2)) v.push_back(h); if (l.c || form & 4) v.push_back(string("center=") + (l.c ? "true" : "false")); if (l.tw != 0 || form & 4) v.push_back("twist=" + nm(l.tw)); if (l.sl != 1 || form & 4) v.push_back("slices=" + std::to_string(l.sl)); if (l.sx != 1 || l.sy != 1 || form & 4) v.push_back("scale=" + sc); if (form & 2) v.push_back(h); if (form & 8) v.push_back("convexity=4,$fn=7");
    string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s;
}
static void linext() {
    auto S = shapes(); double scs[][2] = {{1,1},{2,2},{.5,.5},{2,.5},{1,3},{0,0}};
    auto one = [&](const Shape &s, const Lin &l, int form) { if (!plain_twist(oriented(s.ps), l)) return; if (mc::next()) check_solid(lin(s, l, largs(l, form)), {}, l.sl > 2 ? 9 : 6, 15, 2.5e-3); };
    { mc::phase("linear_extrude: height, center, scale, slices"); for (auto &s : S) for (double h : {1., 2.5, 5.}) for (int c = 0; c < 2; c++) for (auto &sc : scs) for (long sl : {1L, 2L, 5L}) { Lin l; l.h = h; l.c = c; l.sl = sl; l.sx = sc[0]; l.sy = sc[1]; one(s, l, (int)(sl + c * 2 + (h > 2 ? 4 : 0)) & 15); } }
    { mc::phase("linear_extrude: twist"); for (auto &s : S) for (double tw : {30., -30., 45., 90., -90., 120., -100., 180., -180., 360., -720.}) for (auto &sc : scs) for (long sl : {1L, 2L, 3L, 6L, 10L}) { if (fabs(tw) / (double)sl > (mc::thorough ? 150 : 120) || (sc[0] != sc[1] && fabs(tw) / (double)sl > 45)) continue; for (int c = 0; c < (mc::thorough ? 2 : 1); c++) { Lin l; l.h = 2; l.c = c; l.sl = sl; l.tw = tw; l.sx = sc[0]; l.sy = sc[1]; one(s, l, (int)sl & 15); } } }
    { mc::phase("linear_extrude: argument forms"); for (int form = 0; form < 16; form++) for (int c = 0; c < 2; c++) for (double tw : {0., 60.}) for (double sc : {1., .5}) { Lin l; l.h = 3; l.c = c; l.tw = tw; l.sx = l.sy = sc; l.sl = 2; one(S[1], l, form); } 
    }
    { mc::phase("linear_extrude: negative scale that is not an error"); double neg[][2] = {{-1,-1},{-2,0},{0,-.5},{-.25,-3}}; for (auto &s : S) for (auto &sc : neg) for (long sl : {1L, 2L, 5L}) for (double tw : {0., 30.}) for (const char *po : {"--empty=ignore", "--empty=warn"}) { Lin l; l.h = 2; l.sl = sl; l.tw = tw; l.sx = l.sy = 0; if (!plain_twist(oriented(s.ps), l) || !mc::next()) continue;
        Lin k = l; k.sx = sc[0]; k.sy = sc[1]; check_solid(lin(s, l, largs(k, 0)), {po}, 9, 15, 2.5e-3); } }
}
static void rotext() {
    struct P { string text; vector<Path> ps; };
    vector<P> S; auto add = [&](const Path &p) { S.push_back({"polygon(" + pts_text(p) + ");", {p}}); };
    add({{1,0},{2,0},{2,1},{1,1}}); add({{0,0},{2,0},{1,1}}); add({{0,0},{1,0},{1,2},{0,2}}); add({{0,-1},{2,0},{0,1}}); add({{1,0},{3,1},{2,3},{1.5,1}}); add({{0,0},{2,1},{2,-1}}); add({{0,0},{1,0},{.5,1},{1,2},{0,2}}); add({{2,0},{1,1},{0,0},{1,-1}});
    { Path a = {{1,0},{4,0},{4,3},{1,3}}, b = {{2,1},{3,1},{3,2},{2,2}}; S.push_back({"difference(){translate([1,0])square(3);translate([2,1])square(1);}", {a, b}}); S.push_back({"translate([1,0])square(3);translate([5,1])square(1);", {a, {{5,1},{6,1},{6,2},{5,2}}}}); }
    size_t pos = S.size();
    add({{-1,0},{-2,0},{-2,1},{-1,1}}); add({{0,0},{-2,0},{-1,1}}); add({{0,-1},{-2,0},{0,1}});
    auto one = [&](size_t i, double A, long n, const string &args, const vector<string> &o) {
        if (!mc::next()) return; auto ps = S[i].ps; double lx, ly, hx, hy; bounds(ps, lx, ly, hx, hy); double R = std::max(fabs(lx), fabs(hx)); bool full = A >= 360; double st = (full ? 360 : A) / (double)n;
        check_solid({"rotate_extrude(" + args + "){" + S[i].text + "}", [=](V p) {
            double a = atan2(p.y, p.x) * 180 / M_PI; if (i >= pos) a += 180; if (full) a -= 180; a = fmod(a + 720, 360); if (a >= (double)n * st) return false; double mid = (floor(a / st) + .5) * st; a = (a - mid) * M_PI / 180; double rho = hypot(p.x, p.y) * cos(a) / cos(st * M_PI / 360); return evenodd(ps, i >= pos ? -rho : rho, p.z); }, {-R,-R,ly}, {R,R,hy}, nullptr}, o, 4, n > 20 ? 27 : 17, 2.5e-3); };
    { mc::phase("rotate_extrude: full"); for (size_t i = 0; i < S.size(); i++) for (long fn : {3L, 4L, 5L, 6L, 7L, 8L, 12L, 20L}) { if (i >= pos && fn % 2) continue; one(i, 360, fn, "$fn=" + std::to_string(fn), {}); one(i, 360, fn, "angle=360,$fn=" + std::to_string(fn), {}); one(i, 400, fn, "$fn=" + std::to_string(fn) + ",convexity=2,angle=400", {}); } }
    { mc::phase("rotate_extrude: number of steps"); for (size_t i : {0u, 1u, 9u}) { one(i, 360, 100, "", {}); one(i, 360, 100, "$fn=0", {}); one(i, 360, 100, "$fn=1000", {}); one(i, 360, 12, "$fn=50", {"--max-fn=12"}); one(i, 360, 3, "$fn=1", {}); one(i, 360, 3, "$fn=2", {}); one(i, 180, 2, "angle=180,$fn=1", {}); one(i, 270, 2, "angle=270,$fn=1", {}); one(i, 90, 1, "angle=90,$fn=1", {}); one(i, 90, 100, "angle=90", {}); one(i, 90, 7, "angle=90,$fn=9", {"--max-fn=7"}); one(i, 179, 1, "angle=179,$fn=1", {}); } }
    { mc::phase("rotate_extrude: arcs"); for (size_t i = 0; i < S.size(); i++) for (double A : {30., 45., 90., 120., 150., 180., 200., 270., 300., 350., 17.5}) for (long fn : {1L, 2L, 3L, 5L, 8L, 12L}) { if (fn < 2 && A >= 180) continue; if (A / (double)fn > 150) continue; one(i, A, fn, "angle=" + nm(A) + ",$fn=" + std::to_string(fn), {}); } }
}
static double cross(Pt o, Pt a, Pt b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
static Path hull_of(vector<Pt> p) {
    std::sort(p.begin(), p.end(), [](Pt a, Pt b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); Path h; 
    for (int pass = 0; pass < 2; pass++) { size_t base = h.size(); for (auto &q : p) { while (h.size() >= base + 2 && cross(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); }
    return h;
}
static void hull() {
    auto one = [&](const string &t, const vector<Pt> &p, const string &pre = "", Mat m = unit()) { if (!mc::next()) return; Path h = hull_of(p); for (auto &q : h) { V v = mul(m, V{q.x, q.y, 0}); q = {v.x, v.y}; } vector<Path> hs = {h}; double lx, ly, hx, hy; bounds(hs, lx, ly, hx, hy);
        check_solid({"linear_extrude(1){" + pre + "hull(){" + t + "}}", [=](V v) { return v.z >= 0 && v.z < 1 && evenodd(hs, v.x, v.y); }, {lx, ly, 0}, {hx, hy, 1}, [=](double) { return h; }}, {}, 1, 13, 2e-3); };
    { mc::phase("hull: every set of small squares on a grid"); for (int m = 1; m < 512; m++) { string t; vector<Pt> p; for (int i = 0; i < 9; i++) if (m >> i & 1) { double x = i % 3, y = i / 3; t += "translate([" + nm(x) + "," + nm(y) + "])square(.5);"; p.insert(p.end(), {{x,y},{x+.5,y},{x,y+.5},{x+.5,y+.5}}); } one(t, p); } }
    vector<Pt> g; for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) g.push_back({(double)x, (double)y});
    vector<Path> T; for (size_t a = 0; a < 9; a++) for (size_t b = a + 1; b < 9; b++) for (size_t c = b + 1; c < 9; c++) if (cross(g[a], g[b], g[c]) != 0) T.push_back({g[a], g[b], g[c]});
    { mc::phase("hull: triangles and pairs of triangles"); for (auto &t : T) { one("polygon(" + pts_text(t) + ");", t); one("polygon(" + pts_text(t) + ");", t, "rotate(90)translate([1,2])", mul(m_rot(0,0,90), m_translate(1,2,0))); one("polygon(" + pts_text(t) + ");", t, "mirror([1,1])scale([2,.5])", mul(m_mirror(1,1,0), m_scale(2,.5,1))); }
      for (size_t i = 0; i < T.size(); i++) for (size_t j = i + 1; j < T.size(); j++) { vector<Pt> p = T[i]; p.insert(p.end(), T[j].begin(), T[j].end()); one("polygon(" + pts_text(T[i]) + ");translate([0,0])polygon(" + pts_text(T[j]) + ");", p); } }
    { mc::phase("hull: of results"); // hull sees the area of its children, not their outlines
      one("difference(){square(4);translate([-1,-1])square([2,9]);}", {{1,0},{4,0},{4,4},{1,4}}); one("intersection(){square(4);translate([1,1])square(9);}", {{1,1},{4,1},{4,4},{1,4}}); one("difference(){square(4);translate([3,3])square(2);}", {{0,0},{4,0},{4,3},{3,4},{0,4}}); one("hull(){square(1);translate([3,3])square(1);}square(.5);", {{0,0},{1,0},{4,3},{4,4},{3,4},{0,1}}); one("hull(){}square(1);", {{0,0},{1,0},{1,1},{0,1}}); one("circle(2,$fn=7);", ngon(2, 7)); one("projection(cut=true)translate([1,1,-1])cube(2);square(1);", {{0,0},{1,0},{0,1},{3,1},{3,3},{1,3}}); one("translate([1,1])square(2);rotate(90)square(1);", {{1,1},{3,1},{3,3},{1,3},{0,0},{-1,0},{-1,1},{0,1}}); one("difference(){circle(3,$fn=6);square(1,true);}", ngon(3, 6)); one("polygon([[0,0],[4,0],[1,1],[0,4]]);", {{0,0},{4,0},{0,4}}); one("color(\"red\")square(1);group(){translate([2,0])square(1);}", {{0,0},{3,0},{3,1},{0,1}}); }
    { mc::phase("hull of nothing"); for (const char *t : {"hull(){}", "hull(){intersection(){square(1);translate([3,3])square(1);}}", "hull(){difference(){square(1);square(2);}}", "intersection(){hull(){intersection(){square(1);translate([3,3])square(1);}}square(9);}"}) { if (!mc::next()) continue; string s = string("linear_extrude(1){") + t + "translate([5,5])square(1);}"; check_solid({s, [](V v) { return v.z >= 0 && v.z < 1 && v.x > 5 && v.x < 6 && v.y > 5 && v.y < 6; }, {0,0,0}, {6,6,1}, nullptr}, {}, 1, 9, 1e-3); } }
}
static void projection() {
    struct B { string t; std::function<bool(V)> in; };
    vector<B> S; 
    auto add = [&](NP n) { S.push_back({n->text(), [n](V p) { return n->has(p); }}); };
    add(Cube(0,0,-1,2,3,2)); add(Cube(1,1,-.5,1,1,3)); add(Sphere(2,6)); add(Xf("translate([0,0,.7])", m_translate(0,0,.7), {Sphere(2,7)})); add(Xf("rotate([0,30,0])", m_rot(0,30,0), {Cube(-1,-1,-1,2,2,2)})); add(Xf("rotate([45,0,20])", m_rot(45,0,20), {Cube(-1,-1,-1,2,2,2)})); add(Cyl(4,2,1,5,true)); add(Cube(0,0,1,2,2,2)); add(Cube(0,0,-3,2,2,2)); add(Diff({Cube(-2,-2,-2,4,4,4), Cube(-1,-1,-1,2,2,2)})); add(Diff({Cube(-2,-2,-2,4,4,4), Cube(-1,-1,1,2,2,2)})); add(Inter({Cube(-2,-2,-2,3,3,4), Cube(-1,-1,-1,3,3,3)})); add(Union({Cube(-2,-2,-2,3,3,4), Cube(0,0,-1,2,2,2)})); add(Xf("mirror([0,0,1])", m_mirror(0,0,1), {Xf("translate([0,0,-1.5])", m_translate(0,0,-1.5), {Cyl(3,2,.5,4)})}));
    { vector<Path> tri = {{{0,0},{2,0},{.5,2}}}; S.push_back({"translate([0,0,-1])linear_extrude(2)polygon([[0,0],[2,0],[.5,2]]);", [=](V p) { return p.z > -1 && p.z < 1 && evenodd(tri, p.x, p.y); }}); S.push_back({"rotate([90,0,0])linear_extrude(2,center=true)polygon([[0,-1],[2,-1],[.5,2]]);", [=](V p) { vector<Path> t2 = {{{0,-1},{2,-1},{.5,2}}}; return fabs(p.y) < 1 && evenodd(t2, p.x, p.z); }}); }
    struct X { string t; Mat m; }; vector<X> X2 = {{"", unit()}, {"translate([1,-.5])", m_translate(1,-.5,0)}, {"rotate(30)", m_rot(0,0,30)}, {"scale([2,.5])", m_scale(2,.5,1)}, {"mirror([1,0])", m_mirror(1,0,0)}, {"rotate(90)translate([1,1])", mul(m_rot(0,0,90), m_translate(1,1,0))}, {"multmatrix([[1,.5],[0,1]])", {{{1,.5,0,0},{0,1,0,0},{0,0,1,0}}}}};
    auto run2 = [&](const string &s2, std::function<bool(V)> in2, const Mat &m) { Mat inv = inverse(m); check_solid({"linear_extrude(1)" + s2, [=](V p) { if (p.z < 0 || p.z >= 1) return false; V q = mul(inv, V{p.x, p.y, 0}); q.z = 1e-5; return in2(q); }, {-5,-5,0}, {5,5,1}, nullptr}, {}, 1, 25, 3e-3); };
    { mc::phase("projection: bodies below and above 2D transformations"); for (auto &x : X2) for (auto &b : S) if (mc::next()) run2(x.t + "projection(cut=true)" + b.t, b.in, x.m); }
    { mc::phase("projection: pairs, boolean operations, forms"); for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S.size(); j++) { auto a = S[i].in, b = S[j].in; if (mc::next()) run2("projection(cut=true){" + S[i].t + S[j].t + "}", [=](V p) { return a(p) || b(p); }, unit()); if (mc::next()) run2("projection(true,convexity=2)intersection(){" + S[i].t + S[j].t + "}", [=](V p) { return a(p) && b(p); }, unit()); if (mc::next()) run2("difference(){projection(convexity=3,cut=true)" + S[i].t + "projection(true)" + S[j].t + "}", [=](V p) { return a(p) && !b(p); }, unit()); if (mc::thorough && mc::next()) run2("projection(cut=true)difference(){" + S[i].t + S[j].t + "}", [=](V p) { return a(p) && !b(p); }, unit()); } }
    { mc::phase("projection(cut=false)"); for (const char *t : {"projection()", "projection(cut=false)", "projection(false)"}) { if (!mc::next()) continue; mc::desc_s(t); spit(scr("in.scad"), string("linear_extrude(1)") + t + "translate([0,0,-1])cube(2);"); Res r = run({"in.scad", "-o", "out.stl"}); mc::state(mc::hash(string(t))); if (!r.rejected()) mc::fail("not-rejected", "%s %s", r.how().c_str(), r.err.c_str()); } }
}
// boolean trees of 2D shapes below an extrusion, nested extrusions and projections
static void trees() {
    auto sq = [](double x, double y, double w, double h) { return leaf("translate([" + nm(x) + "," + nm(y) + "])square([" + nm(w) + "," + nm(h) + "])", [=](V p) { return p.x > x && p.x < x + w && p.y > y && p.y < y + h; }); };
    vector<Path> ov = {{{0,0},{3,0},{0,3}}, {{1,1},{3,3},{0,2}}};
    vector<NP> L = {sq(0,0,2,2), sq(1,1,2,2), leaf("circle(1.5,$fn=5)", [](V p) { return in_ngon(p.x, p.y, 1.5, 5); }), leaf("polygon([[0,0],[3,0],[0,3],[1,1],[3,3],[0,2]],[[0,1,2],[3,4,5]])", [=](V p) { return evenodd(ov, p.x, p.y); }), Group({})};
    auto mk = [](int k, const vector<NP> &c) { return k == 0 ? Union(c) : k == 1 ? Diff(c) : Inter(c); };
    vector<NP> two; for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) two.push_back(mk(k, {a, b}));
    auto lx = [&](NP n) { auto r = leaf("linear_extrude(1)" + n->text(), [n](V p) { return p.z >= 0 && p.z < 1 && n->has({p.x, p.y, 0}); }); if (n->k == LEAF) r->head.pop_back(); return r; };
    Grid g = {-2.03, -2.07, .26, .27, 22, 22};
    { mc::phase("boolean trees of 2D shapes"); for (int k = 0; k < 3; k++) for (auto &t : two) for (auto &l : L) { if (mc::next()) check_model(*lx(mk(k, {t, l})), {"--min=.5", "--step=1"}, g, 2e-3); if (mc::next()) check_model(*lx(mk(k, {l, t})), {"--min=.5", "--step=1"}, g, 2e-3); } 
      for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) for (auto &c : L) if (mc::next()) check_model(*lx(mk(k, {a, b, c})), {"--min=.5", "--step=1"}, g, 2e-3); }
    { mc::phase("nested extrusions and projections"); for (auto &t : two) { if (mc::next()) check_model(*lx(leaf("projection(cut=true)translate([0,0,-1])linear_extrude(2)" + t->text().substr(0, t->text().size() - (t->k == LEAF)), [=](V p) { return t->has(p); })), {"--min=.5", "--step=1"}, g, 3e-3);
        if (mc::next()) check_model(*lx(leaf("projection(cut=true)rotate([90,0,0])linear_extrude(4,center=true)" + t->text().substr(0, t->text().size() - (t->k == LEAF)), [=](V p) { return fabs(p.y) < 2 && t->has({p.x, 1e-5, 0}); })), {"--min=.5", "--step=1"}, g, 3e-3); } }
    { mc::phase("transformed extrusions"); for (auto &l : L) for (auto &t : {std::make_pair(string("rotate([90,0,0])"), m_rot(90,0,0)), std::make_pair(string("mirror([0,0,1])"), m_mirror(0,0,1)), std::make_pair(string("rotate([0,45,0])"), m_rot(0,45,0)), std::make_pair(string("scale([1,-2,1])"), m_scale(1,-2,1)), std::make_pair(string("multmatrix([[1,0,.5],[0,1,.25],[0,0,1]])"), Mat{{{1,0,.5,0},{0,1,.25,0},{0,0,1,0}}})}) for (double tw : {0., 60.}) for (int cone = 0; cone < 2; cone++) {
        if (l->ign()) continue; if (!mc::next()) continue; Shape s = {l->text(), {}}; if (l == L[0]) s.ps = {{{0,0},{2,0},{2,2},{0,2}}}; else if (l == L[1]) s.ps = {{{1,1},{3,1},{3,3},{1,3}}}; else if (l == L[2]) s.ps = {ngon(1.5, 5)}; else continue; Lin li; li.h = 2; li.tw = tw; li.sl = 2; li.sx = li.sy = cone ? 0 : 1.5; Solid so = lin(s, li, largs(li, 0)); Mat inv = inverse(t.second), m = t.second; auto in = so.in; V lo = {1e9,1e9,1e9}, hi = {-1e9,-1e9,-1e9}; for (auto &p : box(so.lo.x, so.lo.y, so.lo.z, so.hi.x, so.hi.y, so.hi.z)) { V q = mul(m, p); lo = {std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z)}; hi = {std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z)}; }
        check_solid({t.first + so.text, [=](V p) { return in(mul(inv, p)); }, lo, hi, nullptr}, {}, 4, 15, 3e-3); } }
}
void mc_main() { linext(); rotext(); hull(); projection(); trees(); }
