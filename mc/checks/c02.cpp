// C02: chains of transformations against an independent matrix model.
#include "../scad.hpp"
#include "bodies.hpp"
struct T { string text; Mat m; bool d2 = false; bool exact = false; };
static vector<T> alphabet() {
    vector<T> r;
    auto tr = [&](const string &a, double x, double y, double z, bool d2) { r.push_back({"translate(" + a + ")", m_translate(x, y, z), d2, true}); };
    auto sc = [&](const string &a, double x, double y, double z, bool d2) { r.push_back({"scale(" + a + ")", m_scale(x, y, z), d2, true}); };
    auto ro = [&](double x, double y, double z) { bool e = !fmod(x, 90) && !fmod(y, 90) && !fmod(z, 90); r.push_back({"rotate(" + v3(x, y, z) + ")", m_rot(x, y, z), x == 0 && y == 0, e}); };
    auto ra = [&](double a, double x, double y, double z) { r.push_back({"rotate(" + nm(a) + "," + v3(x, y, z) + ")", m_rot_axis(a, x, y, z), x == 0 && y == 0 && z > 0, !fmod(a, 90) && (x != 0) + (y != 0) + (z != 0) == 1}); };
    auto mi = [&](const string &a, double x, double y, double z) { r.push_back({"mirror(" + a + ")", m_mirror(x, y, z), z == 0, (x != 0) + (y != 0) + (z != 0) == 1}); };
    auto mm = [&](const string &a, const Mat &m, bool d2) { r.push_back({"multmatrix(" + a + ")", m, d2, true}); };
    tr("[1,2,3]", 1, 2, 3, false); sc("[2,1,.5]", 2, 1, .5, false); ro(90, 0, 0); ro(0, 90, 0); ro(30, 45, 60); mi("[1,1,0]", 1, 1, 0); mm("[[1,.5,0,1],[0,1,0,-1],[.25,0,1,0],[0,0,0,1]]", {{{1,.5,0,1},{0,1,0,-1},{.25,0,1,0}}}, false);
    ra(60, 1, 1, 1); sc("[1,-1,1]", 1, -1, 1, true); ro(0, 0, 90); tr("[-2,1]", -2, 1, 0, true); mi("[1,2,3]", 1, 2, 3); mm("[[0,1,0],[0,0,1],[1,0,0]]", {{{0,1,0,0},{0,0,1,0},{1,0,0,0}}}, false);
    // from here on only alone and in pairs
    sc("2", 2, 2, 2, false); sc("[2,3]", 2, 3, 1, true); sc("[-1,-2,-1]", -1, -2, -1, false); sc("[1,1,-1]", 1, 1, -1, false); sc("-.5", -.5, -.5, -.5, false); sc("v=[.5,2,1]", .5, 2, 1, true);
    tr("[0,0,0]", 0, 0, 0, true); tr("v=[.5,-.25]", .5, -.25, 0, true); tr("[0,0,-7.5]", 0, 0, -7.5, false);
    for (double a : {-90., 180., 270., 360., 450., -720., 30., 120., 45., 17.5, -33.25}) { ro(a, 0, 0); ro(0, a, 0); ro(0, 0, a); ra(a, 0, 0, 1); ra(a, 0, 2, 0); ra(a, -3, 0, 0); ra(a, 1, -1, .5); }
    ro(90, 90, 0); ro(90, 0, 90); ro(0, 90, 90); ro(180, 270, 90); ro(-30, 60, 150); ro(10, 20, 30); ra(-120, 1, -1, 0); ra(120, 1, 1, 1);
    r.push_back({"rotate(45)", m_rot(0, 0, 45), true, false}); r.push_back({"rotate(a=90)", m_rot(0, 0, 90), true, true}); r.push_back({"rotate(v=[0,1,0],a=90)", m_rot(0, 90, 0), false, true}); r.push_back({"rotate(a=[0,90,90])", m_rot(0, 90, 90), false, true});
    mi("[1,0,0]", 1, 0, 0); mi("[0,1,0]", 0, 1, 0); mi("[0,0,1]", 0, 0, 1); mi("[0,-5,0]", 0, -1, 0); mi("[1,1]", 1, 1, 0); mi("v=[1,-2]", 1, -2, 0); mi("[0,1,1]", 0, 1, 1); mi("[.001,0,0]", 1, 0, 0);
    mm("[[2,0],[0,3]]", m_scale(2, 3, 1), true); mm("[[0,1],[1,0]]", {{{0,1,0,0},{1,0,0,0},{0,0,1,0}}}, true); mm("[[1,.5],[0,1]]", {{{1,.5,0,0},{0,1,0,0},{0,0,1,0}}}, true); mm("[[1,0,.5],[0,1,.5]]", {{{1,0,.5,0},{0,1,.5,0},{0,0,1,0}}}, false); mm("[[1,0,0,3],[0,1,0,4]]", m_translate(3, 4, 0), true);
    mm("m=[[1,0,0,1],[0,1,0,2],[0,0,1,3]]", m_translate(1, 2, 3), false); mm("[[1,0,0,1],[0,1],[0,0,2]]", {{{1,0,0,1},{0,1,0,0},{0,0,2,0}}}, false); mm("[[1,2,3,4],[0,1,5,6],[0,0,1,7],[0,0,0,1]]", {{{1,2,3,4},{0,1,5,6},{0,0,1,7}}}, false); mm("[[-1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0]]", m_scale(-1, 1, 1), true);
    return r;
}
static vector<Body> bodies() {
    vector<Body> r;
    r.push_back(poly({{0,0,0},{3,0,0},{.5,2,0},{.5,.5,1.5}}, {{0,1,2},{0,3,1},{1,3,2},{2,3,0}}));
    auto add = [&](NP n, vector<V> p) { string t = n->text(); t.pop_back(); r.push_back({t, [n](V q) { return n->has(q); }, p}); };
    add(Cube(0,0,0,3,2,1), box(0,0,0,3,2,1)); add(Cyl(2,1.5,.5,5), box(-1.5,-1.5,0,1.5,1.5,2)); add(Cyl(2,0,1.5,4,true), box(-1.5,-1.5,-1,1.5,1.5,1)); add(Sphere(1.5,6), box(-1.5,-1.5,-1.5,1.5,1.5,1.5));
    { vector<Path> sq = {{{0,0},{2,0},{.5,.5},{0,2}}}; r.push_back({"linear_extrude(height=1) polygon([[0,0],[2,0],[.5,.5],[0,2]])", [=](V p) { return p.z >= 0 && p.z < 1 && evenodd(sq, p.x, p.y); }, box(0,0,0,2,2,1)}); }
    r.push_back({"rotate_extrude(angle=90,$fn=1) translate([1,0]) square([1,.5])", [=](V p) { if (p.x < 0 || p.y < 0 || p.z < 0 || p.z > .5) return false; double s = p.x + p.y; return s > 1 && s < 2; }, box(0,0,0,2,2,.5)});
    // exact sphere (ellipsoid when transformed): rendered with 100 vertices per slice
    r.push_back({"sphere(1.5)", [=](V p) { return p.x*p.x + p.y*p.y + p.z*p.z < 2.25; }, box(-1.5,-1.5,-1.5,1.5,1.5,1.5)});
    return r;
}
static vector<Body> bodies2() { // 2D, extruded outside of the transformations
    vector<Body> r; vector<Path> pg = {{{0,0},{3,0},{1,1},{.5,2}}};
    r.push_back({"polygon([[0,0],[3,0],[1,1],[.5,2]])", [=](V p) { return evenodd(pg, p.x, p.y); }, box(0,0,0,3,2,1)});
    r.push_back({"square([2,1])", [=](V p) { return p.x > 0 && p.x < 2 && p.y > 0 && p.y < 1; }, box(0,0,0,2,1,1)});
    r.push_back({"circle(1.5,$fn=5)", [=](V p) { return in_ngon(p.x, p.y, 1.5, 5); }, box(-1.5,-1.5,0,1.5,1.5,1)});
    r.push_back({"hull(){polygon([[0,0],[3,0],[1,1],[.5,2]]);}", [=](V p) { vector<Path> h = {{{0,0},{3,0},{.5,2}}}; return evenodd(h, p.x, p.y); }, box(0,0,0,3,2,1)});
    r.push_back({"projection(cut=true) rotate([0,45,0]) translate([0,0,-1]) cube([2,1,2])", [=](V p) { V q = mul(m_rot(0, -45, 0), V{p.x, p.y, .0001}); return q.x > 0 && q.x < 2 && q.y > 0 && q.y < 1 && q.z > -1 && q.z < 1; }, box(0,0,0,3,2,1)});
    r.push_back({"projection(cut=true){translate([1,0,-1]) cube(2);translate([0,0,-.5]) cube([1,.5,2]);}", [=](V p) { return (p.x > 1 && p.x < 3 && p.y > 0 && p.y < 2) || (p.x > 0 && p.x <= 1 && p.y > 0 && p.y < .5); }, box(0,0,0,3,2,1)});
    return r;
}
static void go(const Body &b, const string &pre, const Mat &m, double eps) {
    double lo[3] = {1e9,1e9,1e9}, hi[3] = {-1e9,-1e9,-1e9};
    for (auto &p : b.pts) { V q = mul(m, p); double c[3] = {q.x, q.y, q.z}; for (int i = 0; i < 3; i++) lo[i] = std::min(lo[i], c[i]), hi[i] = std::max(hi[i], c[i]); }
    // binary fractions so that the layer positions are exact
    double st = std::max(1., floor((hi[2] - lo[2]) * 64 / 4)) / 64, z0 = floor(lo[2] * 64) / 64 + 1. / 128 + floor(st * 64 * .3) / 64;
    Grid g = {lo[0] - .11, lo[1] - .13, (hi[0] - lo[0] + .2) / 12, (hi[1] - lo[1] + .2) / 12, 13, 13};
    auto n = leaf(b.text, b.in); NP t = Xf(pre, m, {n});
    // text: the chain applied directly
    string text = pre + " " + b.text + ";"; vector<string> a = {"--min=" + nm(z0), "--step=" + nm(st), "--max=" + nm(hi[2] + .001)};
    mc::desc_s("hob3l" + jargs(a) + " on: " + text); mc::sample(text);
    std::map<long,Layer> ls; Info inf; if (!stl_run(text, a, ls, inf)) return;
    compare(*t, ls, z0, st, std::max(1L, (long)floor((hi[2] + .001 - z0) / st + 1e-9) + 1), g, eps);
}
static double EPS(const Body &b) { return b.text[0] == 's' && b.text.find("fn") == string::npos && b.text[1] == 'p' ? 0.02 : 2e-3; }
static void go2(const Body &b, const string &pre, const Mat &m) {
    double lo[2] = {1e9,1e9}, hi[2] = {-1e9,-1e9}; for (auto &p : b.pts) { V q = mul(m, p); lo[0] = std::min(lo[0], q.x), hi[0] = std::max(hi[0], q.x), lo[1] = std::min(lo[1], q.y), hi[1] = std::max(hi[1], q.y); }
    Grid g = {lo[0] - .11, lo[1] - .13, (hi[0] - lo[0] + .2) / 16, (hi[1] - lo[1] + .2) / 16, 17, 17}; auto in = b.in; Mat inv = inverse(m);
    auto n = leaf("linear_extrude(1) " + pre + " " + b.text, [=](V p) { return p.z >= 0 && p.z < 1 && in(mul(inv, V{p.x, p.y, 0})); }); mc::sample(n->text()); check_model(*n, {"--min=.5", "--step=1"}, g, 3e-3);
}
void mc_main() {
    auto A = alphabet(); auto B = bodies(); auto B2 = bodies2(); const size_t K = 13;
    { mc::phase("one transformation on each body"); for (auto &b : B) for (auto &t : A) if (mc::next()) go(b, t.text, t.m, EPS(b)); }
    { mc::phase("pairs of transformations on each body"); for (size_t k = 0; k < B.size(); k++) { size_t L = k == 0 || mc::thorough ? A.size() : K + 6; for (size_t i = 0; i < L; i++) for (size_t j = 0; j < L; j++) if (mc::next()) go(B[k], A[i].text + A[j].text, mul(A[i].m, A[j].m), EPS(B[k])); } }
    { mc::phase("triples of transformations"); for (size_t k = 0; k < (mc::thorough ? B.size() : 2); k++) for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) for (size_t l = 0; l < K; l++) if (mc::next()) go(B[k], A[i].text + A[j].text + A[l].text, mul(A[i].m, mul(A[j].m, A[l].m)), EPS(B[k])); }
    if (mc::thorough) { mc::phase("chains of four transformations"); for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) for (size_t l = 0; l < K; l++) for (size_t o = 0; o < K; o++) if (mc::next()) go(B[0], A[i].text + A[j].text + A[l].text + A[o].text, mul(mul(A[i].m, A[j].m), mul(A[l].m, A[o].m)), 3e-3); }
    { mc::phase("2D transformations below an extrusion"); vector<T> D; for (auto &t : A) if (t.d2) D.push_back(t);
      for (auto &b : B2) { for (auto &t : D) if (mc::next()) go2(b, t.text, t.m); for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < D.size(); j++) { if (!mc::thorough && (i >= 18 || j >= 18)) continue; if (mc::next()) go2(b, D[i].text + D[j].text, mul(D[i].m, D[j].m)); } } }
    { mc::phase("3D transformations of 2D bodies below an extrusion"); // what is below the extrusion is flat: height has no influence
      auto flat = [](Mat m) { for (int i = 0; i < 2; i++) m.m[i][2] = m.m[2][i] = 0; m.m[2][2] = 1; m.m[2][3] = 0; return m; };
      for (auto &b : B2) { for (auto &t : A) if (!t.d2 && fabs(det(flat(t.m))) > .01 && mc::next()) go2(b, t.text, flat(t.m));
          for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++) { if (!mc::thorough && (i >= 13 || j >= 13)) continue; Mat m = mul(A[i].m, A[j].m); if ((!A[i].d2 || !A[j].d2) && fabs(det(flat(m))) > .01 && mc::next()) go2(b, A[i].text + A[j].text, flat(m)); } } }
    { mc::phase("exact vertices"); // chains without irrational entries: the vertices in the dump are the exact numbers
      vector<T> D; for (auto &t : A) if (t.exact) D.push_back(t);
      auto &b = B[0];
      auto ex = [&](const string &pre, const Mat &m) {
          mc::desc_s("hob3l --dump-csg3 on: " + pre + b.text); spit(scr("in.scad"), pre + " " + b.text + ";"); Res r = run({"--dump-csg3", "in.scad"}); if (!r.ok()) { mc::fail("exact:" + site(r), "%s %s", r.how().c_str(), r.err.c_str()); return; }
          size_t p = r.so.find("points=["); if (p == string::npos) { mc::fail("exact:no-points", "%s", r.so.c_str()); return; } const char *s = r.so.c_str() + p + 8;
          string sig; for (auto &q : b.pts) { V e = mul(m, q); double x, y, z; int n = 0; if (sscanf(s, "[%lf,%lf,%lf]%n", &x, &y, &z, &n) < 3) { mc::fail("exact:syntax", "%s", r.so.c_str()); return; } s += n; if (*s == ',') s++;
              mc::trans(); sig += v3(e.x, e.y, e.z); if (x != e.x || y != e.y || z != e.z) { mc::fail("inexact", "expected vertex %s, found %s", v3(e.x, e.y, e.z).c_str(), v3(x, y, z).c_str()); return; } }
          mc::state(mc::hash(sig)); };
      for (auto &t : D) if (mc::next()) ex(t.text, t.m);
      for (auto &t : D) for (auto &u : D) if (mc::next()) ex(t.text + u.text, mul(t.m, u.m));
      // sines and cosines of 30 degrees are exact
      auto h = [&](const string &t, const Mat &m, int comp, double e) { if (!mc::next()) return; mc::desc_s("hob3l --dump-csg3 on: " + t); (void)m; spit(scr("in.scad"), t + "polyhedron(points=[[2,0,0],[0,2,0],[0,0,2],[0,0,0]],faces=[[0,1,2],[0,1,3],[1,2,3],[0,2,3]]);"); Res r = run({"--dump-csg3", "in.scad"}); double c[12]; size_t p = r.so.find("points=["); const char *s = p == string::npos ? "" : r.so.c_str() + p; if (!r.ok() || sscanf(s, "points=[[%lf,%lf,%lf],[%lf,%lf,%lf],[%lf,%lf,%lf],[%lf,%lf,%lf]", c,c+1,c+2,c+3,c+4,c+5,c+6,c+7,c+8,c+9,c+10,c+11) != 12) { mc::fail("exact:" + site(r), "%s", r.err.c_str()); return; } mc::state(mc::hash(t)); if (c[comp] != e) mc::fail("inexact", "expected %g, found %.17g", e, c[comp]); };
      for (int k = -3; k <= 3; k++) for (int s : {30, 150, 210, 330}) { double sn = sind(s), a = s + 360. * k; h("rotate([0,0," + nm(a) + "])", unit(), 1, 2 * sn); h("rotate([" + nm(a) + ",0,0])", unit(), 5, 2 * sn); h("rotate([0," + nm(a) + ",0])", unit(), 6, 2 * sn); h("rotate(" + nm(a) + ")", unit(), 1, 2 * sn); double b2 = a + 90; h("rotate([0,0," + nm(b2) + "])", unit(), 0, 2 * cosd(b2)); }
    }
    { mc::phase("transformations that cannot be inverted");
      for (const char *t : {"scale(0)", "scale([0,1,1])", "scale([1,0,1])", "scale([1,1,0])", "scale([0,1])", "multmatrix([[1,0,0,0],[1,0,0,0],[0,0,1,0],[0,0,0,1]])", "multmatrix([[0,0],[0,0]])", "multmatrix([[1,2,3],[4,5,6],[7,8,9]])", "mirror([0,0,0])", "mirror([0,0])", "multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,2]])", "multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[1,0,0,1]])", "multmatrix(1)", "multmatrix([1,2])", "multmatrix([])", "multmatrix([[1],[1]])", "multmatrix([[1,0,0,0,0],[0,1,0,0,0]])", "translate(1)", "translate([1])", "translate([1,2,3,4])", "translate()", "rotate()", "rotate([1,2])", "rotate([1,2,3],[0,0,1])", "scale()", "mirror(1)", "scale([1])", "rotate(90,1)", "rotate(\"x\")", "translate([1,2,undef])"}) {
          if (!mc::next()) continue; bool coll = strstr(t, "scale(0)") || strstr(t, "scale([0") || strstr(t, "scale([1,0") || strstr(t, "scale([1,1,0") || (strstr(t, "multmatrix([[") && !strstr(t, "[0,0,0,2]") && !strstr(t, "[1,0,0,1]") && !strstr(t, "[1],") && !strstr(t, ",0,0,0,0]"));
          mc::desc_s(string("hob3l --dump-csg3 [--collapse=...] on: ") + t + " cube(1);"); spit(scr("in.scad"), string(t) + " cube(1);cube(2);"); mc::state(mc::hash(string(t)));
          Res r = run({"--dump-csg3", "in.scad"}); if (!r.rejected() || r.err.find("Error") == string::npos) { mc::fail("not-rejected", "%s %s", r.how().c_str(), r.err.c_str()); continue; }
          Res w = run({"--collapse=ignore", "--dump-csg3", "in.scad"}); if (coll ? !w.ok() : !w.rejected()) mc::fail("collapse-policy", "with --collapse=ignore: %s %s", w.how().c_str(), w.err.c_str()); } }
}
