// C05: positions, thickness and extent of the layers.
#include "../scad.hpp"
struct BB { double lo[3], hi[3]; bool ok() const { return lo[0] < hi[0] && lo[1] < hi[1] && lo[2] < hi[2]; } };
static BB none() { return {{1e9,1e9,1e9},{-1e9,-1e9,-1e9}}; }
static BB bor(BB a, const BB &b) { if (b.lo[0] <= b.hi[0]) for (int i = 0; i < 3; i++) a.lo[i] = std::min(a.lo[i], b.lo[i]), a.hi[i] = std::max(a.hi[i], b.hi[i]); return a; }
static BB band(BB a, const BB &b) { for (int i = 0; i < 3; i++) a.lo[i] = std::max(a.lo[i], b.lo[i]), a.hi[i] = std::min(a.hi[i], b.hi[i]); return a; }
struct T { NP n; BB b; };
static long expect(double mn, double mx, double st) { if (mn == mx) return 1; if (mn > mx) return 1; double q = (mx - mn) / st; long c = lround(ceil(q - 3.1e-5)); return c < 1 ? 1 : c; }
struct O { bool hmin = false, hmax = false, z = false; double min = 0, max = 0, step = .2, gap = -1; };
static vector<string> oargs(const O &o) { vector<string> a; if (o.z) a.push_back("-z=" + nm(o.min)); else { if (o.hmin) a.push_back("--min=" + nm(o.min)); if (o.hmax) a.push_back("--max=" + nm(o.max)); } if (o.step != .2) a.push_back("--step=" + nm(o.step)); if (o.gap != -1) a.push_back("--layer-gap=" + nm(o.gap)); return a; }
// the model's area at a height is asked at fixed points
static void one(const NP &n, const BB &b, const O &o, const vector<Pt> &probe, bool near_is_fine = false) {
    auto a = oargs(o); string t = n->text(); mc::desc_s("hob3l" + jargs(a) + " on: " + t); mc::sample(t);
    std::map<long,Layer> ls; Info inf; if (!stl_run(t, a, ls, inf)) return;
    bool have = b.lo[0] <= b.hi[0]; double mn = o.hmin ? o.min : have ? b.lo[2] + o.step / 2 : 0, mx = o.hmax ? o.max : have ? b.hi[2] : mn; if (o.z) mn = mx = o.min;
    long cnt = expect(mn, mx, o.step);
    if (!inf.ok || fabs(inf.min - mn) > 1e-5 * std::max(1., fabs(mn)) || inf.cnt != cnt || fabs(inf.step - o.step) > 1e-6) { mc::fail("report", "expected min=%g step=%g layer_cnt=%ld, reported min=%g step=%g layer_cnt=%ld", mn, o.step, cnt, inf.min, inf.step, inf.cnt); return; }
    double th = o.step - (o.gap == -1 ? .01 : o.gap); string sig; std::set<long> seen;
    for (long i = 0; i < cnt; i++) {
        double z = mn + o.step * (double)i; auto it = ls.lower_bound(lround(z * 1e6) - 3); if (it != ls.end() && it->first > lround(z * 1e6) + 3) it = ls.end();
        mc::trans(); if (it != ls.end()) { seen.insert(it->first); if (fabs(it->second.z1 - z - th) > 3e-6) { mc::fail("thickness", "layer at %g reaches up to %g, expected %g", z, it->second.z1, z + th); return; } }
        bool any = false; for (auto &p : probe) { int w = decided_at(*n, p.x, p.y, z, 1e-4); mc::trans(); sig += (char)('1' + w); if (w < 0) continue; int c = it == ls.end() ? 0 : cover(it->second.bot, p.x, p.y); if (w) any = true; if (c != w) { mc::fail(w ? "layer-missing" : "layer-surplus", "at height %g (%g,%g) should be %s", z, p.x, p.y, w ? "filled" : "free"); return; } }
        (void)any; (void)near_is_fine;
    }
    if (seen.size() != ls.size()) { for (auto &l : ls) if (!seen.count(l.first)) { mc::fail("layer-surplus", "unexpected layer at height %g", l.second.z0); return; } }
    mc::state(mc::hash(sig + mc::strf("%g %g %g", mn, o.step, th)));
}
static T cube_at(double x, double y, double z, double sx, double sy, double sz) { return {Cube(x, y, z, sx, sy, sz), {{x,y,z},{x+sx,y+sy,z+sz}}}; }
void mc_main() {
    { mc::phase("one body: bottom, height, step, minimum, maximum, gap");
      for (double z0 : {0., -1., .375, 10., -2.125}) for (double h : {1., .0625, .25, 2.5, 3.125}) for (double st : {.25, .5, 1., .2, .125, 3.}) for (int mi = 0; mi < 6; mi++) for (int ma = 0; ma < 5; ma++) for (double gap : {-1., 0.0625, .001}) {
          if (gap != -1 && !mc::thorough && (mi + ma) % 3) continue;
          O o; o.step = st; o.gap = gap; static const double mis[] = {0, 0, .125, .25, -.5, 20}; static const double mas[] = {0, .5, 1, 4, -20};
          if (mi) { o.hmin = true; o.min = z0 + mis[mi]; } if (ma) { o.hmax = true; o.max = z0 + mas[ma]; } double mn = mi ? o.min : z0 + st / 2, mx = ma ? o.max : z0 + h, q = (mx - mn) / st; if (mx > mn && fabs(q - rint(q)) > 1e-12 && fabs(q - rint(q)) < 1e-3) continue; if (gap >= st) continue;
          if (!mc::next()) continue; auto t = cube_at(0, 0, z0, 1, 1, h); one(t.n, t.b, o, {{.51,.43},{.25,.83},{1.5,.5}}); } }
    { mc::phase("single layer (-z), many layers"); for (double z : {-1., 0., .25, .5, .999, 1., 2.}) { O o; o.z = true; o.min = z; if (mc::next()) one(Cube(0,0,0,1,1,1), {{0,0,0},{1,1,1}}, o, {{.51,.43}}); o.step = 4; if (mc::next()) one(Cube(0,0,0,1,1,1), {{0,0,0},{1,1,1}}, o, {{.51,.43}}); } 
      for (long n : {100L, 1000L, 1023L, 1024L, 1025L, 4097L}) { O o; o.step = 1. / 64; if (mc::next()) one(Cube(0,0,0,1,1,(double)n / 64), {{0,0,0},{1,1,(double)n/64}}, o, {{.51,.43}}); } }
    { mc::phase("boolean trees: extent of the result");
      vector<T> L = {cube_at(0,0,0,2,2,2), cube_at(1,1,1,2,2,3), cube_at(0,0,-3,1.25,3,4.5), cube_at(5,5,-1,1,1,8), cube_at(.5,.5,.5,1,1,1)};
      L.push_back({Group({}), none()}); vector<Pt> pr = {{.27,.21},{.77,.71},{1.12,1.19},{.73,2.55},{2.57,2.51},{5.53,5.41},{1.73,1.77},{4,4.1}};
      auto mk = [](int k, const vector<T> &c) -> T { vector<NP> n; BB b = none(); bool first = true; for (auto &x : c) { n.push_back(x.n); if (k == 0) { b = bor(b, x.b); continue; } if (x.n->ign()) continue; if (k == 1) { if (first) b = x.b; } else if (first) b = x.b; else b = band(b, x.b); first = false; } if (k == 2 && !b.ok()) b = none(); return {k == 0 ? Union(n) : k == 1 ? Diff(n) : Inter(n), b}; };
      vector<T> two; for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) two.push_back(mk(k, {a, b}));
      O o; o.step = .375;
      for (auto &t : two) if (mc::next()) one(t.n, t.b, o, pr);
      for (int k = 0; k < 3; k++) for (auto &t : two) for (auto &l : L) { if (mc::next()) { auto q = mk(k, {t, l}); one(q.n, q.b, o, pr); } if (mc::next()) { auto q = mk(k, {l, t}); one(q.n, q.b, o, pr); } }
      if (mc::thorough) for (int k = 0; k < 3; k++) for (auto &t : two) for (auto &u : two) if (mc::next()) { auto q = mk(k, {t, u}); one(q.n, q.b, o, pr); }
      for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) for (auto &c : L) if (mc::next()) { auto q = mk(k, {a, b, c}); one(q.n, q.b, o, pr); } }
    { mc::phase("transformed bodies: extent"); // membership decides where the lowest and highest layers are
      struct X { string t; Mat m; }; vector<X> xs = {{"rotate([0,45,0])", m_rot(0,45,0)}, {"rotate([30,0,0])", m_rot(30,0,0)}, {"rotate([10,20,30])", m_rot(10,20,30)}, {"scale([1,2,3])", m_scale(1,2,3)}, {"mirror([0,0,1])", m_mirror(0,0,1)}, {"translate([0,0,5])rotate([90,0,0])", mul(m_translate(0,0,5), m_rot(90,0,0))}, {"multmatrix([[1,0,0,0],[0,1,0,0],[1,.5,1,2],[0,0,0,1]])", {{{1,0,0,0},{0,1,0,0},{1,.5,1,2}}}}, {"scale([2,1,.5])rotate([0,30,0])", mul(m_scale(2,1,.5), m_rot(0,30,0))}};
      struct B { string t; std::function<double(double,double,double)> sup; }; // support function in direction d
      auto pts = [](vector<V> v) { return [=](double x, double y, double z) { double m = -1e9; for (auto &p : v) m = std::max(m, p.x * x + p.y * y + p.z * z); return m; }; };
      vector<V> cb; for (int i = 0; i < 8; i++) cb.push_back({(double)(i & 1) * 2, (double)(i >> 1 & 1), (double)(i >> 2) * 1.5}); vector<V> cy; for (auto &p : ngon(2, 7)) { cy.push_back({p.x, p.y, 0}); } for (auto &p : ngon(1, 7)) cy.push_back({p.x, p.y, 3}); vector<V> sp; for (int i = 0; i < 4; i++) for (auto &p : ngon(2 * sin(M_PI * (i + .5) / 4), 8)) sp.push_back({p.x, p.y, 2 * cos(M_PI * (i + .5) / 4)}); vector<V> le; for (auto &p : vector<Pt>{{0,0},{2,0},{0,3}}) { le.push_back({p.x, p.y, 0}); le.push_back({p.x, p.y, 2}); } vector<V> hole; for (auto &p : vector<Pt>{{-2,-2},{2,-2},{2,2},{-2,2}}) { hole.push_back({p.x, p.y, 0}); hole.push_back({p.x, p.y, 2}); } vector<V> ro; for (double r : {1., 3.}) for (double z : {0., 1.}) for (int j = 0; j < 6; j++) ro.push_back({-r * cosd(60 * j), r * sind(60 * j), z});
      vector<B> bs = {{"cube([2,1,1.5]);", pts(cb)}, {"cylinder(3,2,1,$fn=7);", pts(cy)}, {"sphere(2,$fn=8);", pts(sp)}, {"sphere(2);", [](double x, double y, double z) { return 2 * sqrt(x*x + y*y + z*z); }}, {"sphere(r=2,$fn=500);", [](double x, double y, double z) { return 2 * sqrt(x*x + y*y + z*z); }}, {"linear_extrude(2)polygon([[0,0],[2,0],[0,3]]);", pts(le)}, {"linear_extrude(2)difference(){square(4,true);square(1,true);}", pts(hole)}, {"rotate_extrude($fn=6)translate([1,0])square([2,1]);", pts(ro)}};
      for (auto &b : bs) for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j <= xs.size(); j++) for (double st : {.5, .2, 1.}) { if (!mc::next()) continue; Mat m = j < xs.size() ? mul(xs[i].m, xs[j].m) : xs[i].m; string t = xs[i].t + (j < xs.size() ? xs[j].t : "") + b.t; double *r = m.m[2], hi = b.sup(r[0], r[1], r[2]) + r[3], lo = r[3] - b.sup(-r[0], -r[1], -r[2]);
          vector<string> a = {"--step=" + nm(st)}; mc::desc_s("hob3l" + jargs(a) + " on: " + t); std::map<long,Layer> ls; Info inf; if (!stl_run(t, a, ls, inf)) continue; double mn = lo + st / 2, q = (hi - mn) / st; long cnt = expect(mn, hi, st); mc::trans(); mc::state(mc::hash(mc::strf("%.6g %.6g %g", lo, hi, st)));
          if (fabs(inf.min - mn) > 1e-4 || (fabs(q - rint(q)) > 1e-3 && inf.cnt != cnt)) { mc::fail("report", "expected min=%g layer_cnt=%ld (top at %g), reported min=%g layer_cnt=%ld", mn, cnt, hi, inf.min, inf.cnt); continue; }
          // a convex or connected body reaches every layer
          if ((long)ls.size() != inf.cnt && !(q - floor(q) < .02)) mc::fail("layer-missing", "%ld layers reported, %zu in the output", inf.cnt, ls.size()); } }
    { mc::phase("empty models"); for (const char *t : {"", "group(){}", "union(){group(){}difference(){}}", "intersection(){cube(1);translate([3,0,0])cube(1);}", "difference(){}"}) for (int k = 0; k < 4; k++) { if (!mc::next()) continue; O o; if (k & 1) { o.hmin = true; o.min = 2; } if (k & 2) { o.hmax = true; o.max = 3; } auto a = oargs(o); mc::desc_s("hob3l" + jargs(a) + " on: " + string(t)); std::map<long,Layer> ls; Info inf; mc::state(mc::hash(string(t) + (char)k)); if (!stl_run(t, a, ls, inf)) continue; if (!ls.empty()) mc::fail("layer-surplus", "%zu layers of nothing", ls.size()); if (!inf.ok || ((k & 1) && inf.min != 2)) mc::fail("report", "min=%g", inf.min); } }
}
