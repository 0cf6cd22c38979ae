// C03: primitives against their documented shapes.
#include "../scad.hpp"
#include "bodies.hpp"
typedef std::function<vector<Pt>(double)> Sect;
static string args_of(const vector<string> &v) { string s; for (auto &x : v) if (!x.empty()) s += (s.empty() ? "" : ",") + x; return s; }
static void cubes() {
    mc::phase("cube");
    double S[] = {1, 2.5, .5, -1.5, -3}; 
    auto one = [&](const string &a, double x, double y, double z, bool c) {
        if (!mc::next()) return;
        double o[3] = {x, y, z}, lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = c ? -fabs(o[i]) / 2 : std::min(0., o[i]); hi[i] = lo[i] + fabs(o[i]); }
        V l = {lo[0], lo[1], lo[2]}, h = {hi[0], hi[1], hi[2]};
        check_solid({"cube(" + a + ");", [=](V p) { return p.x > l.x && p.x < h.x && p.y > l.y && p.y < h.y && p.z >= l.z && p.z < h.z; }, l, h, [=](double) { return vector<Pt>{{l.x,l.y},{h.x,l.y},{l.x,h.y},{h.x,h.y}}; }}, {}, 3, 9, 1e-3); };
    one("", 1, 1, 1, false); one("center=true", 1, 1, 1, true); one("center=false", 1, 1, 1, false);
    for (double s : S) for (int c = 0; c < 2; c++) { for (const char *f : {"%s", "%s,CENTER", "size=%s,center=CENTER", "center=CENTER,size=%s"}) { bool u = strstr(f, "CENTER"); string t = mc::strf(f, nm(s).c_str()); for (size_t p; (p = t.find("CENTER")) != string::npos;) t.replace(p, 6, c ? "true" : "false"); one(t, s, s, s, u && c); } }
    for (double x : S) for (double y : S) for (double z : S) for (int c = 0; c < 3; c++) one(v3(x, y, z) + (c == 2 ? ",center=1" : c ? ",true" : ""), x, y, z, c > 0);
}
static Solid flat(const string &t, std::function<bool(double,double)> in, double lx, double ly, double hx, double hy, const vector<Pt> &corner) {
    return {"linear_extrude(1){" + t + "}", [=](V p) { return p.z >= 0 && p.z < 1 && in(p.x, p.y); }, {lx, ly, 0}, {hx, hy, 1}, corner.empty() ? Sect() : Sect([=](double) { return corner; })};
}
static void squares() {
    mc::phase("square");
    double S[] = {1, 2.5, .5, -1.5, -3};
    auto one = [&](const string &a, double x, double y, bool c) { if (!mc::next()) return; double lx = c ? -fabs(x) / 2 : std::min(0., x), ly = c ? -fabs(y) / 2 : std::min(0., y), hx = lx + fabs(x), hy = ly + fabs(y);
        check_solid(flat("square(" + a + ");", [=](double X, double Y) { return X > lx && X < hx && Y > ly && Y < hy; }, lx, ly, hx, hy, {{lx,ly},{hx,ly},{lx,hy},{hx,hy}}), {}, 1, 13, 1e-3); };
    one("", 1, 1, false); one("center=true", 1, 1, true);
    for (double x : S) { one(nm(x), x, x, false); one(nm(x) + ",true", x, x, true); one("size=" + nm(x), x, x, false); for (double y : S) for (int c = 0; c < 3; c++) one("[" + nm(x) + "," + nm(y) + "]" + (c == 2 ? ",center=true" : c ? ",true" : ""), x, y, c > 0); }
}
static long frag(long fn, long mx) { return fn == 0 || fn > mx ? mx : fn < 3 ? 3 : fn; }
static void circles() {
    mc::phase("circle");
    for (long mx : {100L, 50L, 7L, 3L}) for (long fn : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 12L, 16L, 30L, 49L, 50L, 51L, 99L, 100L, 101L, 5000L}) for (double r : {1., 2.5, .5, 4.}) for (int form = 0; form < 5; form++) {
        if (form == 4 && r != 1) continue; if (!mc::next()) continue; long n = frag(fn < 0 ? 0 : fn, mx);
        string a = args_of({form == 0 ? nm(r) : form == 1 ? "r=" + nm(r) : form == 2 ? "d=" + nm(2 * r) : form == 3 ? "$fa=3,$fs=.1,r=" + nm(r) : "", fn < 0 ? "" : "$fn=" + std::to_string(fn)});
        check_solid(flat("circle(" + a + ");", [=](double x, double y) { return in_ngon(x, y, r, n); }, -r, -r, r, r, n * n < 3000 * r ? ngon(r, n) : vector<Pt>{}), mx == 100 ? vector<string>{} : vector<string>{"--max-fn=" + std::to_string(mx)}, 1, n > 30 ? 35 : 19, 1e-3); }
}
static void cylinders() {
    mc::phase("cylinder");
    struct A { const char *t; double r1, r2; };
    static const A forms[] = {{"",1,1},{"r=2",2,2},{"d=3",1.5,1.5},{"r1=2",2,1},{"r2=2",1,2},{"r1=2,r2=3",2,3},{"r1=2,r2=.5",2,.5},{"d1=3",1.5,1},{"d2=3",1,1.5},{"d1=4,d2=1",2,.5},{"d1=1,d2=4",.5,2},{"r1=2,d2=1",2,.5},{"d1=1,r2=2",.5,2},{"r1=0,r2=2",0,2},{"r1=2,r2=0",2,0},{"d1=0",0,1},{"d2=0",1,0},{"r2=0",1,0},{"d2=5,r1=1",1,2.5},{"r2=1.5,d1=0",0,1.5}};
    auto one = [&](const string &a, double h, double r1, double r2, bool c, long n, const vector<string> &o) {
        if (!mc::next()) return; double z0 = c ? -h / 2 : 0, R = std::max(r1, r2);
        auto rad = [=](double z) { return r1 + (r2 - r1) * (z - z0) / h; };
        check_solid({"cylinder(" + a + ");", [=](V p) { return p.z >= z0 && p.z < z0 + h && in_ngon(p.x, p.y, rad(p.z), n); }, {-R,-R,z0}, {R,R,z0+h}, n <= 16 ? Sect([=](double z) { double r = rad(z); return r < 1e-4 ? vector<Pt>{} : ngon(r, n); }) : Sect()}, o, 3, n > 30 ? 31 : 17, 1e-3, 2.5e-4); };
    for (auto &f : forms) for (double h : {-1., 1., 2.5, 4.}) for (int c = 0; c < 3; c++) for (long fn : {3L, 4L, 5L, 8L}) {
        string cs = c == 0 ? "" : c == 1 ? "center=false" : "center=true"; double H = h < 0 ? 1 : h;
        one(args_of({h < 0 ? "" : nm(h), f.t, cs, "$fn=" + std::to_string(fn)}), H, f.r1, f.r2, c == 2, fn, {});
        if (fn == 5) one(args_of({"$fn=5", cs, f.t, h < 0 ? "" : "h=" + nm(h)}), H, f.r1, f.r2, c == 2, fn, {}); }
    for (double h : {1., 3.}) for (double r1 : {0., 1., 2.}) for (double r2 : {0., .5, 1., 3.}) { if (r1 + r2 == 0) continue; one(nm(h) + "," + nm(r1) + "," + nm(r2) + ",$fn=6", h, r1, r2, false, 6, {}); one(nm(h) + "," + nm(r1) + "," + nm(r2) + ",true,$fn=6", h, r1, r2, true, 6, {}); if (r2 == 1) one(nm(h) + "," + nm(r1) + ",$fn=6", h, r1, 1, false, 6, {}); }
    for (long mx : {100L, 12L, 5L}) for (long fn : {0L, 3L, 4L, 6L, 7L, 11L, 12L, 13L, 24L, 99L, 100L, 101L, 1000L}) for (int k = 0; k < 3; k++) { double r1 = k == 0 ? 2 : k == 1 ? 3 : 0, r2 = k == 0 ? 2 : k == 1 ? 1 : 2.5; one("2," + nm(r1) + "," + nm(r2) + ",$fn=" + std::to_string(fn), 2, r1, r2, false, frag(fn, mx), mx == 100 ? vector<string>{} : vector<string>{"--max-fn=" + std::to_string(mx)}); }
}
static void spheres() {
    mc::phase("sphere");
    for (long mx : {100L, 12L, 5L, 3L}) for (long fn : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 11L, 12L, 13L, 20L, 99L, 100L, 101L, 3000L}) for (double r : {1., 2.5, 4.}) for (int form = 0; form < 4; form++) {
        if (form == 3 && r != 1) continue; if (!mc::next()) continue; 
        bool ex = fn <= 0 || fn > mx; long n = ex ? mx : fn < 3 ? 3 : fn; auto rad = [=](double z) { return ex ? (fabs(z) < r ? sqrt(r * r - z * z) : 0) : sphere_r(z, r, n); };
        string a = args_of({form == 0 ? nm(r) : form == 1 ? "r=" + nm(r) : form == 2 ? "d=" + nm(2 * r) : "", fn < 0 ? "" : "$fn=" + std::to_string(fn)});
        check_solid({"sphere(" + a + ");", [=](V p) { return in_ngon(p.x, p.y, rad(p.z), n); }, {-r,-r,-r}, {r,r,r}, n <= 20 ? Sect([=](double z) { double q = rad(z); return q < 1e-4 ? vector<Pt>{} : ngon(q, n); }) : Sect()}, mx == 100 ? vector<string>{} : vector<string>{"--max-fn=" + std::to_string(mx)}, 6, n > 30 ? 27 : 15, 2e-3, 4e-4); }
}
static void polygons() {
    vector<Pt> g; for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) g.push_back({(double)x, (double)y});
    auto pts = [&](const vector<Pt> &p) { string s = "["; for (size_t i = 0; i < p.size(); i++) s += (i ? ",[" : "[") + nm(p[i].x) + "," + nm(p[i].y) + "]"; return s + "]"; };
    auto one = [&](const string &a, const vector<Path> &ps) { vector<Path> q = ps; double lx = 9, ly = 9, hx = -9, hy = -9; for (auto &p : q) for (auto &v : p) lx = std::min(lx, v.x), ly = std::min(ly, v.y), hx = std::max(hx, v.x), hy = std::max(hy, v.y);
        check_solid(flat("polygon(" + a + ");", [=](double x, double y) { return evenodd(q, x, y); }, lx, ly, hx, hy, {}), {}, 1, 11, 2e-3); };
    { mc::phase("polygon: every sequence of three or four grid points");
      for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int c = 0; c < 9; c++) { if (a == b || b == c || a == c) continue; if (mc::next()) one(pts({g[a], g[b], g[c]}), {{g[a], g[b], g[c]}});
          for (int d = 0; d < 9; d++) { if (d == a || d == b || d == c) continue; if (mc::next()) one("points=" + pts({g[a], g[b], g[c], g[d]}), {{g[a], g[b], g[c], g[d]}});
              if (mc::thorough) for (int e = 0; e < 9; e++) { if (e == a || e == b || e == c || e == d) continue; if (mc::next()) one(pts({g[a], g[b], g[c], g[d], g[e]}), {{g[a], g[b], g[c], g[d], g[e]}}); } } } }
    { mc::phase("polygon: paths over six points"); // every pair of triangles / quadrilaterals among 6 points, every start
      vector<Pt> P = {{0,0},{3,0},{3,3},{0,3},{1,1},{2,1.5},{1,2}}; vector<vector<int>> T;
      for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) for (int k = 0; k < 7; k++) if (i != j && j != k && i != k) T.push_back({i,j,k});
      vector<vector<int>> Q = {{0,1,2,3},{3,2,1,0},{1,2,3,0},{0,1,2,4},{0,2,1,3},{4,5,6},{6,5,4},{5,4,6,2},{0,4,2,5},{0,1,2,3,4,5}}; size_t nt = T.size(); for (auto &q : Q) T.push_back(q);
      auto path = [&](const vector<int> &t) { Path p; for (int i : t) p.push_back(P[(size_t)i]); return p; }; auto txt = [&](const vector<int> &t) { string s = "["; for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string(t[i]); return s + "]"; };
      for (size_t i = 0; i < T.size(); i++) { if (mc::next()) one(pts(P) + ",[" + txt(T[i]) + "]", {path(T[i])});
          for (size_t j = 0; j < T.size(); j++) { if (!mc::thorough && i < nt && j < nt && (T[i][0] > T[i][1] || T[i][0] > T[i][2] || T[j][0] > T[j][1] || T[j][0] > T[j][2])) continue; if (mc::next()) one("paths=[" + txt(T[i]) + "," + txt(T[j]) + "],convexity=3,points=" + pts(P), {path(T[i]), path(T[j])}); } }
      for (auto &a : Q) for (auto &b : Q) for (auto &c : Q) if (mc::next()) one(pts(P) + ",paths=[" + txt(a) + "," + txt(b) + "," + txt(c) + "]", {path(a), path(b), path(c)});
      if (mc::next()) one(pts(P) + ",undef", {P}); if (mc::next()) one(pts(P) + ",paths=undef", {P}); }
}
static void polyhedra() {
    mc::phase("polyhedron");
    struct PH { vector<V> p; vector<vector<int>> f; std::function<bool(V)> in; };
    vector<PH> B;
    auto conv = [&](const vector<V> &p, const vector<vector<int>> &f) { B.push_back({p, f, poly(p, f).in}); };
    conv({{0,0,0},{3,0,0},{.5,2,0},{.5,.5,1.5}}, {{0,1,2},{0,3,1},{1,3,2},{2,3,0}});
    conv({{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2}}, {{0,1,2,3},{0,4,1},{1,4,2},{2,4,3},{3,4,0}});
    conv({{0,0,0},{2,0,0},{2,2,0},{0,2,0},{0,0,1},{2,0,1},{2,2,1},{0,2,1}}, {{0,1,2,3},{7,6,5,4},{0,4,5,1},{1,5,6,2},{2,6,7,3},{3,7,4,0}});
    conv({{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}, {{4,0,2},{4,2,1},{4,1,3},{4,3,0},{5,2,0},{5,1,2},{5,3,1},{5,0,3}});
    { vector<Pt> L = {{0,0},{3,0},{3,1},{1,1},{1,3},{0,3}}; PH b; int n = (int)L.size(); for (int z = 0; z < 2; z++) for (auto &q : L) b.p.push_back({q.x, q.y, (double)z * 2}); vector<int> bo, to; for (int i = 0; i < n; i++) { bo.push_back(i); to.push_back(2 * n - 1 - i); } b.f = {bo, to}; for (int i = 0; i < n; i++) { int j = (i + 1) % n; b.f.push_back({i, n + i, n + j, j}); } vector<Path> ps = {L}; b.in = [=](V v) { return v.z >= 0 && v.z < 2 && evenodd(ps, v.x, v.y); }; B.push_back(b); }
    { vector<Pt> L = {{0,0},{3,0},{3,1},{1,1},{1,3},{0,3}}; PH b; int n = (int)L.size(); for (int x = 0; x < 2; x++) for (auto &q : L) b.p.push_back({(double)x * 2, q.x, q.y}); vector<int> bo, to; for (int i = 0; i < n; i++) { bo.push_back(n - 1 - i); to.push_back(n + i); } b.f = {bo, to}; for (int i = 0; i < n; i++) { int j = (i + 1) % n; b.f.push_back({i, j, n + j, n + i}); } vector<Path> ps = {L}; b.in = [=](V v) { return v.x > 0 && v.x < 2 && evenodd(ps, v.y, v.z); }; B.push_back(b); }
    { PH b; auto box2 = [&](double x, int o) { for (int i = 0; i < 8; i++) b.p.push_back({x + (i == 1 || i == 2 || i == 5 || i == 6), (double)((i & 3) >= 2), (double)(i >= 4)}); for (auto f : vector<vector<int>>{{0,1,2,3},{7,6,5,4},{0,4,5,1},{1,5,6,2},{2,6,7,3},{3,7,4,0}}) { for (int &q : f) q += o; b.f.push_back(f); } }; box2(0, 0); box2(1.5, 8); b.in = [](V v) { return ((v.x > 0 && v.x < 1) || (v.x > 1.5 && v.x < 2.5)) && v.y > 0 && v.y < 1 && v.z >= 0 && v.z < 1; }; B.push_back(b); }
    auto go = [&](const PH &b, const vector<vector<int>> &f, const char *form) {
        if (!mc::next()) return; string P = "["; V lo = {9,9,9}, hi = {-9,-9,-9}; for (size_t i = 0; i < b.p.size(); i++) { auto &q = b.p[i]; P += (i ? "," : "") + v3(q.x, q.y, q.z); lo = {std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z)}; hi = {std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z)}; } P += "]";
        string F = "["; for (size_t i = 0; i < f.size(); i++) { F += i ? ",[" : "["; for (size_t j = 0; j < f[i].size(); j++) F += (j ? "," : "") + std::to_string(f[i][j]); F += "]"; } F += "]"; string t; for (const char *c = form; *c; c++) if (*c == 'P') t += P; else if (*c == 'F') t += F; else t += *c;
        check_solid({"polyhedron(" + t + ");", b.in, lo, hi, nullptr}, {}, 5, 11, 2e-3); };
    for (size_t bi = 0; bi < B.size(); bi++) { auto &b = B[bi];
        for (int start = 0; start < 4; start++) for (int rev = 0; rev < 2; rev++) { auto f = b.f; for (auto &x : f) { std::rotate(x.begin(), x.begin() + start % (int)x.size(), x.end()); if (rev) std::reverse(x.begin(), x.end()); } go(b, f, "P,F"); go(b, f, "faces=F,points=P"); go(b, f, "P,F,convexity=2"); bool tri = true; for (auto &x : f) tri &= x.size() == 3; if (tri) { go(b, f, "P,triangles=F"); go(b, f, "triangles=F,points=P"); } }
        size_t n = b.f.size(); for (size_t m = 0; m < (1u << std::min<size_t>(n, mc::thorough ? 8 : 6)); m++) { auto f = b.f; for (size_t i = 0; i < n; i++) if (m >> i & 1) std::reverse(f[i].begin(), f[i].end()); go(b, f, "P,F"); }
        vector<size_t> pm(n); for (size_t i = 0; i < n; i++) pm[i] = i; long k = 0; do { if (++k > (mc::thorough ? 5040 : 120)) break; vector<vector<int>> f; for (size_t i : pm) f.push_back(b.f[i]); go(b, f, "P,F"); } while (std::next_permutation(pm.begin(), pm.end())); 
        // an unused point, and every order of the points
        { PH c = b; size_t N = b.p.size(); vector<size_t> o(N); for (size_t i = 0; i < N; i++) o[i] = i; k = 0; do { if (++k > (mc::thorough ? 5040 : 120)) break; for (size_t i = 0; i < N; i++) c.p[o[i]] = b.p[i]; c.f = b.f; for (auto &x : c.f) for (int &q : x) q = (int)o[(size_t)q]; go(c, c.f, "P,F"); } while (std::next_permutation(o.begin(), o.end())); } }
}
static void bad() {
    mc::phase("arguments outside of the documented domain");
    for (const char *t : {"cube(0)", "cube([1,0,1])", "cube([0,0,0])", "cube([1,2])", "cube([1,2,3,4])", "cube(\"a\")", "cube([1,\"a\",2])", "sphere(0)", "sphere(r=1,d=2)", "sphere(d=0)", "sphere(-1)", "sphere([1])", "cylinder(h=0)", "cylinder(h=-1)", "cylinder(r1=0,r2=0)", "cylinder(r=0)", "cylinder(d=0)", "cylinder(r=1,r1=1)", "cylinder(r=1,r2=1)", "cylinder(d=1,d1=1)", "cylinder(d=1,d2=1)", "cylinder(d=1,r=1)", "cylinder(r1=1,d1=1)", "cylinder(r2=1,d2=1)",
        "polyhedron()", "polyhedron([[0,0,0],[1,0,0],[0,1,0]],[[0,1,2]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3,4]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3,-1]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3,0]],triangles=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[0,1,2]])", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[2,3,.5]])"}) {
        if (!mc::next()) continue; mc::desc_s(string("hob3l on: ") + t); mc::state(mc::hash(string(t))); spit(scr("in.scad"), string(t) + ";cube(5);"); Res r = run({"in.scad", "-o", "out.stl"}); if (!r.rejected() || r.err.find("Error") == string::npos) mc::fail(r.sig ? site(r) : "accepted", "%s %s", r.how().c_str(), r.err.c_str()); }
    for (const char *t : {"square(0)", "square([0,1])", "square([1,0])", "square([1])", "square([1,2,3])", "circle(0)", "circle(r=1,d=1)", "circle([1])", "polygon()", "polygon([[0,0],[1,0]])", "polygon([[0,0],[1,0],[0,0]])", "polygon([[0,0],[1,0],[0,1]],[[0,1]])", "polygon([[0,0],[1,0],[0,1]],[[0,1,3]])", "polygon([[0,0],[1,0],[0,1]],[[0,1,-1]])", "polygon([[0,0],[1,0],[0,1,2]])", "polygon([0,0,1])", "polygon([[0,0],[1,0],[0,1]],[0,1,2])", "polygon(1)"}) {
        if (!mc::next()) continue; mc::desc_s(string("hob3l on: linear_extrude(1) ") + t); mc::state(mc::hash(string(t))); spit(scr("in.scad"), string("linear_extrude(1){") + t + ";square(5);}"); Res r = run({"in.scad", "-o", "out.stl"}); if (!r.rejected() || r.err.find("Error") == string::npos) mc::fail(r.sig ? site(r) : "accepted", "%s %s", r.how().c_str(), r.err.c_str()); }
}
void mc_main() { cubes(); squares(); circles(); cylinders(); spheres(); polygons(); polyhedra(); bad(); }
