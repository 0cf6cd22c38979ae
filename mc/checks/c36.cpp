// C36: the polyhedra that the program makes (as --dump-csg3 prints them) are closed surfaces that face outwards, of the right volume.
#include "../scad.hpp"
struct Poly { vector<V> p; vector<vector<long>> f; string mod; };
static bool numbers(const string &d, size_t &p, vector<vector<double>> &r) { // [[a,b,c],[d,e,f]]
    if (d[p] != '[') return false; p++; while (p < d.size() && d[p] == '[') { r.emplace_back(); p++; while (p < d.size() && d[p] != ']') { char *e; r.back().push_back(strtod(d.c_str() + p, &e)); if (e == d.c_str() + p) return false; p = (size_t)(e - d.c_str()); if (d[p] == ',') p++; } p++; if (d[p] == ',') p++; }
    if (d[p] != ']') return false; p++; return true;
}
static bool parse(const string &d, vector<Poly> &r) {
    size_t p = 0; while ((p = d.find("polyhedron(points=", p)) != string::npos) {
        Poly q; size_t b = p; while (b > 0 && strchr("#!%*", d[b - 1])) b--; q.mod = d.substr(b, p - b); std::sort(q.mod.begin(), q.mod.end()); p += 18; vector<vector<double>> a, f; if (!numbers(d, p, a) || d.compare(p, 7, ",faces=") != 0) return false; p += 7; if (!numbers(d, p, f) || d[p] != ')') return false;
        for (auto &x : a) { if (x.size() != 3) return false; q.p.push_back({x[0], x[1], x[2]}); }
        for (auto &x : f) { q.f.emplace_back(); for (double y : x) { if (y != floor(y) || y < 0 || y >= (double)q.p.size()) return false; q.f.back().push_back((long)y); } } r.push_back(std::move(q));
    }
    return true;
}
static double volume(const Poly &q) { double v = 0; V o = q.p[0]; auto c = [&](long i) { V a = q.p[(size_t)i]; return V{a.x - o.x, a.y - o.y, a.z - o.z}; }; for (auto &f : q.f) for (size_t i = 1; i + 1 < f.size(); i++) { V a = c(f[0]), b = c(f[i]), d = c(f[i + 1]); v -= (a.x * (b.y * d.z - b.z * d.y) + a.y * (b.z * d.x - b.x * d.z) + a.z * (b.x * d.y - b.y * d.x)) / 6; } return v; }
// every edge of a face is shared with exactly one other face, which runs through it the other way
static bool closed(const Poly &q, const string &cls) {
    std::map<std::pair<long,long>,int> e; vector<char> used(q.p.size());
    for (auto &f : q.f) { std::set<long> s(f.begin(), f.end()); if (s.size() != f.size() || f.size() < 3) { mc::fail(cls + ":face", "a face has %zu corners, %zu of them different", f.size(), s.size()); return false; } for (size_t i = 0; i < f.size(); i++) { e[{f[i], f[(i + 1) % f.size()]}]++; used[(size_t)f[i]] = 1; } }
    for (auto &k : e) { auto r = e.find({k.first.second, k.first.first}); mc::trans(); if (k.second != 1 || r == e.end() || r->second != 1) { mc::fail(cls + ":edge", "the edge from point %ld to point %ld is used %d times, and %d times backwards", k.first.first, k.first.second, k.second, r == e.end() ? 0 : r->second); return false; } }
    for (size_t i = 0; i < used.size(); i++) if (!used[i]) { mc::fail(cls + ":point", "point %zu of the polyhedron is in no face", i); return false; }
    for (size_t i = 0; i < q.p.size(); i++) for (size_t j = 0; j < i; j++) if (fabs(q.p[i].x - q.p[j].x) < 1e-9 && fabs(q.p[i].y - q.p[j].y) < 1e-9 && fabs(q.p[i].z - q.p[j].z) < 1e-9) { mc::fail(cls + ":point", "points %zu and %zu of the polyhedron are the same", j, i); return false; }
    return true;
}
enum { NOVOL = -1 };
// want: the volume, or NOVOL: only that it is positive; hole: its sign is free
static void one(const string &cls, const string &text, double want, bool sign = true, double tol = 1e-6) {
    if (!mc::next()) return; mc::desc_s("hob3l --dump-csg3 on: " + text); spit(scr("in.scad"), text); Res r = run({"--dump-csg3", "in.scad"}); mc::trace(); if (!r.ok()) { mc::fail(cls + ":" + site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 500).c_str()); return; }
    vector<Poly> ps; if (!parse(r.so, ps) || ps.empty()) { mc::fail(cls + ":dump", "no polyhedra in the dump:\n%s", r.so.substr(0, 800).c_str()); return; }
    double sum = 0; string sig = cls; for (auto &q : ps) { if (!closed(q, cls)) return; double v = volume(q); if (sign && v <= 0) { mc::fail(cls + ":facing", "a polyhedron faces inwards: its volume is %.9g", v); return; } sum += v; sig += mc::strf(" %zu/%zu/%.6g", q.p.size(), q.f.size(), v); }
    mc::state(mc::hash(sig)); if (want > 0 && fabs(sum - want) > tol * (1 + want)) mc::fail(cls + ":volume", "the polyhedra have a volume of %.9g, not %.9g", sum, want);
}
typedef vector<std::pair<double,double>> P2;
static double area2(const P2 &p) { double a = 0; for (size_t i = 0; i < p.size(); i++) { auto &x = p[i], &y = p[(i + 1) % p.size()]; a += x.first * y.second - y.first * x.second; } return a / 2; }
static double moment(const P2 &p) { double a = 0; for (size_t i = 0; i < p.size(); i++) { auto &x = p[i], &y = p[(i + 1) % p.size()]; a += (x.first + y.first) * (x.first * y.second - y.first * x.second); } return a / 6; } // integral of x
static string txt(const P2 &p) { string s = "polygon(["; for (size_t i = 0; i < p.size(); i++) s += (i ? ",[" : "[") + nm(p[i].first) + "," + nm(p[i].second) + "]"; return s + "]);"; }
// simple: no two edges meet except in the common corner, no corner is straight
static bool simple(const P2 &p) {
    size_t n = p.size(); auto o = [&](size_t a, size_t b, size_t c) { double d = (p[b].first - p[a].first) * (p[c].second - p[a].second) - (p[b].second - p[a].second) * (p[c].first - p[a].first); return d > 0 ? 1 : d < 0 ? -1 : 0; };
    auto on = [&](size_t a, size_t b, size_t c) { return o(a, b, c) == 0 && std::min(p[a].first, p[b].first) <= p[c].first && p[c].first <= std::max(p[a].first, p[b].first) && std::min(p[a].second, p[b].second) <= p[c].second && p[c].second <= std::max(p[a].second, p[b].second); };
    for (size_t i = 0; i < n; i++) { size_t i2 = (i + 1) % n; if (o(i, i2, (i + 2) % n) == 0) return false; for (size_t j = 0; j < n; j++) { size_t j2 = (j + 1) % n; if (j != i && j != i2 && on(i, i2, j)) return false; if (j == i || j == i2 || j2 == i) continue; if (o(i, i2, j) != o(i, i2, j2) && o(j, j2, i) != o(j, j2, i2)) return false; } }
    return true;
}
static vector<P2> polygons(const vector<double> &xs, const vector<double> &ys, size_t most) { // each simple polygon over the grid, in both directions, from its lowest point
    vector<std::pair<double,double>> g; for (double x : xs) for (double y : ys) g.push_back({x, y}); vector<P2> r; vector<size_t> s;
    std::function<void()> rec = [&]() { if (s.size() >= 3) { P2 p; for (size_t i : s) p.push_back(g[i]); if (simple(p)) r.push_back(p); } if (s.size() == most) return; for (size_t i = 0; i < g.size(); i++) { if (s.size() && i <= s[0]) continue; if (std::find(s.begin(), s.end(), i) != s.end()) continue; s.push_back(i); rec(); s.pop_back(); } };
    rec(); return r;
}
static double ngon(double n) { return n / 2 * sin(2 * M_PI / n); } // area of the polygon in the unit circle
void mc_main() {
    struct X { const char *h; double d; }; const vector<X> xs = {{"", 1}, {"translate([7,-5,1])", 1}, {"rotate([30,40,50])", 1}, {"rotate(a=70,v=[1,2,3])", 1}, {"mirror([1,0,0])", 1}, {"mirror([1,2,2])", 1}, {"mirror([0,0,1])", 1}, {"mirror([1,0,0])mirror([0,1,0])", 1}, {"scale([2,.5,1])", 1}, {"scale([1,2,-3])", 6}, {"scale([-1,-1,-1])", 1}, {"scale([-1,-2,1])", 2}, {"multmatrix([[1,.5,0,1],[0,1,.25,0],[0,0,1,0]])", 1}, {"multmatrix([[0,1,0,0],[1,0,0,0],[0,0,1,0]])", 1}, {"multmatrix([[0,1,0,0],[0,0,1,0],[1,0,0,0]])", 1}};
    struct B { string cls, t; double v; bool sign; }; vector<B> bs;
    for (const char *c : {"", ",center=true"}) { bs.push_back({"cube", string("cube([2,3,1]") + c + ");", 6, true}); bs.push_back({"cube", string("cube(2") + c + ");", 8, true});
        for (int n = 3; n <= 9; n++) { string f = mc::strf("%s,$fn=%d);", c, n); bs.push_back({"cylinder", "cylinder(2,1,1" + f, 2 * ngon(n), true}); bs.push_back({"cone", "cylinder(h=2,r1=1.5,r2=0" + f, 1.5 * ngon(n), true}); bs.push_back({"cone", "cylinder(h=2,r1=0,r2=1.5" + f, 1.5 * ngon(n), true}); bs.push_back({"frustum", "cylinder(h=3,r1=1,r2=2" + f, 7 * ngon(n), true}); bs.push_back({"frustum", "cylinder(h=3,r1=2,r2=1" + f, 7 * ngon(n), true}); } }
    for (int n = 3; n <= 12; n++) { double v = 0; int k = (n + 1) / 2; double z0 = 0, r0 = 0; for (int i = 0; i < k; i++) { double ph = M_PI * (i + .5) / k, z = 2 * cos(ph), q = 2 * sin(ph); if (i) v += ngon(n) * (z0 - z) / 3 * (r0 * r0 + r0 * q + q * q); z0 = z; r0 = q; } bs.push_back({"sphere", mc::strf("sphere(2,$fn=%d);", n), v, true}); }
    for (const char *f : {"[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]", "[[1,2,0],[3,1,0],[3,2,1],[0,2,3]]"}) bs.push_back({"polyhedron", string("polyhedron(points=[[0,0,0],[3,0,.5],[0,2,.25],[.5,.5,2]],faces=") + f + ");", NOVOL, true});
    const P2 L = {{0, 0}, {3, 0}, {1, 1}, {0, 3}}; P2 Lr(L.rbegin(), L.rend());
    for (auto &l : {L, Lr}) for (const char *c : {"", ",center=true"}) { string t = txt(l); bs.push_back({"extrusion", string("linear_extrude(2") + c + ")" + t, 6, true}); bs.push_back({"twisted", string("linear_extrude(2,twist=60,slices=4,scale=[.5,.75]") + c + ")" + t, NOVOL, true}); bs.push_back({"twisted", string("linear_extrude(2,twist=-60,slices=4") + c + ")" + t, NOVOL, true}); bs.push_back({"pyramid", string("linear_extrude(2,scale=0") + c + ")" + t, 2, true}); bs.push_back({"frustum extrusion", string("linear_extrude(2,scale=2") + c + ")" + t, 14, true}); }
    bs.push_back({"holes", "linear_extrude(2){polygon(points=[[0,0],[3,0],[3,2],[0,2],[1,.5],[2,.5],[2,1.5],[1,1.5]],paths=[[0,1,2,3],[4,5,6,7]]);}", NOVOL, false}); bs.push_back({"2D union", "linear_extrude(2){translate([4,0])square(2);square(1);}", 10, true}); bs.push_back({"2D difference", "linear_extrude(2)difference(){square(4,center=true);square(1);}", NOVOL, false});
    bs.push_back({"2D hole", "linear_extrude(2)difference(){square(4,center=true);square(1,center=true);}", NOVOL, false}); bs.push_back({"hull", "linear_extrude(1){hull(){square(1);translate([3,0])square(1);}}", 4, true}); bs.push_back({"projection", "linear_extrude(1){projection(cut=true){translate([0,0,-.5])cube([2,3,1]);}}", 6, true});
    for (const char *a : {"$fn=8", "angle=90,$fn=16", "angle=135,$fn=16"}) { double f = *a == '$' ? 8 * sin(M_PI / 4) : 16 * sin((strstr(a, "90") ? M_PI / 2 : M_PI * .75) / 16); bs.push_back({"ring", string("rotate_extrude(") + a + ")translate([1,0])square([1,2]);", 3 * f, true}); bs.push_back({"ring", string("rotate_extrude(") + a + ")square([1,2]);", f, true}); bs.push_back({"ring", string("rotate_extrude(") + a + ")translate([-3,0])" + txt({{1, 0}, {2, 0}, {2, 2}, {1, 2}}), 3 * f, true}); }
    mc::phase("bodies under every pair of transformations"); for (auto &b : bs) for (auto &x : xs) for (auto &y : xs) { if (!*x.h && *y.h) continue; one(b.cls, string(x.h) + y.h + b.t, b.v > 0 ? b.v * x.d * y.d : b.v, b.sign, 1e-5); }
    // linear_extrude: every simple polygon over a grid
    struct A { const char *a; double f; }; const A ext[] = {{"2", 2}, {"3,center=true", 3}, {"2,scale=2", 14. / 3}, {"3,scale=0", 1}, {"3,scale=[0,0],center=true", 1}, {"2,scale=[2,2],slices=3", 14. / 3}, {"1,scale=[1,2]", NOVOL}, {"2,twist=30", NOVOL}, {"2,twist=-30,slices=3", NOVOL}, {"2,twist=20,scale=0,slices=3", NOVOL}, {"2,twist=400,slices=50", NOVOL}, {"2,twist=90,slices=9", NOVOL}, {"1,twist=0,slices=4", 1}};
    mc::phase("linear_extrude: every simple polygon"); for (auto &p : polygons({0, 1, 2}, {0, 1, 2}, mc::thorough ? 6 : 4)) for (auto &a : ext) { string x = a.a; bool flat = x.find("twist") == string::npos || x.find("twist=0") != string::npos; double k = fabs(area2(p)); one("extrusion", "linear_extrude(" + x + ")" + txt(p), a.f > 0 ? a.f * k : NOVOL, flat || k > .9); }
    mc::phase("linear_extrude: every number of sides, slices and twist"); for (int n = 3; n <= 8; n++) for (int s = 1; s <= 6; s++) for (int t : {-360, -100, -7, 0, 1, 45, 180, 359}) for (const char *sc : {"", ",scale=.5", ",scale=0", ",scale=[2,1]"}) for (const char *c : {"", ",center=true"}) if (abs(t) <= 45 * s) one("extrusion", mc::strf("linear_extrude(2,twist=%d,slices=%d%s%s)circle(1,$fn=%d);", t, s, sc, c, n), NOVOL);
    mc::phase("linear_extrude: every number of slices"); for (int n = 3; n <= 40; n++) for (int t : {-400, -90, -45, 10, 90, 180, 720}) one("extrusion", mc::strf("linear_extrude(2,twist=%d,slices=%d)square(1);", t, n), NOVOL, abs(t) <= 30 * n);
    // rotate_extrude: every simple polygon on one side of the axis
    struct R { int fn; double ang; }; const vector<R> rs = {{3, 360}, {4, 360}, {5, 360}, {6, 360}, {8, 90}, {8, 180}, {7, 100}, {12, 350}, {5, 30}};
    for (int side = 1; side >= -1; side -= 2) for (int off = 0; off < 2; off++) { mc::phase(mc::strf("rotate_extrude: every simple polygon %s the axis, %s", off ? "off" : "at", side > 0 ? "right" : "left").c_str());
        for (auto p : polygons({0, 1, 2}, {0, 1, 2}, mc::thorough ? 6 : 4)) { if (side < 0 && !mc::thorough && p.size() > 3 && off) continue; for (auto &q : p) q.first = side * (q.first + off); double k = fabs(moment(p)); for (auto &r : rs) one("ring", mc::strf("rotate_extrude($fn=%d%s)", r.fn, r.ang == 360 ? "" : (",angle=" + nm(r.ang)).c_str()) + txt(p), k * r.fn * sin(r.ang / 180 * M_PI / r.fn)); } }
    mc::phase("rotate_extrude: every number of fragments and angle"); for (int n = 3; n <= 40; n++) for (double a : {360., 1., 44., 45., 46., 90., 179., 180., 181., 270., 359.}) for (const char *b : {"square(1);", "translate([1,0])circle(.5,$fn=5);", "polygon([[0,0],[2,1],[0,2],[1,1]]);"}) one("ring", mc::strf("rotate_extrude($fn=%d,angle=%g)%s", n, a, b), NOVOL);
    // modifiers: those of the part and of what is around it, up to the one with the !
    mc::phase("modifiers"); const char *M[] = {"", "#", "!", "#!", "!#"}; for (auto a : M) for (auto b : M) for (auto c : M) for (auto d : M) for (int k = 0; k < 4; k++) {
        static const char *H[] = {"union()", "translate([1,0,0])", "color(\"red\")", "linear_extrude(1)"}; int bangs = 0; for (auto m : {a, b, c, d}) bangs += strchr(m, '!') != nullptr; if (bangs > 1) continue; if (k == 3 && (strchr(c, '!') || strchr(d, '!'))) continue; if (!mc::next()) continue;
        string leaf = k == 3 ? "square(1);" : "cube(1);", leaf2 = k == 3 ? "translate([3,0])square(1);" : "translate([3,0,0])cube(1);", t = string(a) + "group(){" + b + H[k] + "{" + c + leaf + d + leaf2 + "}" + "}"; mc::desc_s("hob3l --dump-csg3 on: " + t); spit(scr("in.scad"), t); Res r = run({"--dump-csg3", "in.scad"}); mc::trace(); if (!r.ok()) { mc::fail("modifier:" + site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 500).c_str()); continue; }
        vector<Poly> ps; if (!parse(r.so, ps)) { mc::fail("modifier:dump", "%s", r.so.substr(0, 500).c_str()); continue; } vector<string> want; auto add = [&](const char *m) { string w; bool fm = strchr(m, '!'), fb = strchr(b, '!'); for (char ch : {'!', '#'}) if ((!fm && !fb && strchr(a, ch)) || (!fm && strchr(b, ch)) || (k < 3 && strchr(m, ch))) w += ch; std::sort(w.begin(), w.end()); want.push_back(w); };
        if (!strchr(d, '!')) add(c); if (!strchr(c, '!')) add(d); string got, exp; for (auto &q : ps) got += "'" + q.mod + "' "; for (auto &w : want) exp += "'" + w + "' "; mc::state(mc::hash(t)); if (got != exp) mc::fail("modifier", "the parts have the modifiers %s, expected %s\n%s", got.c_str(), exp.c_str(), r.so.substr(0, 300).c_str());
    }
}
