// C12: slicing a polyhedron yields its closed cross-section just above the plane.
#include "../kern.hpp"
#include "../sshim.h"
struct V3 { long x, y, z; };
struct Poly3 { std::vector<V3> v; std::vector<std::vector<int>> f; };
static const long L = 1200; // grid units per cell; user coordinates are grid/1024
static double SC = 1024;
// parity of faces above (x,y,h), all in units of 1/SUB
static bool inside(const Poly3 &p, double x, double y, double h) {
    bool r = false;
    for (auto &f : p.f) {
        bool in = false; size_t n = f.size();
        for (size_t i = 0; i < n; i++) { auto &a = p.v[f[i]], &b = p.v[f[(i + 1) % n]]; double ay = (double)(a.y * L), by = (double)(b.y * L); if ((ay > y) != (by > y)) { double xx = (double)(a.x * L) + (y - ay) * (double)((b.x - a.x) * L) / (by - ay); if (x < xx) in = !in; } }
        if (!in) continue;
        // plane of the face (Newell)
        double nx = 0, ny = 0, nz = 0; for (size_t i = 0; i < n; i++) { auto &a = p.v[f[i]], &b = p.v[f[(i + 1) % n]]; nx += (double)((a.y - b.y) * (a.z + b.z)); ny += (double)((a.z - b.z) * (a.x + b.x)); nz += (double)((a.x - b.x) * (a.y + b.y)); }
        auto &a = p.v[f[0]]; double zz = (double)(a.z * L) - (nx * (x - (double)(a.x * L)) + ny * (y - (double)(a.y * L))) / nz;
        if (zz > h) r = !r;
    }
    return r;
}
static std::vector<std::array<double,2>> FP;
static void check(const Poly3 &p, const std::vector<double> &zs, int variant) {
    std::vector<double> xyz; std::vector<int> fl, fi;
    for (auto &v : p.v) { xyz.push_back((double)(v.x * L) / SC); xyz.push_back((double)(v.y * L) / SC); xyz.push_back((double)(v.z * L) / SC); }
    std::string d; for (auto &v : p.v) d += mc::strf("(%ld,%ld,%ld) ", v.x, v.y, v.z); d += " faces";
    for (size_t i = 0; i < p.f.size(); i++) { auto f = p.f[i]; if (variant & 1) std::reverse(f.begin(), f.end()); if ((variant & 2) && (i & 1)) std::reverse(f.begin(), f.end()); std::rotate(f.begin(), f.begin() + (variant * 7 + (int)i) % (int)f.size(), f.end());
        fl.push_back((int)f.size()); d += " ["; for (int k : f) { fi.push_back(k); d += mc::strf("%d ", k); } d += "]"; }
    mc::sample(d);
    for (double zc : zs) {
        double z = zc * (double)L; mc::desc_s(mc::strf("cut at z=%g (cells)\n", zc) + d);
        k_line *ol; k_set_scale(SC); int n = s_slice((int)p.v.size(), xyz.data(), (int)fl.size(), fl.data(), fi.data(), z / SC, &ol); mc::trace();
        std::vector<k_line> l(ol, ol + n); free(ol);
        std::map<P,int> deg; for (auto &k : l) { deg[{k.x1, k.y1}]++; deg[{k.x2, k.y2}]++; if (k.x1 == k.x2 && k.y1 == k.y2) { mc::fail("zero-length", "segment of length zero"); return; } }
        for (auto &q : deg) if (q.second & 1) { mc::fail("open-slice", "the section is not closed at (%ld,%ld)", q.first.x, q.first.y); return; }
        double h = std::floor(z + 0.5) + 0.25; std::string exp;
        for (auto &f : FP) {
            double x = f[0] * (double)L, y = f[1] * (double)L; bool w = inside(p, x, y, h), skip = false;
            for (int k = 0; k < 8 && !skip; k++) skip = inside(p, x + 3 * ((k & 1) ? 1 : -1) * (k < 4 ? 1 : .3), y + 3 * ((k & 2) ? 1 : -1) * (k < 4 ? 0.4 : 1.1), h) != w;
            if (skip) { exp += '?'; continue; }
            bool g = false; for (auto &k : l) g ^= crosses(k, std::lround(x * SUB), std::lround(y * SUB)); mc::trans(); exp += (char)('0' + w);
            if (g != w) { mc::fail("wrong-section", "point (%g,%g) must be %s the section", x / (double)L, y / (double)L, w ? "in" : "outside"); return; }
        }
        mc::state(mc::hash(exp));
    }
}
static long det(V3 a, V3 b, V3 c, V3 d) { long x1 = b.x - a.x, y1 = b.y - a.y, z1 = b.z - a.z, x2 = c.x - a.x, y2 = c.y - a.y, z2 = c.z - a.z, x3 = d.x - a.x, y3 = d.y - a.y, z3 = d.z - a.z; return x1 * (y2 * z3 - z2 * y3) - y1 * (x2 * z3 - z2 * x3) + z1 * (x2 * y3 - y2 * x3); }
static bool simple(const Contour &c) { size_t n = c.size(); for (size_t i = 0; i < n; i++) { if (orient(c[i], c[(i + 1) % n], c[(i + 2) % n]) == 0) return false; for (size_t j = i + 1; j < n; j++) { P a = c[i], b = c[(i + 1) % n], e = c[j], f = c[(j + 1) % n]; if (strictly_on(e, a, b) || strictly_on(f, a, b) || strictly_on(a, e, f) || strictly_on(b, e, f)) return false; if (orient(a, b, e) * orient(a, b, f) < 0 && orient(e, f, a) * orient(e, f, b) < 0) return false; } } return true; }
static std::vector<Contour> bases() {
    std::vector<Contour> r; for (auto &c : polys(3, 3, true, true)) if (simple(c)) r.push_back(c);
    // concave pentagons to octagons: combs, L, T, W
    r.push_back({{0, 0}, {2, 0}, {2, 2}, {1, 1}, {0, 2}}); r.push_back({{0, 0}, {2, 0}, {1, 1}, {2, 2}, {0, 2}}); r.push_back({{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}});
    r.push_back({{0, 0}, {4, 0}, {4, 2}, {3, 1}, {2, 2}, {1, 1}, {0, 2}}); r.push_back({{0, 0}, {1, 2}, {2, 1}, {3, 2}, {4, 0}, {3, 1}, {2, 0}, {1, 1}}); r.push_back({{0, 2}, {0, 0}, {3, 0}, {3, 2}, {2, 2}, {2, 1}, {1, 1}, {1, 2}});
    return r;
}
void mc_main() {
    bool T = mc::thorough; FP.clear();
    for (int j = -1; j < 29; j++) for (int i = -1; i < 29; i++) { if (!T && ((i + j) & 1)) continue; FP.push_back({(i + 0.37 + 0.02 * (j % 7)) / 28 * 4 - 0.5, (j + 0.41 + 0.03 * (i % 5)) / 28 * 4 - 0.5}); }
    std::vector<double> zs = T ? std::vector<double>{-0.5, 0, 0.0001, 0.25, 1. / 3, 0.5, 0.77, 1, 1.2, 1.5, 1.9999, 2, 2.5} : std::vector<double>{0, 1. / 3, 1, 1.5, 2};
    { mc::phase("all tetrahedra on the 3x3x3 grid"); std::vector<V3> g; for (int z = 0; z < 3; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) g.push_back({x, y, z});
      for (int a = 0; a < 27; a++) for (int b = a + 1; b < 27; b++) for (int c = b + 1; c < 27; c++) for (int d = c + 1; d < 27; d++) {
        if (!mc::next()) continue; if (!det(g[a], g[b], g[c], g[d])) continue;
        check({{g[a], g[b], g[c], g[d]}, {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {0, 2, 3}}}, zs, (a * 31 + b * 17 + c * 5 + d) & 3); } }
    auto B = bases();
    mc::phase("prisms over simple polygons, all axes, sheared");
    for (size_t bi = 0; bi < B.size(); bi++) for (int ax = 0; ax < 3; ax++) for (int sh = 0; sh < 6; sh++) for (int var = 0; var < 4; var++) {
        if (!mc::next()) continue; Poly3 p; int n = (int)B[bi].size(); std::vector<int> bot, top;
        for (int k = 0; k < 2; k++) for (auto &q : B[bi]) { long x = q.x, y = q.y, z = k * 2; if (sh & 1) x += k; if (sh & 2) y += k; if (sh >= 4) z += (sh == 4 ? q.x : q.y); V3 v = ax == 0 ? V3{x, y, z} : ax == 1 ? V3{z, x, y} : V3{y, z, x}; p.v.push_back(v); }
        for (int i = 0; i < n; i++) { bot.push_back(i); top.push_back(n + n - 1 - i); p.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); } p.f.push_back(bot); p.f.push_back(top); check(p, zs, var); }
    mc::phase("pyramids over simple polygons");
    for (size_t bi = 0; bi < B.size(); bi++) for (int ax = 0; ax < 3; ax++) for (int ap = 0; ap < 9; ap++) for (int up = 0; up < 2; up++) {
        if (!mc::next()) continue; Poly3 p; int n = (int)B[bi].size(); std::vector<int> bot;
        auto put = [&](long x, long y, long z) { p.v.push_back(ax == 0 ? V3{x, y, z} : ax == 1 ? V3{z, x, y} : V3{y, z, x}); };
        for (auto &q : B[bi]) put(q.x, q.y, up ? 0 : 2); put(ap % 3, ap / 3, up ? 2 : 0);
        for (int i = 0; i < n; i++) { bot.push_back(i); p.f.push_back({i, n, (i + 1) % n}); } p.f.push_back(bot); check(p, zs, ap & 3); }
    mc::phase("two tetrahedra with a common vertex, edge or face"); { std::vector<V3> g; for (int i = 0; i < 27; i += 2) g.push_back({i % 3, i / 3 % 3, i / 9}); int G = (int)g.size();
      for (int a = 0; a < G; a++) for (int b = a + 1; b < G; b++) for (int c = b + 1; c < G; c++) for (int d = c + 1; d < G; d++) { if (!det(g[a], g[b], g[c], g[d])) { continue; }
        if (!mc::next()) continue; for (int s = 1; s <= 3; s++) { Poly3 p{{g[a], g[b], g[c], g[d]}, {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {0, 2, 3}}};
          // mirror image through the shared part
          V3 o = g[d]; std::vector<V3> m = {g[a], g[b], g[c]}; int base = 4; if (s == 1) { for (auto &v : m) p.v.push_back({2 * o.x - v.x, 2 * o.y - v.y, 2 * o.z - v.z}); p.f.push_back({3, base, base + 1}); p.f.push_back({3, base + 1, base + 2}); p.f.push_back({3, base + 2, base}); p.f.push_back({base, base + 2, base + 1}); }
          else if (s == 2) { p.v.push_back({2 * o.x - g[a].x, 2 * o.y - g[a].y, 2 * o.z - g[a].z}); p.v.push_back({2 * g[c].x - g[b].x, 2 * g[c].y - g[b].y, 2 * g[c].z - g[b].z}); if (!det(p.v[2], p.v[3], p.v[4], p.v[5])) continue; p.f.push_back({2, 3, 4}); p.f.push_back({2, 5, 3}); p.f.push_back({3, 5, 4}); p.f.push_back({2, 4, 5}); }
          else { p.v.push_back({g[a].x + g[b].x - g[d].x, g[a].y + g[c].y - g[d].y, g[a].z + g[b].z - g[d].z}); if (!det(p.v[0], p.v[1], p.v[2], p.v[4])) continue; p.f.push_back({0, 1, 2}); p.f.push_back({0, 4, 1}); p.f.push_back({1, 4, 2}); p.f.push_back({0, 2, 4}); }
          check(p, zs, s); if (mc::failed()) break; } } }
}
