// Shapes on small grids, exact even-odd reference, structural checks of sweep output.
#pragma once
#include "mc.hpp"
#include "kshim.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <array>
#include <string>

struct P { long x, y; bool operator<(const P &o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const P &o) const { return x == o.x && y == o.y; } };
typedef std::vector<P> Contour;
typedef std::vector<Contour> Shape;
typedef std::vector<k_edge> Edges;
static const long SUB = 16; // sample points are multiples of 1/16 unit

// all closed polygons with 3 and (if quads) 4 distinct vertices of a gx x gy grid
inline std::vector<Contour> polys(int gx, int gy, bool tris, bool quads, bool canon = false) {
    std::vector<P> g; for (int y = 0; y < gy; y++) for (int x = 0; x < gx; x++) g.push_back({x, y});
    int n = (int)g.size(); std::vector<Contour> r; std::set<std::vector<std::vector<long>>> seen;
    auto key = [&](const Contour &c) { // canonical under D4 (square grid) and rotation/reversal of the sequence
        std::vector<std::vector<long>> best; long m = gx - 1;
        for (int s = 0; s < 8; s++) {
            Contour d; for (auto p : c) { long x = p.x, y = p.y; if (s & 1) x = m - x; if (s & 2) y = m - y; if (s & 4) std::swap(x, y); d.push_back({x, y}); }
            for (size_t k = 0; k < d.size(); k++) for (int dir = 0; dir < 2; dir++) {
                std::vector<std::vector<long>> v; for (size_t i = 0; i < d.size(); i++) { auto p = d[(k + (dir ? d.size() - i : i)) % d.size()]; v.push_back({p.x, p.y}); }
                if (best.empty() || v < best) best = v;
            }
        }
        return best;
    };
    auto add = [&](Contour c) { if (canon) { if (!seen.insert(key(c)).second) return; } r.push_back(c); };
    if (tris) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) add({g[a], g[b], g[c]});
    if (quads) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) for (int d = c + 1; d < n; d++) {
        add({g[a], g[b], g[c], g[d]}); add({g[a], g[c], g[b], g[d]}); add({g[a], g[b], g[d], g[c]});
    }
    return r;
}
inline Contour scaled(const Contour &c, long L, long ox = 0, long oy = 0) { Contour r; for (auto p : c) r.push_back({p.x * L + ox, p.y * L + oy}); return r; }
inline void add_edges(Edges &e, const Contour &c, int member) {
    for (size_t i = 0; i < c.size(); i++) { auto &a = c[i], &b = c[(i + 1) % c.size()]; e.push_back({(int)a.x, (int)a.y, (int)b.x, (int)b.y, member}); }
}
inline std::string show(const Edges &e) {
    std::string s; for (auto &k : e) s += mc::strf("%d: (%d,%d)-(%d,%d)\n", k.member, k.x1, k.y1, k.x2, k.y2); return s;
}
// even-odd parity of (x,y)/SUB; edges as x1,y1,x2,y2
template<class E> inline bool crosses(const E &e, long x, long y) {
    long y1 = (long)e.y1 * SUB, y2 = (long)e.y2 * SUB;
    if ((y1 > y) == (y2 > y)) return false;
    long x1 = (long)e.x1 * SUB, x2 = (long)e.x2 * SUB;
    // x < x1 + (y-y1)*(x2-x1)/(y2-y1)
    if (x < std::min(x1, x2)) return true;
    if (x >= std::max(x1, x2)) return false;
    __int128 l = (__int128)(x - x1) * (y2 - y1), r = (__int128)(y - y1) * (x2 - x1);
    return y2 > y1 ? l < r : l > r;
}
inline unsigned members_at(const Edges &e, long x, long y) { unsigned m = 0; for (auto &k : e) if (crosses(k, x, y)) m ^= (unsigned)k.member; return m; }
inline double seg_dist(double px, double py, double x1, double y1, double x2, double y2) {
    double dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy, t = l ? ((px - x1) * dx + (py - y1) * dy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t;
    return std::hypot(px - x1 - t * dx, py - y1 - t * dy);
}
// sample points (unit: 1/SUB) that are at least `margin` from every edge: none is undecided
struct Samples {
    std::vector<P> pt; // in units of 1/SUB, relative to unit grid * L
};
// one point in every cell of the arrangement of all lines through two grid points
inline std::vector<std::array<double,2>> face_points(int gx, int gy) {
    std::vector<std::array<long,3>> lines; std::set<std::array<long,3>> ls;
    std::vector<P> g; for (int y = 0; y < gy; y++) for (int x = 0; x < gx; x++) g.push_back({x, y});
    for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++) {
        long a = g[j].y - g[i].y, b = g[i].x - g[j].x; long d = std::__gcd(std::labs(a), std::labs(b)); a /= d; b /= d;
        if (a < 0 || (a == 0 && b < 0)) { a = -a; b = -b; }
        ls.insert({a, b, a * g[i].x + b * g[i].y});
    }
    lines.assign(ls.begin(), ls.end());
    std::map<std::vector<bool>, std::pair<double, std::array<double,2>>> best;
    int N = 211; 
    for (int j = -3; j <= N + 3; j++) for (int i = -3; i <= N + 3; i++) {
        double x = (i + 0.371) / N * (gx - 1), y = (j + 0.613) / N * (gy - 1), m = 1e9; std::vector<bool> s;
        for (auto &l : lines) { double d = ((double)l[0] * x + (double)l[1] * y - (double)l[2]) / std::hypot((double)l[0], (double)l[1]); s.push_back(d > 0); m = std::min(m, std::fabs(d)); }
        auto &b = best[s]; if (m > b.first) b = {m, {x, y}};
    }
    std::vector<std::array<double,2>> r; for (auto &k : best) r.push_back(k.second.second);
    return r;
}
inline std::vector<P> sample_pts(const std::vector<std::array<double,2>> &f, long L, long ox = 0, long oy = 0) {
    std::vector<P> r; for (auto &p : f) r.push_back({std::lround(p[0] * (double)L * SUB) + ox * SUB, std::lround(p[1] * (double)L * SUB) + oy * SUB}); return r;
}
// keep the sample points that are decided for this set of edges
inline std::vector<P> decided(const std::vector<P> &s, const Edges &e, double margin) {
    std::vector<P> r;
    for (auto &p : s) {
        bool ok = true;
        for (auto &k : e) if (seg_dist((double)p.x / SUB, (double)p.y / SUB, k.x1, k.y1, k.x2, k.y2) < margin) { ok = false; break; }
        if (ok) r.push_back(p);
    }
    return r;
}
inline int sgn(__int128 v) { return v < 0 ? -1 : v > 0; }
inline int orient(P a, P b, P c) { return sgn((__int128)(b.x - a.x) * (c.y - a.y) - (__int128)(b.y - a.y) * (c.x - a.x)); }
inline bool strictly_on(P p, P a, P b) { // p in the interior of ab
    if (p == a || p == b || orient(a, b, p)) return false;
    return std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
// the boundary lines: no empty edge, none twice, even degree, no contact except at common end points
inline bool check_lines(const char *pre, const std::vector<k_line> &l) {
    std::set<std::pair<P,P>> seen; std::map<P,int> deg;
    for (auto &k : l) {
        P a{k.x1, k.y1}, b{k.x2, k.y2};
        if (a == b) { mc::fail(std::string(pre) + "empty-edge", "edge of length 0 at (%ld,%ld)", a.x, a.y); return false; }
        if (b < a) std::swap(a, b);
        if (!seen.insert({a, b}).second) { mc::fail(std::string(pre) + "duplicate-edge", "edge (%ld,%ld)-(%ld,%ld) twice", a.x, a.y, b.x, b.y); return false; }
        deg[a]++; deg[b]++;
    }
    for (auto &d : deg) if (d.second & 1) { mc::fail(std::string(pre) + "open-boundary", "vertex (%ld,%ld) has odd degree %d", d.first.x, d.first.y, d.second); return false; }
    if (l.size() <= 1500) for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) {
        P a{l[i].x1, l[i].y1}, b{l[i].x2, l[i].y2}, c{l[j].x1, l[j].y1}, d{l[j].x2, l[j].y2};
        bool bad = strictly_on(c, a, b) || strictly_on(d, a, b) || strictly_on(a, c, d) || strictly_on(b, c, d) ||
            (orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0);
        if (bad) { mc::fail(std::string(pre) + "edges-cross", "edges (%ld,%ld)-(%ld,%ld) and (%ld,%ld)-(%ld,%ld) meet inside", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y); return false; }
    }
    return true;
}
// every vertex is an input vertex or the rounded position of a crossing of two input edges
inline bool check_vertices(const char *pre, const std::vector<k_line> &l, const Edges &e) {
    std::set<P> vs; for (auto &k : l) { vs.insert({k.x1, k.y1}); vs.insert({k.x2, k.y2}); }
    for (auto &v : vs) {
        bool ok = false;
        for (auto &k : e) if ((k.x1 == v.x && k.y1 == v.y) || (k.x2 == v.x && k.y2 == v.y)) { ok = true; break; }
        for (size_t i = 0; i < e.size() && !ok; i++) for (size_t j = i + 1; j < e.size() && !ok; j++) {
            double ax = e[i].x1, ay = e[i].y1, bx = (double)e[i].x2 - ax, by = (double)e[i].y2 - ay, cx = e[j].x1, cy = e[j].y1, dx = (double)e[j].x2 - cx, dy = (double)e[j].y2 - cy;
            double den = bx * dy - by * dx; if (den == 0) continue;
            double t = ((cx - ax) * dy - (cy - ay) * dx) / den, u = ((cx - ax) * by - (cy - ay) * bx) / den;
            if (t < -1e-9 || t > 1 + 1e-9 || u < -1e-9 || u > 1 + 1e-9) continue;
            double px = ax + t * bx, py = ay + t * by;
            if (std::fabs(px - (double)v.x) <= 0.5 + 1e-6 && std::fabs(py - (double)v.y) <= 0.5 + 1e-6) ok = true;
        }
        if (!ok) { mc::fail(std::string(pre) + "vertex-invented", "vertex (%ld,%ld) is neither an input vertex nor a rounded crossing", v.x, v.y); return false; }
    }
    return true;
}
inline std::vector<k_line> lines_of(const k_out &o) { return std::vector<k_line>(o.line, o.line + o.nline); }
inline std::vector<k_line> canon_lines(std::vector<k_line> l) {
    for (auto &k : l) if (std::make_pair(k.x2, k.y2) < std::make_pair(k.x1, k.y1)) { std::swap(k.x1, k.x2); std::swap(k.y1, k.y2); }
    std::sort(l.begin(), l.end(), [](const k_line &a, const k_line &b) { return std::tie(a.x1, a.y1, a.x2, a.y2) < std::tie(b.x1, b.y1, b.x2, b.y2); });
    return l;
}
inline bool same_lines(const std::vector<k_line> &a, const std::vector<k_line> &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(k_line)); }
