// C07/C08: triangulation tiles the region exactly; outline paths bound it exactly.
#include "../kern.hpp"
#ifndef MODE
#define MODE K_TRI
#endif
typedef std::vector<unsigned char> Fn;
static Fn fn_bits(unsigned f, int n) { Fn r(1u << n); for (unsigned i = 0; i < (1u << n); i++) r[i] = (f >> i) & 1; return r; }
static bool to_int(double v, long &o) { double s = v * k_get_scale(); o = std::lround(s); return std::fabs(s - (double)o) < 1e-6 * std::max(1.0, std::fabs(s)); }

static void one(const Edges &e, const Fn &f, int n, const std::vector<P> &s) {
    k_out o; k_run(K_REDUCE, e.data(), (int)e.size(), f.data(), n, &o); auto l = lines_of(o); k_free(&o);
    std::set<std::pair<P,P>> bnd; for (auto &k : l) { P a{k.x1, k.y1}, b{k.x2, k.y2}; if (b < a) std::swap(a, b); bnd.insert({a, b}); }
    k_run(MODE, e.data(), (int)e.size(), f.data(), n, &o); mc::trace();
    struct Free { k_out *o; ~Free() { k_free(o); } } fr{&o};
    if (!o.ok) { mc::fail("refused", "the kernel reports an error for a closed region"); return; }
    std::vector<P> pt; std::set<P> uniq;
    for (int i = 0; i < o.npt; i++) {
        P p; if (!to_int(o.pt[i].x, p.x) || !to_int(o.pt[i].y, p.y)) { mc::fail("off-grid", "point (%g,%g) is not on the grid", o.pt[i].x, o.pt[i].y); return; }
        pt.push_back(p); if (!uniq.insert(p).second) { mc::fail("duplicate-point", "point (%ld,%ld) listed twice", p.x, p.y); return; }
    }
    std::map<std::pair<P,P>, int> dir; // directed edges
    std::string exp; 
    if (MODE == K_TRI) {
        std::set<std::pair<P,P>> flagged;
        for (int i = 0; i < o.ntri; i++) {
            auto &t = o.tri[i];
            for (int k : t.p) if (k < 0 || k >= o.npt) { mc::fail("bad-index", "triangle %d refers to point %d of %d", i, k, o.npt); return; }
            P v[3] = {pt[t.p[0]], pt[t.p[1]], pt[t.p[2]]};
            int r = orient(v[0], v[1], v[2]);
            if (r == 0) { mc::fail("degenerate-triangle", "triangle %d has no area: (%ld,%ld) (%ld,%ld) (%ld,%ld)", i, v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y); return; }
            if (r > 0) { mc::fail("triangle-orientation", "triangle %d is not clockwise", i); return; }
            for (int k = 0; k < 3; k++) {
                P a = v[k], b = v[(k + 1) % 3];
                if (dir[{a, b}]++) { mc::fail("triangles-overlap", "directed edge (%ld,%ld)-(%ld,%ld) used twice", a.x, a.y, b.x, b.y); return; }
                if (t.flags & (1 << k)) flagged.insert(a < b ? std::make_pair(a, b) : std::make_pair(b, a));
            }
        }
        std::set<std::pair<P,P>> open;
        for (auto &d : dir) if (!dir.count({d.first.second, d.first.first})) { auto a = d.first.first, b = d.first.second; open.insert(a < b ? std::make_pair(a, b) : std::make_pair(b, a)); }
        if (open != bnd) { mc::fail("not-a-tiling", "the triangles' outer edges (%zu) are not the boundary of the region (%zu edges)", open.size(), bnd.size()); return; }
        if (flagged != bnd) { std::string d; for (auto &x : bnd) if (!flagged.count(x)) d += mc::strf(" missing (%ld,%ld)-(%ld,%ld)", x.first.x, x.first.y, x.second.x, x.second.y); for (auto &x : flagged) if (!bnd.count(x)) d += mc::strf(" extra (%ld,%ld)-(%ld,%ld)", x.first.x, x.first.y, x.second.x, x.second.y); mc::fail("outline-flags", "edges marked as outline (%zu) are not the boundary of the region (%zu edges):%s", flagged.size(), bnd.size(), d.c_str()); return; }
        // each sample point lies in exactly one triangle iff it is in the region
        for (auto &p : s) {
            bool want = f[members_at(e, p.x, p.y)]; int c = 0; exp += (char)want; mc::trans();
            for (int i = 0; i < o.ntri; i++) { bool in = false; for (int k = 0; k < 3; k++) { P a = pt[o.tri[i].p[k]], b = pt[o.tri[i].p[(k + 1) % 3]]; k_line q{(int)a.x, (int)a.y, (int)b.x, (int)b.y}; in ^= crosses(q, p.x, p.y); } c += in; }
            if (c != (int)want) { mc::fail("wrong-tiling", "point (%g,%g) must be %s the region, but is in %d triangles", (double)p.x / SUB, (double)p.y / SUB, want ? "in" : "outside", c); return; }
        }
    } else {
        int q = 0; std::set<std::pair<P,P>> got; std::vector<k_line> dl;
        for (int i = 0; i < o.npath; i++) {
            std::set<int> in; if (o.plen[i] < 3) { mc::fail("short-path", "path %d has %d points", i, o.plen[i]); return; }
            std::vector<P> path;
            for (int k = 0; k < o.plen[i]; k++) { int id = o.pidx[q + k]; if (id < 0 || id >= o.npt) { mc::fail("bad-index", "path %d refers to point %d of %d", i, id, o.npt); return; }
                if (!in.insert(id).second) { mc::fail("path-not-simple", "path %d visits point %d twice", i, id); return; } path.push_back(pt[id]); }
            q += o.plen[i];
            for (size_t k = 0; k < path.size(); k++) {
                P a = path[k], b = path[(k + 1) % path.size()];
                if (dir[{a, b}]++ || dir.count({b, a})) { mc::fail("edge-twice", "edge (%ld,%ld)-(%ld,%ld) appears twice", a.x, a.y, b.x, b.y); return; }
                got.insert(a < b ? std::make_pair(a, b) : std::make_pair(b, a)); dl.push_back({(int)a.x, (int)a.y, (int)b.x, (int)b.y});
            }
        }
        if (got != bnd) {
            // collinear vertices may be left out or kept: compare the regions instead
            mc::count("paths with merged edges");
        }
        if (!check_lines("path-", dl)) return;
        // clockwise outer paths, counter-clockwise holes: the winding number is -1 inside and 0 outside
        for (auto &p : s) {
            bool want = f[members_at(e, p.x, p.y)]; int w = 0; exp += (char)want; mc::trans();
            for (auto &k : dl) if (crosses(k, p.x, p.y)) w += k.y2 > k.y1 ? 1 : -1;
            if (w != (want ? -1 : 0)) { mc::fail("wrong-paths", "point (%g,%g) must be %s the region, winding number is %d", (double)p.x / SUB, (double)p.y / SUB, want ? "in" : "outside", w); return; }
        }
        // interior to the right of every path edge
        auto parity = [&](long x, long y) { bool r = false; for (auto &k : l) r ^= crosses(k, x, y); return r; };
        for (auto &k : dl) {
            double mx = 0.5 * ((double)k.x1 + k.x2), my = 0.5 * ((double)k.y1 + k.y2), dx = k.x2 - k.x1, dy = k.y2 - k.y1, n = std::hypot(dx, dy);
            if (n < 40) continue; double ex = dy / n * 0.25, ey = -dx / n * 0.25; bool clear = true;
            for (auto &g : l) if (!((g.x1 == k.x1 && g.y1 == k.y1 && g.x2 == k.x2 && g.y2 == k.y2) || (g.x1 == k.x2 && g.y1 == k.y2 && g.x2 == k.x1 && g.y2 == k.y1)) && seg_dist(mx, my, g.x1, g.y1, g.x2, g.y2) < 2) clear = false;
            if (!clear) continue; mc::trans();
            if (!parity(std::lround((mx + ex) * SUB), std::lround((my + ey) * SUB))) { mc::fail("path-orientation", "the interior is not on the right of (%d,%d)-(%d,%d)", k.x1, k.y1, k.x2, k.y2); return; }
        }
    }
    mc::state(mc::hash(exp, mc::hash(&n, sizeof n)));
}
static std::vector<std::array<double,2>> F3, F4;
static void space(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, const std::vector<Contour> &C, const std::vector<unsigned> &fs, long L, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L, 0, -2); int n = C.empty() ? 2 : 3; std::vector<Contour> one1(1); 
    for (auto &a : A) for (auto &b : B) for (auto &c : C.empty() ? one1 : C) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L, 0, -2), 1); add_edges(e, scaled(b, L, 0, -2), 2); if (n == 3) add_edges(e, scaled(c, L, 0, -2), 4);
        auto s = margin > 0 ? decided(S, e, margin) : S;
        for (unsigned f : fs) { mc::desc_s(mc::strf("truth table %x\n", f) + show(e)); one(e, fn_bits(f, n), n, s); if (mc::failed()) break; }
        mc::sample(show(e));
    }
}
// k x k cells, every subset: all pixel images (holes, corner contacts, islands in holes)
static void pixels(int w, int h, long L, int skew) {
    mc::phase(mc::strf("all subsets of %dx%d cells, spacing %ld, skew %d", w, h, L, skew).c_str());
    for (unsigned m = 1; m < (1u << (w * h)); m++) {
        if (!mc::next()) continue;
        Edges e; std::vector<P> s;
        auto at = [&](int x, int y) { return P{x * L + (skew & 1 ? y * (L / 3 + 1) : 0), y * L + (skew & 2 ? x * (L / 5 + 1) : 0)}; };
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            if (m >> (y * w + x) & 1) add_edges(e, {at(x, y), at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)}, 1);
            P a = at(x, y), b = at(x + 1, y + 1); s.push_back({(a.x + b.x) * SUB / 2 + 1, (a.y + b.y) * SUB / 2 + 3});
        }
        for (int i = -1; i <= w; i++) { P a = at(i, -1), b = at(i + 1, 0); s.push_back({(a.x + b.x) * SUB / 2 + 1, (a.y + b.y) * SUB / 2 + 1}); a = at(i, h), b = at(i + 1, h + 1); s.push_back({(a.x + b.x) * SUB / 2 + 1, (a.y + b.y) * SUB / 2 + 1}); }
        mc::desc_s(mc::strf("cells %x of %dx%d, spacing %ld skew %d\n", m, w, h, L, skew) + show(e)); mc::sample(show(e));
        one(e, {0, 1}, 1, s);
    }
}
// combs, stars and spirals: long monotone chains and many simultaneous events
static void chains() {
    mc::phase("combs, zig-zags, regular polygons with holes");
    for (int n = 3; n <= (mc::thorough ? 40 : 16); n++) for (int kind = 0; kind < 6; kind++) for (int rot = 0; rot < 4; rot++) for (long L : {7L, 1000L}) {
        if (!mc::next()) continue;
        std::vector<Contour> cs; Contour c;
        switch (kind) {
        case 0: for (int i = 0; i < n; i++) { c.push_back({2 * i * L, 0}); c.push_back({(2 * i + 1) * L, (i % 3 + 1) * L}); } c.push_back({2 * n * L, 0}); c.push_back({2 * n * L, -5 * L}); c.push_back({0, -5 * L}); break;
        case 1: for (int i = 0; i < n; i++) { c.push_back({3 * i * L, 0}); c.push_back({3 * i * L, 9 * L}); c.push_back({(3 * i + 1) * L, 9 * L}); c.push_back({(3 * i + 1) * L, 0}); } c.push_back({3 * n * L, 0}); c.push_back({3 * n * L, -L}); c.push_back({0, -L}); break;
        case 2: for (int i = 0; i < n; i++) { double w = 6.283185307 * i / n; c.push_back({std::lround(20.0 * (double)L * cos(w)), std::lround(20.0 * (double)L * sin(w))}); } cs.push_back(c); c.clear();
                for (int i = 0; i < n; i++) { double w = 6.283185307 * (i + 0.5) / n; c.push_back({std::lround(4.0 * (double)L * cos(w)), std::lround(4.0 * (double)L * sin(w))}); } break;
        case 3: for (int i = 0; i < 2 * n; i++) { double w = 6.283185307 * i / (2 * n); double r = (i & 1 ? 6.0 : 20.0) * (double)L; c.push_back({std::lround(r * cos(w)), std::lround(r * sin(w))}); } break;
        case 4: { long x = 0, y = 0, d = n; Contour in; int k = 0; for (d = n; d > 0; d--, k++) { c.push_back({x, y}); switch (k & 3) { case 0: x += d * 3 * L; break; case 1: y += d * 3 * L; break; case 2: x -= d * 3 * L; break; default: y -= d * 3 * L; } }
                  c.push_back({x, y}); Contour b; for (size_t i = c.size(); i-- > 0;) b.push_back({c[i].x + L, c[i].y + L / 2 + 1}); c.insert(c.end(), b.begin(), b.end()); break; }
        default: for (int i = 0; i < n; i++) cs.push_back({{i * L, i * L}, {(i + 3) * L, i * L}, {(i + 3) * L, (i + 3) * L}, {i * L, (i + 3) * L}}); c = {{0, 0}, {n * L, n * L}, {n * L, n * L + 2 * L}}; break;
        }
        cs.push_back(c); Edges e;
        for (auto d : cs) { for (auto &p : d) for (int r = 0; r < rot; r++) { long t = p.x; p.x = -p.y; p.y = t; } add_edges(e, d, 1); }
        std::vector<P> s; long mnx = 1e9, mny = 1e9, mxx = -1e9, mxy = -1e9; for (auto &k : e) { mnx = std::min<long>(mnx, k.x1); mxx = std::max<long>(mxx, k.x1); mny = std::min<long>(mny, k.y1); mxy = std::max<long>(mxy, k.y1); }
        for (int i = 0; i < 40; i++) for (int j = 0; j < 40; j++) s.push_back({mnx * SUB + (long)((i + 0.37) / 40 * (double)(mxx - mnx) * SUB), mny * SUB + (long)((j + 0.61) / 40 * (double)(mxy - mny) * SUB)});
        mc::desc_s(mc::strf("n=%d kind=%d rot=%d spacing %ld\n", n, kind, rot, L) + show(e)); mc::sample(show(e));
        one(e, {0, 1}, 1, decided(s, e, 1.5));
    }
}
void mc_main() {
    bool T = mc::thorough; F3 = face_points(3, 3); F4 = face_points(4, 4);
    auto t3 = polys(3, 3, true, false), t3c = polys(3, 3, true, false, true), a3 = polys(3, 3, true, true), a3c = polys(3, 3, true, true, true), q3c = polys(3, 3, false, true, true);
    auto t4 = polys(4, 4, true, false), t4c = polys(4, 4, true, false, true), q4c = polys(4, 4, false, true, true);
    space("pairs of 3/4-gons, 3x3 grid, fine", a3c, a3, {}, T ? std::vector<unsigned>{14, 8, 2, 6, 4} : std::vector<unsigned>{14, 2, 6}, 3600, F3, 0);
    for (long L : T ? std::vector<long>{1, 2, 3, 4, 5, 7} : std::vector<long>{1, 3}) space(mc::strf("pairs of 3/4-gons, 3x3 grid, spacing %ld (snapping)", L).c_str(), a3c, a3, {}, {14, 6, 2}, L, F3, 1.5);
    space("pairs of triangles, 4x4 grid, fine", t4c, t4, {}, {6, 2}, 3600, F4, 3);
    space("pairs of triangles, 4x4 grid, spacing 2", t4c, t4, {}, {6, 14}, 2, F4, 1.5);
    if (T) space("pairs quad x triangle, 4x4 grid, spacing 3", q4c, t4, {}, {6, 2}, 3, F4, 1.5);
    space("triples of triangles, fine", t3c, t3, T ? t3 : t3c, {254, 0x96, 0x16}, 3600, F3, 0);
    space("triples of triangles, spacing 2", t3c, t3, T ? t3 : t3c, {0x96, 2}, 2, F3, 1.5);
    for (int k = 0; k < 4; k++) { pixels(4, 3, 1000, k); if (T) pixels(4, 4, 10, k); }
    pixels(4, 3, 1, 0); if (T) { pixels(5, 3, 60, 0); pixels(3, 5, 60, 1); }
    if (T) pixels(5, 4, 12, 2);
    chains();
}
