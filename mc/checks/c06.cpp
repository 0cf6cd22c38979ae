// C06: the 2D kernel computes exactly the requested boolean function.
#include "../kern.hpp"
typedef std::vector<unsigned char> Fn;
static Fn fn_bits(unsigned f, int n) { Fn r(1u << n); for (unsigned i = 0; i < (1u << n); i++) r[i] = (f >> i) & 1; return r; }

// one sweep, all oracles
static std::vector<unsigned> memb(const Edges &e, const std::vector<P> &s) { std::vector<unsigned> r; for (auto &p : s) r.push_back(members_at(e, p.x, p.y)); return r; }
static void one(const Edges &e, const Fn &f, int n, const std::vector<P> &s, const std::vector<unsigned> &mm, bool vert = true) {
    k_out o; k_run(K_REDUCE, e.data(), (int)e.size(), f.data(), n, &o);
    auto l = lines_of(o); bool empty = o.empty; k_free(&o); mc::trace();
    if (empty != l.empty()) mc::fail("empty-flag", "reported empty=%d with %zu edges", empty, l.size());
    uint64_t h = mc::hash(&n, sizeof n); std::string exp;
    for (size_t i = 0; i < s.size(); i++) {
        auto &p = s[i]; bool want = f[mm[i]], got = false;
        for (auto &k : l) got ^= crosses(k, p.x, p.y);
        exp += (char)want; mc::trans();
        if (want != got) { mc::fail("wrong-region", "point (%g,%g) must be %s the result", (double)p.x / SUB, (double)p.y / SUB, want ? "in" : "outside"); break; }
    }
    mc::state(mc::hash(exp, h));
    if (!mc::failed()) check_lines("", l);
    if (!mc::failed() && vert) check_vertices("", l, e);
}
static std::string fname(unsigned f) { return mc::strf("truth table %x\n", f); }

static std::vector<std::array<double,2>> F3, F4;

static void pairs(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, long L, long ox, long oy, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L, ox, oy);
    for (auto &a : A) for (auto &b : B) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L, ox, oy), 1); add_edges(e, scaled(b, L, ox, oy), 2);
        auto s = margin > 0 ? decided(S, e, margin) : S;
        auto mm = memb(e, s);
        for (unsigned f = 2; f < 16 && !mc::failed(); f += 2) { mc::desc_s(fname(f) + show(e)); one(e, fn_bits(f, 2), 2, s, mm); }
        mc::sample(show(e));
    }
}
static void evenodd(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, long L, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L);
    for (auto &a : A) for (auto &b : B) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L), 1); add_edges(e, scaled(b, L), 1);
        auto s = margin > 0 ? decided(S, e, margin) : S;
        mc::desc_s("one polygon with two contours\n" + show(e)); one(e, {0, 1}, 1, s, memb(e, s));
        mc::sample(show(e));
    }
}
static void order(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, long L) {
    mc::phase(name);
    for (auto &a : A) for (auto &b : B) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L), 1); add_edges(e, scaled(b, L), 2);
        int n = (int)e.size();
        for (unsigned f : {14u, 8u, 2u, 6u}) {
            auto bits = fn_bits(f, 2); std::vector<k_line> ref; bool have = false;
            for (int v = 0; v < 8; v++) {
                Edges g = e;
                if (v & 1) std::reverse(g.begin(), g.end());
                if (v & 2) { Edges h; for (int i = 0; i < n; i++) h.push_back(g[(i * (n % 3 ? 3 : n % 5 ? 5 : 1)) % n]); g = h; }
                if (v & 4) for (size_t i = 0; i < g.size(); i += 2) { std::swap(g[i].x1, g[i].x2); std::swap(g[i].y1, g[i].y2); }
                if (v == 6) std::rotate(g.begin(), g.begin() + 2, g.end());
                mc::desc_s(fname(f) + mc::strf("variant %d\n", v) + show(g));
                k_out o; k_run(K_REDUCE, g.data(), n, bits.data(), 2, &o);
                auto l = canon_lines(lines_of(o)); k_free(&o); mc::trace(); mc::trans();
                if (!have) { ref = l; have = true; mc::state(mc::hash(l.data(), l.size() * sizeof(k_line))); }
                else if (!same_lines(ref, l)) { mc::fail("order-dependent", "adding the same edges in another order or direction gives another result"); break; }
            }
            if (mc::failed()) break;
        }
        mc::sample(show(e));
    }
}
static void triples(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, const std::vector<Contour> &C, const std::vector<unsigned> &fs, long L, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L);
    for (auto &a : A) for (auto &b : B) for (auto &c : C) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L), 1); add_edges(e, scaled(b, L), 2); add_edges(e, scaled(c, L), 4);
        auto s = margin > 0 ? decided(S, e, margin) : S;
        auto mm = memb(e, s);
        for (unsigned f : fs) { mc::desc_s(fname(f) + show(e)); one(e, fn_bits(f, 3), 3, s, mm); if (mc::failed()) break; }
        mc::sample(show(e));
    }
}
// (A op1 B) op2 C in two sweeps
static void staged(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, const std::vector<Contour> &C, long L, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L);
    for (auto &a : A) for (auto &b : B) for (auto &c : C) {
        if (!mc::next()) continue;
        Edges e, e2; add_edges(e, scaled(a, L), 1); add_edges(e, scaled(b, L), 2); add_edges(e2, scaled(c, L), 2);
        Edges all = e; all.insert(all.end(), e2.begin(), e2.end());
        auto s = decided(S, all, margin);
        for (unsigned f : {14u, 8u, 2u, 4u, 6u}) for (unsigned g : {14u, 8u, 2u, 4u, 6u}) {
            auto b1 = fn_bits(f, 2), b2 = fn_bits(g, 2);
            mc::desc_s("staged " + fname(f) + show(e) + "then " + fname(g) + show(e2));
            k_out o; k_run2(K_REDUCE, e.data(), (int)e.size(), b1.data(), 2, 1, e2.data(), (int)e2.size(), b2.data(), 2, &o);
            auto l = lines_of(o); k_free(&o); mc::trace(); std::string exp;
            for (auto &p : s) {
                unsigned m = b1[members_at(e, p.x, p.y)] | members_at(e2, p.x, p.y);
                bool want = b2[m], got = false; for (auto &k : l) got ^= crosses(k, p.x, p.y);
                exp += (char)want; mc::trans();
                if (want != got) { mc::fail("wrong-region-staged", "point (%g,%g) must be %s the result", (double)p.x / SUB, (double)p.y / SUB, want ? "in" : "outside"); break; }
            }
            mc::state(mc::hash(exp, 77));
            if (!mc::failed()) check_lines("", l);
            if (mc::failed()) break;
        }
    }
}
// n long edges through one common point (integral or not), and pencils through several points
static void stars() {
    mc::phase("n edges through one point");
    std::vector<int> ns; for (int n = 2; n <= (mc::thorough ? 40 : 10); n++) ns.push_back(n);
    for (int n : {60, 102, 103, 150}) ns.push_back(n);
    if (mc::thorough) for (int n : {99, 100, 101, 104, 200, 260}) ns.push_back(n);
    for (int n : ns) for (int kind = 0; kind < 4; kind++) for (int rev = 0; rev < 2; rev++) {
        if (!mc::next()) continue;
        Edges e; long R = 100000;
        for (int i0 = 0; i0 < n; i0++) {
            int i = rev ? n - 1 - i0 : i0;
            double w = 3.14159265358979 * (i + 0.25) / n; long x = std::lround((double)R * std::cos(w)), y = std::lround((double)R * std::sin(w));
            long x2, y2; // mirrored end: crossing at (0,0), (1/2,1/2), (0,1/2), or (1/3,1/3) (unequal arms)
            if (kind == 0) { x2 = -x; y2 = -y; } else if (kind == 1) { x2 = 1 - x; y2 = 1 - y; } else if (kind == 2) { x2 = -x; y2 = 1 - y; }
            else { x = x / 3 * 3 ; y = y / 3 * 3; x2 = -2 * (x / 1) + 1; y2 = -2 * y + 1; } // (2*x + x2)/3 = 1/3
            // close the wedge far outside, so that the common point is the only crossing of the long edges
            double w2 = 3.14159265358979 * (i + 0.75) / n; long r3 = kind == 3 ? R : R; long x3 = std::lround((double)r3 * std::cos(w2)), y3 = std::lround((double)r3 * std::sin(w2));
            Contour c{{x, y}, {x2, y2}, {x3, y3}};
            add_edges(e, c, 1);
        }
        mc::desc_s(mc::strf("star n=%d kind=%d rev=%d\n", n, kind, rev) + (n < 40 ? show(e) : ""));
        std::vector<P> s; for (int i = 0; i < 64; i++) { double w = 6.2831853 * (i + 0.1234) / 64; for (double r : {300.0, 3000.0, 40000.0, 90000.0}) s.push_back({std::lround(r * std::cos(w) * SUB), std::lround(r * std::sin(w) * SUB)}); }
        s = decided(s, e, 3); one(e, {0, 1}, 1, s, memb(e, s), n < 30);
    }
}
// up to ten operands in one sweep, symmetric and asymmetric functions
static void many() {
    mc::phase("3..10 operands in one sweep");
    for (int n = 3; n <= 10; n++) for (int lay = 0; lay < (mc::thorough ? 12 : 6); lay++) {
        if (!mc::next()) continue;
        Edges e; std::vector<P> pts; long L = 1000;
        for (int i = 0; i < n; i++) {
            long x0, y0, x1, y1, k = i;
            switch (lay % 6) {
            case 0: x0 = k * L; y0 = 0; x1 = (k + n / 2 + 1) * L; y1 = 4 * L; break;                 // sliding windows
            case 1: x0 = k * L; y0 = k * L; x1 = (2 * n - k) * L; y1 = (2 * n - k) * L; break;       // nested
            case 2: x0 = (k * 7 % n) * L; y0 = (k * 3 % n) * L; x1 = x0 + 3 * L; y1 = y0 + 3 * L; break;
            case 3: x0 = (k & 1) * L; y0 = (k >> 1 & 1) * L; x1 = x0 + (1 + (k >> 2)) * L; y1 = y0 + 2 * L; break; // shared edges
            case 4: x0 = 0; y0 = 0; x1 = (k + 1) * L; y1 = (n - k) * L; break;                       // common corner
            default: x0 = k * L; y0 = -k * L; x1 = (k + 3) * L; y1 = (k + 1) * L; break;
            }
            Contour c = lay < 6 ? Contour{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}} : Contour{{x0, y0}, {x1, y0 + 130}, {x1 - 370, y1}};
            add_edges(e, c, 1 << i);
        }
        for (long x = -1; x < 3 * n; x++) for (long y = -n - 1; y < 2 * n + 5; y++) pts.push_back({(x * L + 507) * SUB, (y * L + 491) * SUB});
        auto s = decided(pts, e, 3);
        auto mm = memb(e, s);
        for (int fi = 0; fi < 3 * n + 6; fi++) {
            Fn f(1u << n);
            for (unsigned m = 0; m < f.size(); m++) {
                int pc = __builtin_popcount(m); bool v;
                if (fi < n) v = pc > fi;                                // threshold
                else if (fi < 2 * n) v = m >> (fi - n) & 1 && pc == 1;  // only operand fi-n
                else if (fi < 3 * n) v = m >> (fi - 2 * n) & 1;         // operand alone
                else switch (fi - 3 * n) { case 0: v = pc & 1; break; case 1: v = m & 1 && !(m & ~1u); break; case 2: v = pc == n; break;
                    case 3: v = (m & 0x155) && !(m & 0x2aa); break; case 4: v = (m * 2654435761u >> 13 & 1) && m; break; default: v = (m >> (n - 1) & 1) && !(m & 1); }
                f[m] = v;
            }
            mc::desc_s(mc::strf("n=%d layout=%d function=%d\n", n, lay, fi) + show(e));
            one(e, f, n, s, mm);
            if (mc::failed()) break;
        }
    }
}
// the same polygons handed over as point/path arrays in user units
static void as_polys(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B) {
    mc::phase(name);
    for (double scale : {8192.0, 1024.0, 1000.0}) {
        auto S = sample_pts(F3, (long)scale);
        for (auto &a : A) for (auto &b : B) {
            if (!mc::next()) continue;
            k_set_scale(scale);
            Edges e; add_edges(e, scaled(a, (long)scale), 1); add_edges(e, scaled(b, (long)scale), 2);
            std::vector<k_pt> p[2]; std::vector<int> pl[2], pi[2];
            for (int m = 0; m < 2; m++) { auto &c = m ? b : a; for (auto q : c) { pi[m].push_back((int)p[m].size()); p[m].push_back({(double)q.x, (double)q.y}); } pl[m].push_back((int)c.size()); }
            k_polyin in[2]; for (int m = 0; m < 2; m++) in[m] = {(int)p[m].size(), p[m].data(), 1, pl[m].data(), pi[m].data()};
            for (unsigned f : {14u, 8u, 2u, 6u}) {
                auto bits = fn_bits(f, 2); mc::desc_s(mc::strf("scale %g ", scale) + fname(f) + show(e));
                k_out o; k_run_poly(K_REDUCE, 2, in, bits.data(), 2, &o); auto l = lines_of(o); k_free(&o); mc::trace();
                for (auto &q : S) {
                    bool want = bits[members_at(e, q.x, q.y)], got = false; for (auto &k : l) got ^= crosses(k, q.x, q.y); mc::trans();
                    if (want != got) { mc::fail("wrong-region-poly", "point (%g,%g) must be %s the result", (double)q.x / SUB, (double)q.y / SUB, want ? "in" : "outside"); break; }
                }
                if (!mc::failed()) check_lines("", l);
                if (mc::failed()) break;
            }
            k_set_scale(8192);
        }
    }
}
// self-check of edge lists: every pair of segments, in both orders, and with segments around them that meet nothing
static void selfcheck(const char *name, int G, long L, long ox, long oy) {
    mc::phase(name);
    std::vector<P> g; for (int x = 0; x < G; x++) for (int y = 0; y < G; y++) g.push_back({x * L + ox, y * L + oy});
    for (auto &a : g) for (auto &b : g) { if (a == b || !mc::next()) continue;
        for (auto &c : g) for (auto &d : g) { if (c == d) continue;
            bool touch = strictly_on(c, a, b) || strictly_on(d, a, b) || strictly_on(a, c, d) || strictly_on(b, c, d);
            bool par = orient(a, b, c) == 0 && orient(a, b, d) == 0;
            bool cross = !par && orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0;
            int want = par ? touch ? -1 : 0 : touch || cross;
            for (int v = 0; v < (L < 1000 ? 2 : 1); v++) {
                std::vector<k_line> l;
                if (v) l.push_back({(int)(ox - 9 * L), (int)oy, (int)(ox - 9 * L), (int)(oy - 5 * L)});
                l.push_back({(int)a.x, (int)a.y, (int)b.x, (int)b.y}); l.push_back({(int)c.x, (int)c.y, (int)d.x, (int)d.y});
                if (v) l.push_back({(int)(ox - 9 * L), (int)oy, (int)(ox - 5 * L), (int)(oy - 7 * L)});
                mc::desc_s(mc::strf("self-check of (%ld,%ld)-(%ld,%ld) and (%ld,%ld)-(%ld,%ld)", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y));
                int ia, ib; long long p[6]; int r = k_has(l.data(), (int)l.size(), &ia, &ib, p); mc::trace();
                if (r != want) { mc::fail("self-check", "intersection reported as %d, not %d", r, want); break; }
                mc::state((uint64_t)(r + 1));
                if (!r) continue;
                if (ia + ib != 1 + 2 * v || ia < v || ib < v) { mc::fail("self-check-lines", "segments %d and %d reported", ia, ib); break; }
                // the point i + n/d lies on both segments: exact in integers scaled by the denominators
                if (p[2] == 0 || p[5] == 0) { mc::fail("self-check-point", "no point reported"); break; }
                bool ok = true;
                __int128 X = (__int128)p[0] * p[2] + p[1], Y = (__int128)p[3] * p[5] + p[4], DX = p[2], DY = p[5];
                for (int k = 0; k < 2; k++) {
                    P s = k ? c : a, e = k ? d : b;
                    __int128 ux = X - DX * s.x, uy = Y - DY * s.y;
                    if ((__int128)(e.x - s.x) * uy * DX != (__int128)(e.y - s.y) * ux * DY) ok = false;
                    long x0 = std::min(s.x, e.x), x1 = std::max(s.x, e.x), y0 = std::min(s.y, e.y), y1 = std::max(s.y, e.y);
                    if (DX < 0 || DY < 0 || X < DX * x0 || X > DX * x1 || Y < DY * y0 || Y > DY * y1) ok = false;
                }
                if (r < 0 && ok) { // an end point of one segment, inside the other
                    P q{(long)(X / DX), (long)(Y / DY)};
                    ok = X % DX == 0 && Y % DY == 0 && (((q == a || q == b) && strictly_on(q, c, d)) || ((q == c || q == d) && strictly_on(q, a, b)));
                }
                if (!ok) { mc::fail("self-check-point", "reported point (%lld+%lld/%lld, %lld+%lld/%lld) is not where they meet", p[0], p[1], p[2], p[3], p[4], p[5]); break; }
            }
            if (mc::failed()) return;
        }
        mc::sample(mc::strf("(%ld,%ld)-(%ld,%ld) against all segments", a.x, a.y, b.x, b.y));
    }
}
// copies of intersecting edge lists keep the even-odd area and cross no more; bounding boxes
static void copies(const char *name, const std::vector<Contour> &A, const std::vector<Contour> &B, long L, const std::vector<std::array<double,2>> &F, double margin) {
    mc::phase(name); auto S = sample_pts(F, L);
    for (auto &a : A) for (auto &b : B) {
        if (!mc::next()) continue;
        Edges e; add_edges(e, scaled(a, L), 1); add_edges(e, scaled(b, L), 1);
        auto s = margin > 0 ? decided(S, e, margin) : S; auto mm = memb(e, s);
        mc::desc_s("copy of\n" + show(e));
        std::vector<k_line> in; for (auto &k : e) in.push_back({k.x1, k.y1, k.x2, k.y2});
        k_out o; k_copy(in.data(), (int)in.size(), &o); auto l = lines_of(o); k_free(&o); mc::trace();
        // edges that lie on each other are kept once: then the copy is a drawing, no area
        bool lap = margin > 1; // so may edges that are snapped together
        for (size_t i = 0; i < e.size(); i++) for (size_t j = i + 1; j < e.size(); j++) { P p{e[i].x1, e[i].y1}, q{e[i].x2, e[i].y2}, c{e[j].x1, e[j].y1}, d{e[j].x2, e[j].y2};
            if (orient(p, q, c) == 0 && orient(p, q, d) == 0 && (strictly_on(c, p, q) || strictly_on(d, p, q) || strictly_on(p, c, d) || strictly_on(q, c, d) || (p == c && q == d) || (p == d && q == c))) lap = true; }
        if (!lap) for (size_t i = 0; i < s.size(); i++) {
            bool got = false; for (auto &k : l) got ^= crosses(k, s[i].x, s[i].y); mc::trans();
            if (got != (bool)(mm[i] & 1)) { mc::fail("copy-region", "point (%g,%g) must be %s the copy", (double)s[i].x / SUB, (double)s[i].y / SUB, mm[i] & 1 ? "in" : "outside"); break; }
        }
        if (!lap && !mc::failed()) check_lines("copy-", l);
        int ia, ib; long long pt[6];
        if (!mc::failed() && k_has(l.data(), (int)l.size(), &ia, &ib, pt)) mc::fail("copy-crosses", "the self-check reports an intersection in the copy");
        int bb[4]; k_bb(e.data(), (int)e.size(), bb);
        int w[4] = {e[0].x1, e[0].y1, e[0].x1, e[0].y1};
        for (auto &k : e) { w[0] = std::min({w[0], k.x1, k.x2}); w[1] = std::min({w[1], k.y1, k.y2}); w[2] = std::max({w[2], k.x1, k.x2}); w[3] = std::max({w[3], k.y1, k.y2}); }
        if (!mc::failed() && memcmp(w, bb, sizeof w)) mc::fail("bounding-box", "bounding box (%d,%d)-(%d,%d), not (%d,%d)-(%d,%d)", bb[0], bb[1], bb[2], bb[3], w[0], w[1], w[2], w[3]);
    }
}
void mc_main() {
    bool T = mc::thorough;
    F3 = face_points(3, 3); F4 = face_points(4, 4);
    auto t3 = polys(3, 3, true, false), t3c = polys(3, 3, true, false, true), a3 = polys(3, 3, true, true), a3c = polys(3, 3, true, true, true);
    auto q3c = polys(3, 3, false, true, true), t4 = polys(4, 4, true, false), t4c = polys(4, 4, true, false, true), q4c = polys(4, 4, false, true, true), q4 = polys(4, 4, false, true);
    pairs("pairs of 3/4-gons, 3x3 grid, fine", a3c, a3, 3600, -1800, -5000, F3, 0);
    evenodd("one polygon of two contours, 3x3 grid, fine", a3c, a3, 3600, F3, 0);
    for (long L : T ? std::vector<long>{1, 2, 3, 4, 5, 7, 11} : std::vector<long>{1, 2, 3})
        pairs(mc::strf("pairs of 3/4-gons, 3x3 grid, spacing %ld (snapping)", L).c_str(), a3c, a3, L, -1, 0, F3, 1.5);
    for (long L : T ? std::vector<long>{1, 2, 3, 5} : std::vector<long>{1, 2})
        pairs(mc::strf("pairs of triangles, 4x4 grid, spacing %ld (snapping)", L).c_str(), t4c, t4, L, 0, -2, F4, 1.5);
    pairs("pairs of triangles, 4x4 grid, fine", t4c, t4, 3600, 0, 0, F4, 3);
    if (T) { pairs("pairs quad x triangle, 4x4 grid, fine", q4c, t4, 3600, 0, 0, F4, 3); pairs("pairs quad x triangle, 4x4 grid, spacing 2", q4c, t4, 2, 0, 0, F4, 1.5); }
    pairs("pairs near the end of the coordinate range", t3c, a3, 1 << 28, -(1 << 28), -(1 << 28), F3, 3);
    order("order and direction of insertion", a3c, t3, 3600);
    order("order and direction of insertion, snapping", a3c, t3, 3);
    std::vector<unsigned> fs; for (unsigned f = 2; f < 256; f += 2) if (T || (f * 37 % 101) < 5 || f == 254 || f == 128 || f == 2 || f == 0x96) fs.push_back(f);
    triples("triples of triangles, 3x3 grid, fine", t3c, t3, t3, fs, 3600, F3, 0);
    triples("triples of triangles, 3x3 grid, spacing 2", t3c, t3, t3, {254, 0x92}, 2, F3, 1.5);
    if (T) triples("triples quad x triangle x triangle, fine", q3c, t3, t3, {254, 128, 2, 0x96, 0x0a, 0x32, 0xe0}, 3600, F3, 0);
    staged("two stages", t3c, t3, T ? t3 : t3c, 3600, F3, 3);
    staged("two stages, snapping", t3c, t3c, T ? t3 : t3c, 5, F3, 3.5);
    as_polys("as point and path arrays", a3c, t3);
    stars(); many();
    selfcheck("self-check of edge lists, 4x4 grid", 4, 1, 0, 0);
    selfcheck("self-check of edge lists, 3x3 grid, large", 3, 1 << 28, -(1 << 28), -(1 << 28));
    copies("copies and bounding boxes, fine", t3c, a3, 3600, F3, 0);
    copies("copies and bounding boxes, snapping", t3c, t3, 3, F3, 1.5);
}
