// C11: exact integer and rational arithmetic of the kernel against 128-bit references.
#include "../mc.hpp"
#include "../ashim.h"
#include <set>
#include <vector>
#include <cmath>
#include <algorithm>
typedef __int128 I; typedef unsigned __int128 U; typedef unsigned long long ull; typedef long long ll;
static std::vector<ll> alpha(int bits, bool neg, int dense) { // 0, small, around powers of two, maximum
    std::set<ll> s; U mx = ((U)1 << bits) - 1;
    auto add = [&](I v) { for (int d = -2; d <= 2; d++) { I w = v + d; if (w >= 0 && (U)w <= mx) { s.insert((ll)w); if (neg) s.insert(-(ll)w); } } };
    for (int i = 0; i < 12; i++) add(i);
    for (int k = 3; k < bits; k += dense) add((I)1 << k);
    add((I)mx); add((I)mx / 3); add((I)mx / 7 * 5); add((I)mx / 2); if (bits > 30) { add(0x55555555); add(1000003); add(0x7fff0001); }
    return std::vector<ll>(s.begin(), s.end());
}
template<class A> static void rows(const char *n, const std::vector<A> &v, std::function<void(const A&)> f) {
    mc::phase(n); for (auto &a : v) { if (!mc::next()) continue; f(a); }
}
static const char *s128(U v) { static char b[4][48]; static int k; k = (k + 1) & 3; snprintf(b[k], 48, "0x%llx%016llx", (ull)(v >> 64), (ull)v); return b[k]; }
static void st(const char *n, U v) { mc::state(mc::hash(&v, sizeof v, mc::hash(std::string(n)))); }
void mc_main() {
    bool T = mc::thorough;
    auto a31 = alpha(31, true, 1), a62 = alpha(62, true, T ? 1 : 2), u64a = alpha(63, false, 1);
    std::vector<ull> u64; for (auto v : u64a) { u64.push_back((ull)v); u64.push_back(~(ull)v); } std::sort(u64.begin(), u64.end()); u64.erase(std::unique(u64.begin(), u64.end()), u64.end());
    rows<ll>("Euclidean division, 32 bit", a31, [&](ll x) { for (ll d : a31) if (d) {
        int q, r; mc::desc("%lld / %lld", x, d); a_divmod((int)x, (int)d, &q, &r); mc::trans(); mc::trace();
        if ((I)q * d + r != x || r < 0 || r >= std::llabs(d)) { mc::fail("divmod", "%lld / %lld gives %d rest %d", x, d, q, r); return; } st("dm", (U)(unsigned)q << 32 | (unsigned)r); } mc::sample(mc::strf("%lld divided by every value of the alphabet", x)); });
    rows<ll>("Euclidean division, 64 bit", a62, [&](ll x) { for (ll d : a62) if (d) {
        ll q, r; mc::desc("%lld / %lld", x, d); a_divmodw(x, d, &q, &r); mc::trans(); mc::trace();
        if ((I)q * d + r != x || r < 0 || r >= std::llabs(d)) { mc::fail("divmodw", "%lld / %lld gives %lld rest %lld", x, d, q, r); return; }
        if (d > 0) { ll w = a_divw_rnd(x, d); I lo = (I)2 * x - (I)2 * w * d; // round half up: w = floor(x/d + 1/2)
            if (!(lo >= -(I)d && lo < (I)d)) { mc::fail("divw_rnd", "rounded %lld / %lld gives %lld", x, d, w); return; } } } mc::sample(mc::strf("%lld divided by every value of the alphabet", x)); });
    rows<ull>("64x64 bit products", u64, [&](ull a) { for (ull b : u64) for (int aux = 0; aux < 2; aux++) {
        ull h, l; mc::desc("%llx * %llx aux %d", a, b, aux); a_mul(a, b, &h, &l, aux); mc::trans(); mc::trace(); U w = (U)a * b;
        if (h != (ull)(w >> 64) || l != (ull)w) { mc::fail("mul", "%llx * %llx (variant %d) gives %llx:%llx", a, b, aux, h, l); return; } } st("mul", a); });
    // proper fractions
    std::vector<a_frac> fr; { auto d = alpha(T ? 63 : 62, false, T ? 3 : 6); auto dd = d; std::set<std::pair<ull, ull>> seen;
        for (auto x : dd) if (x > 0) for (ull n : {0ull, 1ull, 2ull, 3ull, (ull)x / 2 - 1, (ull)x / 2, (ull)x / 2 + 1, (ull)x / 3, (ull)x / 3 + 1, (ull)x - 2, (ull)x - 1}) if (n < (ull)x && seen.insert({n, (ull)x}).second) for (int i : {0, -1, 5}) fr.push_back({i, n, (ull)x}); }
    rows<a_frac>("order of fractions", fr, [&](const a_frac &a) { 
        for (auto &b : fr) { mc::desc("%d+%llu/%llu vs %d+%llu/%llu", a.i, a.n, a.d, b.i, b.n, b.d);
            U l = (U)a.n * b.d, r = (U)b.n * a.d; int f = l < r ? -1 : l > r; int w = a.i != b.i ? (a.i < b.i ? -1 : 1) : f; auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
            mc::trans(2); mc::trace(2);
            if (sg(a_cmp(&a, &b)) != w) { mc::fail("cmp", "compare gives %d, not %d", a_cmp(&a, &b), w); return; }
            if (sg(a_cmp_aux(&a, &b)) != f) { mc::fail("cmp-aux", "compare of fraction parts gives %d, not %d", a_cmp_aux(&a, &b), f); return; } }
        int r = a_round(&a); I tw = (I)2 * a.n >= (I)a.d ? (I)a.i + 1 : a.i; mc::desc("round %d+%llu/%llu", a.i, a.n, a.d);
        if (r != tw) mc::fail("round", "rounds to %d", r);
        for (int k = a.i - 1; k <= a.i + 1; k++) { int w = k < a.i ? -1 : k > a.i ? 1 : a.n ? -1 : 0; if (a_cmp_int(k, &a) != w) mc::fail("cmp-int", "%d compared gives %d", k, a_cmp_int(k, &a)); }
        st("fr", (U)a.n << 64 | a.d); });
    // intersection of segments: all quadruples of grid points, several spacings and offsets
    struct Sp { int g; ll lx, ly, ox, oy; };
    std::vector<Sp> sps = {{4, 1, 1, 0, 0}, {4, 7, 5, -11, 3}, {3, 100003, 99991, -123457, 5}, {3, (1 << 30) - 1, (1 << 30) - 1, -(1 << 30) + 1, -(1 << 30) + 1}, {3, 0x1fffffff, 0x15555555, -0x20000000, 0x10000001}, {3, 3, 715827882, -1, -715827882}};
    if (T) { sps.push_back({5, 1, 1, -2, -2}); sps.push_back({4, 0x0fffffff, 0x0ffffff1, -0x18000000, -0x10000000}); sps.push_back({4, 12345, 3, 0, -7}); }
    for (auto &sp : sps) {
        mc::phase(mc::strf("segment intersection, %dx%d grid, spacing %lld/%lld", sp.g, sp.g, sp.lx, sp.ly).c_str());
        std::vector<std::pair<ll,ll>> g; for (int y = 0; y < sp.g; y++) for (int x = 0; x < sp.g; x++) g.push_back({sp.ox + x * sp.lx + (y * x) % 3 * (sp.lx > 100 ? 17 : 0), sp.oy + y * sp.ly - (x % 2) * (sp.ly > 100 ? 29 : 0)});
        for (auto &A : g) for (auto &B : g) { if (!mc::next()) continue; if (A == B) continue; mc::sample(mc::strf("(%lld,%lld)-(%lld,%lld) against all segments", A.first, A.second, B.first, B.second));
            for (auto &C : g) for (auto &D : g) { if (C == D) continue;
                if (std::max({A.first,B.first,C.first,D.first}) - std::min({A.first,B.first,C.first,D.first}) > 0x7fffffff || std::max({A.second,B.second,C.second,D.second}) - std::min({A.second,B.second,C.second,D.second}) > 0x7fffffff) continue;
                int p[8] = {(int)A.first, (int)A.second, (int)B.first, (int)B.second, (int)C.first, (int)C.second, (int)D.first, (int)D.second};
                mc::desc("(%d,%d)-(%d,%d) x (%d,%d)-(%d,%d)", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
                I dx = (I)p[2] - p[0], dy = (I)p[3] - p[1], ex = (I)p[6] - p[4], ey = (I)p[7] - p[5], d = dx * ey - dy * ex, cx = (I)p[4] - p[0], cy = (I)p[5] - p[1];
                I t = cx * ey - cy * ex, u = cx * dy - cy * dx; if (d < 0) { d = -d; t = -t; u = -u; }
                a_frac X, Y; int k = a_intersect(p, &X, &Y); mc::trans(); mc::trace(); int want;
                if (d == 0) want = -1; else if (t < 0 || t > d || u < 0 || u > d) want = 0; else want = 1 | (t == 0) * 2 | (t == d) * 4 | (u == 0) * 8 | (u == d) * 16;
                st("is", (U)(unsigned)(want + 1) << 100 | (U)(d > 0 ? t * 1000 / d : 0) << 32 | (U)(ull)mc::index());
                if (k != want && !(want > 0 && k > 0 && (k & ~want) == 0 && (k & 1) && want != 1 && k != 1)) { mc::fail("intersect-class", "returns %d, not %d", k, want); return; }
                if (want > 0) { // X = p0.x + dx*t/d
                    for (int c = 0; c < 2; c++) { const a_frac &F = c ? Y : X; I num = (I)(c ? p[1] : p[0]) * d + (c ? dy : dx) * t; // value = num/d
                        if (F.d == 0 || F.n >= F.d) { mc::fail("intersect-fraction", "coordinate %d is %d+%llu/%llu", c, F.i, F.n, F.d); return; }
                        // num/d == F.i + F.n/F.d ; num - F.i*d == F.n*d/F.d, 0 <= rest < d
                        I rest = num - (I)F.i * d; 
                        if (rest < 0 || rest >= d || (U)rest * F.d != (U)F.n * (U)d) { mc::fail("intersect-value", "coordinate %d is %d+%llu/%llu", c, F.i, F.n, F.d); return; } } } } } }
    // hot pixel against edge
    for (int L : {1, 2, 3, 1000}) { mc::phase(mc::strf("tolerance square against edge, spacing %d", L).c_str()); int G = L < 1000 ? 4 : 3;
        for (int lx = -G; lx <= G; lx++) for (int ly = -G; ly <= G; ly++) { if (!mc::next()) continue;
            for (int kx = -G; kx <= G; kx++) for (int ky = -G; ky <= G; ky++) { if (std::make_pair(lx, ly) <= std::make_pair(kx, ky)) continue; // k is the left end
                for (int vx = -3; vx <= 3; vx++) for (int vy = -3; vy <= 3; vy++) {
                    ll Lx = lx * L, Ly = ly * L, Kx = kx * L, Ky = ky * L; mc::desc("V=(%d,%d) L=(%lld,%lld) K=(%lld,%lld)", vx, vy, Lx, Ly, Kx, Ky);
                    int r = a_edge(vx, vy, (int)Lx, (int)Ly, (int)Kx, (int)Ky); mc::trans(); mc::trace();
                    // sides of the square's corners (doubled coordinates)
                    bool pos = true, neg = true; int first = 0;
                    for (int c = 0; c < 4; c++) { ll x = 2 * vx + (c & 1 ? 1 : -1), y = 2 * vy + (c & 2 ? 1 : -1); ll z = (x - 2 * Lx) * (Ky - Ly) - (y - 2 * Ly) * (Kx - Lx); if (z <= 0) pos = false; if (z >= 0) neg = false; (void)first; }
                    bool outx = (vx < Lx && vx < Kx) || (vx > Lx && vx > Kx), outy = (vy < Ly && vy < Ky) || (vy > Ly && vy > Ky);
                    ll z0 = (vx - Lx) * (Ky - Ly) - (vy - Ly) * (Kx - Lx);
                    st("ed", (U)(pos * 2 + neg) << 8 | (U)(r + 1) << 4 | outx << 1 | outy);
                    if (pos && r != 1) { mc::fail("pixel-side", "square strictly on one side, result %d, not 1", r); return; }
                    if (neg && r != -1) { mc::fail("pixel-side", "square strictly on the other side, result %d, not -1", r); return; }
                    if (z0 == 0 && !outx && !outy && r != 0) { mc::fail("pixel-on-edge", "the edge runs through the point, result %d", r); return; }
                    if (!outx && !outy && r != 0) { // strictly crossing the square
                        bool p = false, q = false; int cnt = 0; for (int c = 0; c < 4; c++) { ll x = 2 * vx + (c & 1 ? 1 : -1), y = 2 * vy + (c & 2 ? 1 : -1); ll z = (x - 2 * Lx) * (Ky - Ly) - (y - 2 * Ly) * (Kx - Lx); if (z > 0) p = true; if (z < 0) q = true; if (!z) cnt++; }
                        if (p && q && !cnt) { mc::fail("pixel-cross", "the edge crosses the square, result %d", r); return; } } } } } }
    // checked operations: exact result or a reported overflow, never a wrong value
    auto w32 = alpha(31, true, T ? 1 : 3); w32.push_back(-0x80000000ll);
    auto w64 = alpha(63, true, T ? 2 : 5); w64.push_back((ll)0x8000000000000000ull);
    static const char *on[] = {"add32", "sub32", "mul32", "add64", "sub64", "abs32", "abs64", "uadd64", "usub64", "uadd32"};
    for (int op = 0; op < 10; op++) { bool n = op < 3 || op == 5 || op == 9; auto &al = n ? w32 : w64;
        rows<ll>(mc::strf("overflow of %s", on[op]).c_str(), al, [&](ll a) { for (ll b : al) { if ((op == 5 || op == 6) && b != 0) continue;
            mc::desc("%s %lld %lld", on[op], a, b); ll r = 0; int o = a_checked(op, a, b, &r); mc::trans(); mc::trace(); bool ov = false; I w = 0; 
            switch (op) { case 0: w = (I)a + b; ov = w > 0x7fffffffll || w < -0x80000000ll; break; case 1: w = (I)a - b; ov = w > 0x7fffffffll || w < -0x80000000ll; break;
                case 2: w = (I)a * b; break; case 3: w = (I)a + b; ov = w != (ll)w; break; case 4: w = (I)a - b; ov = w != (ll)w; break;
                case 5: w = a < 0 ? -(I)a : a; ov = w > 0x7fffffffll; break; case 6: w = a < 0 ? -(I)a : a; ov = w != (ll)w; break;
                case 7: { U q = (U)(ull)a + (ull)b; ov = q >> 64; w = (I)(ll)(ull)q; break; } case 8: ov = (ull)a < (ull)b; w = (I)(ll)((ull)a - (ull)b); break;
                case 9: { ull q = (ull)(unsigned)a + (unsigned)b; ov = q >> 32; w = (I)(ll)(q & 0xffffffff); break; } }
            st(on[op], (U)(ull)w << 1 | ov);
            if (ov != !!o) { mc::fail("overflow-report", "%s(%lld,%lld): overflow %s", on[op], a, b, ov ? "not reported" : "reported although the result fits"); return; }
            if (!ov && (I)r != w) { mc::fail("checked-value", "%s(%lld,%lld) gives %lld", on[op], a, b, r); return; } } }); }
    // user coordinates <-> grid
    for (int sc = 0; sc <= 20; sc++) rows<ll>(mc::strf("import/export at scale 2^%d", sc).c_str(), a31, [&](ll v) {
        double s = std::ldexp(1.0, sc); a_scale(s); double d = a_export((int)v); mc::desc("grid %lld scale 2^%d", v, sc); mc::trans(); mc::trace(); st("im", (U)(ull)v << 8 | (unsigned)sc);
        if (d * s != (double)v) { mc::fail("export", "%lld exported as %.17g", v, d); return; }
        int r = 0; if (a_import_checked(d, &r) || r != v) { mc::fail("roundtrip", "%lld comes back as %d", v, r); return; }
        for (double f : {-0.499, -0.25, 0.25, 0.499, -0.01}) { double w = ((double)v + f) / s; r = 0; bool o = a_import_checked(w, &r); mc::trans(); if ((((double)v + f) > 2147483646.4) || (((double)v + f) < -2147483646.4)) continue; if (o || r != v) { mc::fail("import-round", "%.17g imported as %d, not %lld", w, r, v); return; } }
        for (double big : {2147483648.0, 2147483700.0, 1e10, 1e30, 1e300, (double)INFINITY, (double)NAN}) for (double sg : {1., -1.}) { mc::trans(); if (!a_import_checked(sg * big / s, &r)) { mc::fail("import-overflow", "%g at scale 2^%d is accepted as %d", sg * big / s, sc, r); return; } }
        a_scale(8192); });
}
