// C22: truth tables: spread, repeat, combine, and their composition for every tree of set operations.
#include "../mc.hpp"
#include "../bshim.h"
using std::string; using std::vector;
typedef vector<bool> TT; // truth table, index = membership mask
static const size_t MAX = 10;
struct BM { vector<unsigned long long> w; BM() : w(bb_bytes() / 8 + 1, 0) {} void *p() { return w.data(); } };
static void load(BM &b, const TT &t, int junk) { for (auto &x : b.w) x = junk == 0 ? 0 : junk == 1 ? ~0ull : 0xa5a5a5a55a5a5a5aull; for (size_t i = 0; i < t.size(); i++) bb_set(b.p(), i, t[i]); }
static bool eq(BM &b, const TT &t, const char *key, const string &what) { mc::trans(); for (size_t i = 0; i < t.size(); i++) if (!!bb_get(b.p(), i) != t[i]) { mc::fail(key, "%s: bit %zu is %d", what.c_str(), i, !t[i]); return false; }
    if (b.w.back() != (b.w.back() == 0 ? 0 : b.w.back() == ~0ull ? ~0ull : 0xa5a5a5a55a5a5a5aull)) { mc::fail("overrun", "%s: writes behind the table", what.c_str()); return false; } return true; }
static vector<TT> tables(size_t have) { // all tables while feasible; else a generating set and mixed patterns
    vector<TT> r; size_t n = 1u << have;
    if (have <= (mc::thorough ? 4u : 3u)) { for (unsigned long v = 0; v < (1ul << n); v++) { TT t(n); for (size_t i = 0; i < n; i++) t[i] = v >> i & 1; r.push_back(t); } return r; }
    for (size_t k = 0; k < n; k++) { TT t(n); t[k] = true; r.push_back(t); for (size_t i = 0; i < n; i++) t[i] = i != k; r.push_back(t); }
    for (size_t p = 2; p < 19; p++) { TT t(n); for (size_t i = 0; i < n; i++) t[i] = (i * 2654435761u >> 7) % p == 0; r.push_back(t); }
    return r;
}
static uint64_t hs(const TT &t, const char *n) { string s(n); for (bool b : t) s += b ? '1' : '0'; return mc::hash(s); }
// all trees: the set of (table) reachable for n operands in order, by every bracketing and operation
static bool apply(bool a, bool b, int op) { return op == B_ADD ? a || b : op == B_CUT ? a && b : op == B_SUB ? a && !b : a != b; }
struct X { BM b; size_t n; TT t; string s; };
static X comb(const X &r, const X &b, int op, bool &ok) { // as the lazy combination does it
    X o = r; BM q = b.b; bb_repeat(o.b.p(), r.n, b.n); bb_spread(q.p(), b.n, r.n); o.n = r.n + b.n; bb_combine(o.b.p(), q.p(), o.n, op); mc::trace();
    o.s = "(" + r.s + " " + "+*-^"[op] + " " + b.s + ")"; o.t.assign(1u << o.n, false);
    for (size_t m = 0; m < o.t.size(); m++) o.t[m] = apply(r.t[m & ((1u << r.n) - 1)], b.t[m >> r.n], op);
    ok = eq(o.b, o.t, "compose", o.s); return o;
}
static X leaf() { X x; x.n = 1; x.t = {false, true}; load(x.b, x.t, 0); x.s = "x"; return x; }
void mc_main() {
    for (size_t have = 0; have <= MAX; have++) for (size_t add = 0; have + add <= MAX; add++) {
        mc::phase(mc::strf("widening a table of 2^%zu by 2^%zu", have, add).c_str()); auto ts = tables(have);
        for (size_t t0 = 0; t0 < ts.size(); t0 += 512) { if (!mc::next()) continue; mc::desc("have %zu add %zu, tables %zu..", have, add, t0); mc::sample(mc::strf("2^%zu bits, tables %zu..%zu", have, t0, std::min(ts.size(), t0 + 512) - 1));
            for (size_t k = t0; k < std::min(ts.size(), t0 + 512); k++) for (int junk = 0; junk < 3; junk++) { auto &t = ts[k]; mc::state(hs(t, "t")); TT w(1u << (have + add)); BM b;
                load(b, t, junk); bb_spread(b.p(), have, add); mc::trace(); for (size_t i = 0; i < w.size(); i++) w[i] = t[i >> add]; if (!eq(b, w, "spread", mc::strf("spread table %zu of 2^%zu by 2^%zu (filling %d)", k, have, add, junk))) return;
                load(b, t, junk); bb_repeat(b.p(), have, add); mc::trace(); for (size_t i = 0; i < w.size(); i++) w[i] = t[i & ((1u << have) - 1)]; if (!eq(b, w, "repeat", mc::strf("repeat table %zu of 2^%zu 2^%zu times (filling %d)", k, have, add, junk))) return; } } }
    for (size_t n = 0; n <= MAX; n++) { mc::phase(mc::strf("combination of tables of 2^%zu", n).c_str()); auto ts = tables(n); if (n > 2) { vector<TT> q; for (size_t i = 0; i < ts.size(); i += ts.size() / 60 + 1) q.push_back(ts[i]); ts = q; }
        for (size_t i = 0; i < ts.size(); i++) { if (!mc::next()) continue; mc::desc("2^%zu bits, table %zu with every other", n, i); mc::sample(mc::strf("2^%zu bits, table %zu with every other", n, i)); for (size_t j = 0; j < ts.size(); j++) for (int op = 0; op < 4; op++) { BM a, b; load(a, ts[i], 0); load(b, ts[j], 2); bb_combine(a.p(), b.p(), n, op); mc::trace(); TT w(ts[i].size()); for (size_t k = 0; k < w.size(); k++) w[k] = apply(ts[i][k], ts[j][k], op); if (!eq(a, w, "combine", mc::strf("tables %zu and %zu of 2^%zu, operation %d", i, j, n, op))) return; } } }
    // every bracketing with every operation, up to N operands, and every split of larger numbers
    size_t N = mc::thorough ? 6 : 5; vector<vector<X>> all(N + 1); all[1].push_back(leaf());
    for (size_t n = 2; n < N; n++) { for (size_t k = 1; k < n; k++) for (auto &l : all[k]) for (auto &r : all[n - k]) for (int op = 0; op < 4; op++) { bool ok; all[n].push_back(comb(l, r, op, ok)); } } // building blocks; compared below
    mc::phase("every expression tree of set operations");
    for (size_t n = 2; n <= N; n++) for (size_t k = 1; k < n; k++) for (auto &l : all[k]) { if (!mc::next()) continue; mc::desc("%s op every tree of %zu", l.s.c_str(), n - k); mc::sample(mc::strf("%s combined with every tree of %zu operands", l.s.c_str(), n - k)); for (auto &r : all[n - k]) for (int op = 0; op < 4; op++) { bool ok; X o = comb(l, r, op, ok); mc::state(hs(o.t, "e")); if (!ok) return; } }
    mc::phase("every split of up to ten operands");
    for (size_t n = 2; n <= MAX; n++) for (size_t k = 1; k < n; k++) for (int o1 = 0; o1 < 4; o1++) for (int o2 = 0; o2 < 4; o2++) { if (!mc::next()) continue; mc::desc("split %zu of %zu, inner operations %d %d", k, n, o1, o2); mc::sample(mc::strf("left part of %zu operands, right part of %zu, inner operations %c and %c", k, n - k, "+*-^"[o1], "+*-^"[o2]));
        for (int o3 = 0; o3 < 4; o3++) for (int op = 0; op < 4; op++) for (int dir = 0; dir < 2; dir++) { bool ok = true; X l = leaf(), r = leaf(); for (size_t i = 1; i < k && ok; i++) l = dir ? comb(leaf(), l, i % 2 ? o1 : o2, ok) : comb(l, leaf(), i % 2 ? o1 : o2, ok); for (size_t i = 1; i < n - k && ok; i++) r = dir ? comb(leaf(), r, i % 2 ? o2 : o3, ok) : comb(r, leaf(), i % 2 ? o2 : o3, ok); if (!ok) return; X o = comb(l, r, op, ok); mc::state(hs(o.t, "s")); if (!ok) return; } }
}
