// C21: growable arrays, heaps, ring lists, strings and pools against their abstract types.
#include "../mc.hpp"
#include "../bshim.h"
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <numeric>
using std::string; using std::vector;
typedef vector<int> M;
static string show(const M &m) { string s = "["; for (int x : m) s += std::to_string(x) + " "; return s + "]"; }
static string at_;
#define BAD(key, ...) do { mc::fail(key, "%s: %s", at_.c_str(), mc::strf(__VA_ARGS__).c_str()); return false; } while (0)
static const char *on[] = {"init0", "clear", "set_size", "ensure_size", "inflate", "copy1", "insert1", "insert_arr", "insert_self", "copy_arr_self", "copy_self", "remove", "reverse", "extract", "push", "pop", "append_self", "push0", "qsort", "shrink", "insert_vec"};
struct Op { int op; size_t a, b, c; };
// the model; false if the operation is not allowed in this state
static bool model(M &m, const Op &o, int id, long &ret) {
    size_t n = m.size(); ret = -99;
    switch (o.op) {
    case V_CLEAR: m.clear(); return true;
    case V_SET_SIZE: m.resize(o.a, 0); return true;
    case V_ENSURE: if (n < o.a) m.resize(o.a, 0); return true;
    case V_INFLATE: if (o.a > n) return false; m.insert(m.begin() + (long)o.a, o.b, 0); return true;
    case V_COPY1: if (o.a > n) return false; if (o.a == n) m.push_back(id); else m[o.a] = id; return true;
    case V_INSERT1: if (o.a > n) return false; m.insert(m.begin() + (long)o.a, id); return true;
    case V_INSERT_ARR: case V_INSERT_VEC: { if (o.a > n) return false; M x; for (size_t i = 0; i < o.b; i++) x.push_back(id + (int)i); m.insert(m.begin() + (long)o.a, x.begin(), x.end()); return true; }
    case V_INSERT_SELF: { if (o.a > n || o.b + o.c > n || n == 0) return false; M x(m.begin() + (long)o.b, m.begin() + (long)(o.b + o.c)); m.insert(m.begin() + (long)o.a, x.begin(), x.end()); return true; }
    case V_COPY_ARR_SELF: { if (o.a + o.c > n || o.b + o.c > n || n == 0) return false; M x(m.begin() + (long)o.b, m.begin() + (long)(o.b + o.c)); std::copy(x.begin(), x.end(), m.begin() + (long)o.a); return true; }
    case V_COPY_SELF: { if (o.a > n || o.b > n || n == 0) return false; size_t c = std::min(o.c, n - o.b); M x(m.begin() + (long)o.b, m.begin() + (long)(o.b + c)); if (o.a + c > n) m.resize(o.a + c); std::copy(x.begin(), x.end(), m.begin() + (long)o.a); return true; }
    case V_REMOVE: { if (o.a > n || n == 0) return false; size_t c = std::min(o.b, n - o.a); m.erase(m.begin() + (long)o.a, m.begin() + (long)(o.a + c)); return true; }
    case V_REVERSE: { if (o.a > n || n == 0) return false; size_t c = std::min(o.b, n - o.a); std::reverse(m.begin() + (long)o.a, m.begin() + (long)(o.a + c)); return true; }
    case V_EXTRACT: if (o.a >= n) return false; ret = m[o.a]; m.erase(m.begin() + (long)o.a); return true;
    case V_PUSH: m.push_back(id); ret = (long)n; return true;
    case V_PUSH0: m.push_back(0); ret = (long)n; return true;
    case V_POP: if (!n) return false; ret = m[n - 1]; m.pop_back(); return true;
    case V_APPEND_SELF: { if (!n) return false; M x = m; m.insert(m.end(), x.begin(), x.end()); return true; }
    case V_QSORT: { if (o.a > n || n == 0) return false; size_t c = std::min(o.b, n - o.a); std::sort(m.begin() + (long)o.a, m.begin() + (long)(o.a + c)); return true; }
    case V_SHRINK: return true;
    }
    return false;
}
static bool same(void *v, const M &m) {
    mc::trans();
    if (bv_size(v) != m.size()) BAD("vec-size", "size %zu, expected %zu", bv_size(v), m.size());
    if (bv_alloc(v) < m.size()) BAD("vec-alloc", "allocated %zu for %zu", bv_alloc(v), m.size());
    for (size_t i = 0; i < m.size(); i++) if (bv_get(v, i) != m[i] || bv_nth0(v, i) != m[i] || bv_last_but(v, m.size() - 1 - i) != m[i]) BAD("vec-content", "element %zu is %d, expected %s", i, bv_get(v, i), show(m).c_str());
    if (bv_nth0(v, m.size()) != -2) BAD("vec-nth0", "element past the end is not NULL");
    return true;
}
static void *build(int e, int pool, size_t n, int style, M &m, int &id) {
    void *v = bv_new(e, pool); m.clear();
    size_t extra = style == 2 ? 5 : 0;
    if (style == 1 && n) { bv_op(v, V_INIT0, n, 0, 0, 0); for (size_t i = 0; i < n; i++) bv_op(v, V_COPY1, i, 0, 0, id + (int)i); }
    else for (size_t i = 0; i < n + extra; i++) bv_op(v, V_PUSH, 0, 0, 0, id + (int)i);
    if (extra) bv_op(v, V_REMOVE, n, extra, 0, 0);
    for (size_t i = 0; i < n; i++) m.push_back(id + (int)i);
    id += (int)(n + extra); return v;
}
static vector<Op> all_ops(size_t n, size_t k, bool deep) {
    vector<Op> r; size_t BIG = (size_t)-1;
    for (size_t a = 0; a <= n; a++) {
        r.push_back({V_COPY1, a, 0, 0}); r.push_back({V_INSERT1, a, 0, 0}); r.push_back({V_EXTRACT, a, 0, 0});
        for (size_t b = 0; b <= k; b++) { r.push_back({V_INFLATE, a, b, 0}); r.push_back({V_INSERT_ARR, a, b, 0}); r.push_back({V_INSERT_VEC, a, b, 0}); }
        for (size_t b = 0; b <= n - a; b++) { r.push_back({V_REMOVE, a, b, 0}); r.push_back({V_REVERSE, a, b, 0}); r.push_back({V_QSORT, a, b, 0}); }
        r.push_back({V_REMOVE, a, BIG, 0}); r.push_back({V_REVERSE, a, BIG, 0}); r.push_back({V_QSORT, a, BIG, 0});
        for (size_t b = 0; b <= n; b++) { for (size_t c = 0; c <= n - b; c++) { r.push_back({V_INSERT_SELF, a, b, c}); r.push_back({V_COPY_SELF, a, b, c}); r.push_back({V_COPY_ARR_SELF, a, b, c}); } r.push_back({V_COPY_SELF, a, b, BIG}); }
    }
    for (size_t a = 0; a <= 2 * n + 3; a++) { r.push_back({V_SET_SIZE, a, 0, 0}); r.push_back({V_ENSURE, a, 0, 0}); if (!deep) { r.push_back({V_CLEAR, a, 0, 0}); r.push_back({V_SHRINK, a, 0, 0}); } }
    r.push_back({V_CLEAR, 0, 0, 0}); r.push_back({V_SHRINK, 0, 0, 0});
    for (int o : {V_PUSH, V_PUSH0, V_POP, V_APPEND_SELF}) r.push_back({o, 0, 0, 0});
    return r;
}
static bool apply(void *v, M &m, const Op &o, int id) {
    long ret; M before = m; if (!model(m, o, id, ret)) return true;
    at_ = mc::strf("%s(%zu,%zu,%zu) on %s alloc %zu", on[o.op], o.a, o.b, o.c, show(before).c_str(), bv_alloc(v)); mc::desc_s(at_);
    int got = bv_op(v, o.op, o.a, o.b, o.c, id); mc::trace();
    if (ret != -99 && got != ret) BAD("vec-return", "returns %d, expected %ld", got, ret);
    return same(v, m);
}
static void vectors() {
    size_t N = mc::thorough ? 18 : 10;
    for (int e = 0; e < E_N; e++) for (int pool = 0; pool < 2; pool++) for (int style = 0; style < 3; style++) {
        mc::phase(mc::strf("array, element size %d, %s, %s", (int[]){1, 4, 8, 12, 24}[e], pool ? "pool" : "heap", (const char *[]){"grown", "exact", "shrunk"}[style]).c_str());
        for (size_t n = 0; n <= N; n++) { if (!mc::next()) continue; bool done = false;
            for (auto &o : all_ops(n, n < 8 ? 6 : 10, false)) { M m; int id = 1; void *v = build(e, pool, n, style, m, id); bool ok = same(v, m) && apply(v, m, o, id);
                mc::state(mc::hash(mc::strf("v%d.%d.%zu.%zu.", e, pool, m.size(), bv_alloc(v)) + show(m)));
                if (ok) ok = apply(v, m, {V_PUSH, 0, 0, 0}, 200) && apply(v, m, {V_INSERT1, m.size() / 2, 0, 0}, 201);
                bv_free(v); if (!ok) { done = true; break; } }
            if (!done) mc::sample(mc::strf("%zu elements: every operation with every position and length", n)); }
    }
    // sequences of two operations, every parameter
    size_t D = mc::thorough ? 5 : 3;
    for (int e : {(int)E1, (int)E8, (int)E12}) { mc::phase(mc::strf("pairs of array operations, element type %d", e).c_str());
        for (size_t n = 0; n <= D; n++) for (auto &o1 : all_ops(n, 3, true)) { if (!mc::next()) continue; M m0; int id0 = 1; void *v0 = build(e, 0, n, 0, m0, id0); bool ok = apply(v0, m0, o1, id0); size_t n2 = m0.size(); bv_free(v0); if (!ok) continue;
            for (auto &o2 : all_ops(n2, 3, true)) { M m; int id = 1; void *v = build(e, 0, n, 0, m, id); ok = apply(v, m, o1, id) && apply(v, m, o2, id + 20); mc::state(mc::hash(mc::strf("p%d.%zu.", e, bv_alloc(v)) + show(m))); bv_free(v); if (!ok) break; }
            mc::sample(mc::strf("%zu elements: %s(%zu,%zu,%zu), then every operation", n, on[o1.op], o1.a, o1.b, o1.c)); } }
    // binary search and sorting: every array over a small alphabet
    size_t L = mc::thorough ? 7 : 6; mc::phase("sorting and searching, all arrays over 4 values");
    for (size_t n = 0; n <= L; n++) { size_t T = 1; for (size_t i = 0; i < n; i++) T *= 4;
        for (size_t t0 = 0; t0 < T; t0 += 64) { if (!mc::next()) continue; for (size_t t = t0; t < std::min(T, t0 + 64); t++) for (int e : {(int)E1, (int)E12, (int)E24}) {
            M m; size_t q = t; void *v = bv_new(e, 0); for (size_t i = 0; i < n; i++, q /= 4) { m.push_back(2 * (int)(q % 4) + 1); bv_op(v, V_PUSH, 0, 0, 0, m.back()); }
            at_ = "sort " + show(m); mc::desc_s(at_); if (n) { bv_op(v, V_QSORT, 0, (size_t)-1, 0, 0); std::sort(m.begin(), m.end()); } mc::trace();
            bool ok = same(v, m); mc::state(mc::hash("s" + show(m)));
            for (int k = 0; ok && k <= 8; k++) { size_t r = bv_bsearch(v, k); bool in = std::find(m.begin(), m.end(), k) != m.end(); mc::trans();
                if (in ? (r >= n || m[r] != k) : r != (size_t)-1) { mc::fail("bsearch", "key %d in %s gives %zd", k, show(m).c_str(), (ssize_t)r); ok = false; } }
            bv_free(v); if (!ok) break; } mc::sample(mc::strf("arrays %zu.. of length %zu", t0, n)); } }
}
// ---- heaps: explicit-state search over all arrangements
static bool is_heap(const M &k) { for (size_t i = 1; i < k.size(); i++) if (k[(i - 1) / 2] > k[i]) return false; return true; }
static bool vheap_ok(void *h, M want) { // multiset
    mc::trans(); M k; for (size_t i = 0; i < bh_size(h); i++) { int x = bh_get(h, i); if (x < 0) BAD("heap-element", "element %zu torn", i); k.push_back(x); }
    if (!is_heap(k)) BAD("heap-order", "%s is not a heap", show(k).c_str());
    if (!k.empty() && bh_min(h) != *std::min_element(k.begin(), k.end())) BAD("heap-min", "wrong minimum");
    M s = k; std::sort(s.begin(), s.end()); std::sort(want.begin(), want.end()); if (s != want) BAD("heap-content", "contains %s, expected %s", show(s).c_str(), show(want).c_str());
    return true;
}
static void heaps() {
    size_t N = mc::thorough ? 8 : 7; int K = mc::thorough ? 4 : 3;
    mc::phase("array heap: every arrangement, every operation");
    for (size_t n = 0; n <= N; n++) { size_t T = 1; for (size_t i = 0; i < n; i++) T *= (size_t)K;
        for (size_t t0 = 0; t0 < T; t0 += 81) { if (!mc::next()) continue; bool ok = true;
          for (size_t t = t0; ok && t < std::min(T, t0 + 81); t++) { M m; size_t q = t; for (size_t i = 0; i < n; i++, q /= (size_t)K) m.push_back((int)(q % (size_t)K));
            at_ = "heap of " + show(m); mc::desc_s(at_);
            { void *h = bh_new(); for (int x : m) bh_push_raw(h, x); bh_make(h); mc::trace(); ok = vheap_ok(h, m); // and drain it
              M s = m; std::sort(s.begin(), s.end()); for (size_t i = 0; ok && i < n; i++) { int x = bh_extract(h); if (x != s[i]) { mc::fail("heap-drain", "%s: extract %zu gives %d", at_.c_str(), i, x); ok = false; break; } M rest(s.begin() + (long)i + 1, s.end()); ok = vheap_ok(h, rest); } bh_free(h); }
            if (!ok || !is_heap(m)) continue;
            mc::state(mc::hash("h" + show(m)));
            auto fresh = [&] { void *h = bh_new(); for (int x : m) bh_push_raw(h, x); return h; };
            for (int k = 0; ok && k < K; k++) { void *h = fresh(); bh_insert(h, k); M w = m; w.push_back(k); ok = vheap_ok(h, w); bh_free(h); mc::trace();
                for (size_t i = 0; ok && i < n; i++) { h = fresh(); at_ = mc::strf("update %zu to %d in %s", i, k, show(m).c_str()); bh_update(h, i, k); w = m; w[i] = k; ok = vheap_ok(h, w); bh_free(h); mc::trace(); } } }
          mc::sample(mc::strf("arrays %zu.. of length %zu", t0, n)); } }
    // heap of pointers: same, with positions
    mc::phase("indexed heap: every arrangement, every operation");
    size_t N2 = mc::thorough ? 7 : 6;
    for (size_t n = 0; n <= N2; n++) { size_t T = 1; for (size_t i = 0; i < n; i++) T *= (size_t)K;
        for (size_t t0 = 0; t0 < T; t0 += 27) { if (!mc::next()) continue; bool ok = true;
          for (size_t t = t0; ok && t < std::min(T, t0 + 27); t++) { M m; size_t q = t; for (size_t i = 0; i < n; i++, q /= (size_t)K) m.push_back((int)(q % (size_t)K));
            string base = "indexed heap of " + show(m); at_ = base; mc::desc_s(at_);
            auto good = [&](void *h, std::map<int,int> want) -> bool { mc::trans(); M k; std::set<int> seen; if (bp_size(h) != want.size()) BAD("iheap-size", "size %zu, expected %zu", bp_size(h), want.size());
                for (size_t i = 0; i < bp_size(h); i++) { int e = bp_get(h, i); if (!want.count(e) || !seen.insert(e).second) BAD("iheap-content", "element %d at %zu", e, i); if (bp_idx(h, e) != (long)i) BAD("iheap-index", "element %d is at %zu but says %ld", e, i, bp_idx(h, e)); if (bp_key(h, e) != want[e]) BAD("iheap-key", "key of %d changed", e); k.push_back(want[e]); if (!bp_member(h, e)) BAD("iheap-member", "%d denies membership", e); }
                if (!is_heap(k)) BAD("iheap-order", "%s is not a heap", show(k).c_str());
                for (int e = 0; e < 12; e++) if (!want.count(e) && (bp_idx(h, e) != -1 || bp_member(h, e))) BAD("iheap-gone", "element %d is not in the heap but has position %ld", e, bp_idx(h, e));
                int mn = bp_min(h); if (k.empty() ? mn != -1 : (mn < 0 || want[mn] != *std::min_element(k.begin(), k.end()))) BAD("iheap-min", "minimum is %d", mn); return true; };
            std::map<int,int> w0; for (size_t i = 0; i < n; i++) w0[(int)i] = m[i];
            { void *h = bp_new(); for (size_t i = 0; i < n; i++) bp_push_raw(h, (int)i, m[i]); bp_make(h); mc::trace(); ok = good(h, w0); auto w = w0; int last = -1;
              for (size_t i = 0; ok && i <= n; i++) { int x = bp_extract(h); if (i == n) { if (x != -1) { mc::fail("iheap-empty", "%s: extract from an empty heap", at_.c_str()); ok = false; } break; } if (!w.count(x) || w[x] < last) { mc::fail("iheap-drain", "%s: extract %zu gives %d", at_.c_str(), i, x); ok = false; break; } last = w[x]; w.erase(x); ok = good(h, w); } bp_free(h); }
            { void *h = bp_new(); std::map<int,int> w; for (size_t i = 0; ok && i < n; i++) { bp_insert(h, (int)i, m[i]); w[(int)i] = m[i]; ok = good(h, w); } bp_free(h); mc::trace(); }
            if (!ok || !is_heap(m)) continue;
            mc::state(mc::hash("p" + show(m)));
            auto fresh = [&] { void *h = bp_new(); for (size_t i = 0; i < n; i++) bp_insert(h, (int)i, m[i]); return h; };
            for (size_t i = 0; ok && i < n; i++) { void *h; std::map<int,int> w;
                h = fresh(); w = w0; at_ = base + mc::strf(": remove %zu", i); int e = bp_get(h, i), r = bp_remove(h, i); mc::trace(); if (r != e) { mc::fail("iheap-remove", "%s: returns %d", at_.c_str(), r); ok = false; } w.erase(e); ok = ok && good(h, w); bp_free(h);
                h = fresh(); w = w0; at_ = base + mc::strf(": replace %zu by nothing", i); e = bp_get(h, i); r = bp_replace(h, i, -1, 0); mc::trace(); if (r != e) { mc::fail("iheap-remove", "%s: returns %d", at_.c_str(), r); ok = false; } w.erase(e); ok = ok && good(h, w); bp_free(h);
                for (int k = 0; ok && k < K; k++) {
                    h = fresh(); w = w0; at_ = base + mc::strf(": update %zu to %d", i, k); e = bp_get(h, i); bp_update(h, i, k); w[e] = k; mc::trace(); ok = good(h, w); bp_free(h);
                    h = fresh(); w = w0; at_ = base + mc::strf(": replace %zu by new key %d", i, k); e = bp_get(h, i); r = bp_replace(h, i, 11, k); mc::trace(); if (r != e) { mc::fail("iheap-replace", "%s: returns %d, not %d", at_.c_str(), r, e); ok = false; } w.erase(e); w[11] = k; ok = ok && good(h, w); bp_free(h);
                    h = fresh(); w = w0; at_ = base + mc::strf(": replace %zu by itself with key %d", i, k); e = bp_get(h, i); r = bp_replace(h, i, e, k); mc::trace(); if (r != -1) { mc::fail("iheap-replace", "%s: returns %d", at_.c_str(), r); ok = false; } w[e] = k; ok = ok && good(h, w); bp_free(h); } }
            for (int k = 0; ok && k < K; k++) { void *h = fresh(); auto w = w0; at_ = base + mc::strf(": insert %d by replace", k); int r = bp_replace(h, (size_t)-1, 11, k); mc::trace(); if (r != -1) { mc::fail("iheap-replace", "%s: returns %d", at_.c_str(), r); ok = false; } w[11] = k; ok = ok && good(h, w); bp_free(h); } }
          mc::sample(mc::strf("arrays %zu.. of length %zu", t0, n)); } }
}
static void lists() {
    int N = mc::thorough ? 7 : 6; mc::phase("ring lists: every set of rings, every splice");
    vector<int> p((size_t)N); std::iota(p.begin(), p.end(), 0);
    do { if (!mc::next()) continue; at_ = "rings " + show(p); mc::desc_s(at_); mc::sample(at_); mc::state(mc::hash("l" + show(p)));
        auto setup = [&] { bl_init(N); // build rings: append each ring's nodes behind its first
            vector<char> s((size_t)N, 0); for (int i = 0; i < N; i++) if (!s[(size_t)i]) { int t = i; s[(size_t)i] = 1; for (int j = p[(size_t)i]; j != i; j = p[(size_t)j]) { s[(size_t)j] = 1; bl_chain(t, j); t = j; } } };
        auto is = [&](const vector<int> &w, const char *what) { mc::trans(); for (int i = 0; i < N; i++) { if (bl_next(i) != w[(size_t)i] || bl_prev(w[(size_t)i]) != i) { mc::fail("list", "%s: %s: successor of %d is %d, expected %d", at_.c_str(), what, i, bl_next(i), w[(size_t)i]); return false; } if (!!bl_member(i) != (w[(size_t)i] != i)) { mc::fail("list-member", "%s: %s: membership of %d", at_.c_str(), what, i); return false; } } return true; };
        setup(); if (!is(p, "build")) continue; bool ok = true;
        for (int a = 0; ok && a < N; a++) { for (int b = 0; ok && b < N; b++) { setup(); bl_chain(a, b); mc::trace(); auto w = p; int pb = 0; while (w[(size_t)pb] != b) pb++; int an = w[(size_t)a]; w[(size_t)pb] = an; w[(size_t)a] = b; ok = is(w, mc::strf("chain %d %d", a, b).c_str()); }
            if (ok) { setup(); bl_remove(a); mc::trace(); auto w = p; int pb = 0; while (w[(size_t)pb] != a) pb++; w[(size_t)pb] = w[(size_t)a]; w[(size_t)a] = a; ok = is(w, mc::strf("remove %d", a).c_str()); } }
    } while (std::next_permutation(p.begin(), p.end()));
}
static void strings() {
    // operations: lengths around the growth boundaries; sequences up to a depth
    vector<size_t> lens = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33};
    struct SO { int k; size_t n; }; vector<SO> ops; for (size_t n : lens) { ops.push_back({0, n}); ops.push_back({1, n}); } for (size_t n : {1, 3, 8, 15, 33}) { ops.push_back({2, n}); ops.push_back({3, n}); } ops.push_back({4, 0}); ops.push_back({5, 0}); ops.push_back({6, 0}); ops.push_back({7, 0}); ops.push_back({8, 0}); ops.push_back({9, 5});
    int D = mc::thorough ? 4 : 3; mc::phase("strings: every sequence of operations");
    string big = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnop";
    size_t T = 1; for (int i = 0; i < D; i++) T *= ops.size(); size_t per = ops.size() * (D > 3 ? ops.size() : 1);
    for (size_t t0 = 0; t0 < T; t0 += per) { if (!mc::next()) continue; mc::sample(mc::strf("sequences of %d operations, block %zu", D, t0 / per));
        for (size_t t = t0; t < t0 + per; t++) { void *v = bs_new(), *w = bs_new(); string mv, mw; size_t q = t; bool ok = true; string tr; bool init = false;
            for (int i = 0; ok && i < D; i++, q /= ops.size()) { SO o = ops[q % ops.size()]; tr += mc::strf("%d/%zu ", o.k, o.n); mc::desc("strings: %s", tr.c_str()); string x = big.substr((size_t)i, o.n);
                switch (o.k) { case 0: bs_append_arr(v, x.data(), o.n); mv += x; break; case 1: bs_printf(v, "%*.30s", (int)o.n, x.c_str()); { char b[128]; snprintf(b, sizeof b, "%*.30s", (int)o.n, x.c_str()); mv += b; } break; case 2: bs_append_str(v, x.c_str()); mv += x; break;
                    case 3: bs_append_arr(w, x.data(), o.n); mw += x; bs_append(v, w); mv += mw; break; case 4: bs_push(v, 'z'); mv += 'z'; break; case 5: if (!mv.empty()) { if (bs_pop(v) != mv.back()) { mc::fail("str-pop", "%s", tr.c_str()); ok = false; } mv.pop_back(); } break; case 6: bs_clear(v); mv.clear(); break; case 7: bs_swap(v, w); std::swap(mv, mw); break;
                    case 8: if (strcmp(bs_cstr(v), mv.c_str())) { mc::fail("str-cstr", "%s", tr.c_str()); ok = false; } break; case 9: bs_append_arr(v, "a\0b\0c", 5); mv += string("a\0b\0c", 5); break; }
                mc::trace(); mc::trans(); (void)init;
                for (int s = 0; ok && s < 2; s++) { void *z = s ? w : v; const string &mm = s ? mw : mv; if (bs_size(z) != mm.size() || (mm.size() && memcmp(bs_data(z), mm.data(), mm.size())) || (bs_alloc(z) && bs_data(z)[mm.size()] != 0)) { mc::fail("str-content", "after %s: size %zu, expected %zu or different text or no terminator", tr.c_str(), bs_size(z), mm.size()); ok = false; } }
                mc::state(mc::hash(mc::strf("t%zu.%zu.%zu.%zu", mv.size(), bs_alloc(v), mw.size(), bs_alloc(w)))); }
            bs_free(v); bs_free(w); if (!ok) break; } }
}
static void pools() {
    struct PO { int k; size_t n, sz, al; }; vector<PO> ops = {{0, 1, 1, 1}, {0, 3, 1, 1}, {0, 1, 8, 8}, {0, 1, 24, 8}, {0, 5, 16, 16}, {0, 1, 100, 4}, {0, 40, 64, 16}, {0, 1, 4000, 16}, {0, 1000, 16, 16}, {0, 0, 8, 8}, {0, 1, 48, 64}, {0, 3, 12, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {3, 3, 4, 4}, {3, 7, 24, 8}, {4, 5, 12, 4}, {5, 5, 12, 4}, {4, 300, 8, 8}, {5, 300, 8, 8}};
    int D = mc::thorough ? 5 : 4; size_t K = ops.size(), T = 1; for (int i = 0; i < D; i++) T *= K; size_t per = K * K;
    mc::phase("pool: every sequence of allocations, reallocations and clearing");
    struct Liv { unsigned char *p; size_t n, al; unsigned char fill; };
    for (size_t t0 = 0; t0 < T; t0 += per) { if (!mc::next()) continue; mc::sample(mc::strf("sequences of %d operations, block %zu", D, t0 / per)); bool ok = true;
        for (size_t t = t0; ok && t < t0 + per; t++) { void *pl = bq_new(0x1000); vector<Liv> live; size_t q = t; string tr; unsigned char fill = 1;
            auto add = [&](void *p, size_t n, size_t al, size_t zero_from) { auto *c = (unsigned char *)p; if (!p) { mc::fail("pool-null", "%s: NULL", tr.c_str()); return ok = false; } if ((size_t)p % al) { mc::fail("pool-align", "%s: not aligned to %zu", tr.c_str(), al); return ok = false; }
                for (size_t i = zero_from; i < n; i++) if (c[i]) { mc::fail("pool-zero", "%s: byte %zu of %zu is not zero", tr.c_str(), i, n); return ok = false; }
                for (auto &l : live) if (c < l.p + l.n && l.p < c + n) { mc::fail("pool-overlap", "%s: overlaps a live object", tr.c_str()); return ok = false; }
                live.push_back({c, n, al, fill}); memset(c, fill++, n); return true; };
            for (int i = 0; ok && i < D; i++, q /= K) { PO o = ops[q % K]; tr += mc::strf("%d(%zu,%zu,%zu) ", o.k, o.n, o.sz, o.al); mc::desc("pool: %s", tr.c_str()); mc::trace(); mc::trans();
                switch (o.k) { case 0: { void *p = bq_calloc(pl, o.n, o.sz, o.al); if (!o.n) { if (p) { mc::fail("pool-empty", "%s: not NULL", tr.c_str()); ok = false; } } else add(p, o.n * o.sz, o.al ? o.al : o.sz & -o.sz, 0); break; }
                    case 1: bq_clear(pl); live.clear(); break; case 2: bq_fini(pl); live.clear(); break; case 3: add(bq_xcalloc(pl, o.n, o.sz), o.n * o.sz, o.al, 0); break;
                    case 4: case 5: { size_t on = 2; void *p = bq_xcalloc(pl, on, o.sz); if (!add(p, on * o.sz, o.al, 0)) break; unsigned char f = live.back().fill; void *r = o.k == 4 ? bq_xremalloc(pl, p, on, o.n, o.sz) : bq_xrecalloc(pl, p, on, o.n, o.sz); auto *c = (unsigned char *)r;
                        for (size_t b = 0; ok && r && b < on * o.sz; b++) if (c[b] != f) { mc::fail("pool-realloc", "%s: old content lost", tr.c_str()); ok = false; }
                        if (ok) add(r, o.n * o.sz, o.al, o.k == 5 ? on * o.sz : o.n * o.sz); if (ok && (o.k == 4 ? bq_xremalloc(pl, r, o.n, 1, o.sz) : bq_xrecalloc(pl, r, o.n, 1, o.sz)) != r) { mc::fail("pool-shrink", "%s: shrinking moves", tr.c_str()); ok = false; } break; } }
                for (auto &l : live) { if (!ok) break; if (l.p[0] != l.fill || l.p[l.n - 1] != l.fill || l.p[l.n / 2] != l.fill) { mc::fail("pool-clobber", "%s: a live object changed", tr.c_str()); ok = false; } }
                mc::state(mc::hash(mc::strf("q%zu.%d.", live.size(), i) + tr)); }
            bq_free(pl); } }
    mc::phase("pool: rounds of allocations with clearing in between");   // blocks of one round meet the sizes of the next
    const size_t RS[] = {40, 300, 3000, 20000}, RC[] = {1, 4, 11, 35}; int R = mc::thorough ? 4 : 3; size_t RT = 1; for (int i = 0; i < R; i++) RT *= 16;
    for (size_t t0 = 0; t0 < RT; t0 += 16) { if (!mc::next()) continue; mc::sample(mc::strf("histories of %d rounds, block %zu", R, t0 / 16)); bool ok = true;
        for (size_t t = t0; ok && t < t0 + 16; t++) { void *pl = bq_new(0x1000); size_t q = t; string tr;
            for (int i = 0; ok && i < R; i++, q /= 16) { size_t sz = RS[q % 4], cnt = RC[q / 4 % 4]; tr += mc::strf("%zu objects of %zu bytes, ", cnt, sz); mc::desc("pool: %s", tr.c_str()); vector<unsigned char *> l;
                for (size_t j = 0; ok && j < cnt; j++) { auto *p = (unsigned char *)bq_calloc(pl, 1, sz, 8); mc::trans(); mc::trace(); if (!p || (size_t)p % 8) { mc::fail("pool-null", "%s: NULL or not aligned", tr.c_str()); ok = false; break; }
                    for (size_t b = 0; b < sz; b++) if (p[b]) { mc::fail("pool-zero", "%s: object %zu, byte %zu of %zu is not zero", tr.c_str(), j, b, sz); ok = false; break; } memset(p, (int)(j + 1), sz); l.push_back(p); }
                for (size_t j = 0; ok && j < l.size(); j++) if (l[j][0] != j + 1 || l[j][sz - 1] != j + 1 || l[j][sz / 2] != j + 1) { mc::fail("pool-clobber", "%s: object %zu changed", tr.c_str(), j); ok = false; }
                mc::state(mc::hash("r" + tr)); bq_clear(pl); }
            bq_free(pl); } }
    mc::phase("global allocator: growing and shrinking");
    for (size_t sz : {1, 3, 8, 24}) { if (!mc::next()) continue; mc::sample(mc::strf("element size %zu", sz)); for (size_t o = 1; o <= 12; o++) for (size_t n = 1; n <= 40; n++) for (int z = 0; z < 2; z++) {
        mc::desc("re%calloc %zu -> %zu elements of %zu", "mc"[z], o, n, sz); auto *p = (unsigned char *)bg_calloc(o, sz); for (size_t i = 0; i < o * sz; i++) if (p[i]) { mc::fail("calloc-zero", "not zeroed"); } memset(p, 7, o * sz); p = (unsigned char *)(z ? bg_recalloc(p, o, n, sz) : bg_remalloc(p, o, n, sz)); mc::trace(); mc::trans();
        for (size_t i = 0; i < n * sz; i++) if (i < o * sz ? p[i] != 7 : (z && p[i])) { mc::fail("realloc", "byte %zu wrong", i); break; } mc::state(mc::hash(mc::strf("g%zu.%zu.%zu", o, n, sz))); bg_free(p); } }
}
static void helpers() {
    mc::phase("exchanging and testing pieces of memory of every size and alignment");
    for (size_t n = 0; n <= 40; n++) { if (!mc::next()) continue; mc::sample(mc::strf("%zu bytes", n));
        for (size_t oa = 0; oa < 8; oa++) for (size_t ob = 0; ob < 8; ob++) { vector<unsigned char> a(64), b(64); for (size_t i = 0; i < 64; i++) { a[i] = (unsigned char)(1 + i); b[i] = (unsigned char)(101 + i); } auto x = a, y = b;
            mc::desc("swap %zu bytes at offset %zu with offset %zu", n, oa, ob); bk_memswap(a.data() + oa, b.data() + ob, n); for (size_t i = 0; i < n; i++) std::swap(x[oa + i], y[ob + i]); mc::trace(); mc::trans(); mc::state(mc::hash(mc::strf("m%zu.%zu.%zu", n, oa, ob)));
            if (a != x || b != y) mc::fail("memswap", "wrong bytes exchanged"); }
        for (size_t oa = 0; oa < 8; oa++) for (size_t at = 0; at <= n + oa; at++) { vector<unsigned char> a(64); a[at] = 0x80; bool want = at < oa || at >= oa + n; mc::desc("is %zu bytes at %zu zero, byte %zu is not", n, oa, at); mc::trace(); mc::trans(); if (!!bk_mem_is0(a.data() + oa, n) != want) mc::fail("is0", "expected %d", want); } }
    mc::phase("alignment and index arithmetic");
    for (size_t n = 0; n <= 300; n++) { if (!mc::next()) continue; mc::sample(mc::strf("n=%zu", n)); mc::state(mc::hash(mc::strf("n%zu", n)));
        auto eq = [&](int k, const char *f, size_t m, size_t a, size_t want) { mc::desc("%s(%zu,%zu)", f, m, a); mc::trace(); mc::trans(); size_t g = bk_size(k, m, a); if (g != want) mc::fail(f, "%zu, expected %zu", g, want); };
        for (size_t base : {(size_t)0, (size_t)1 << 33}) { size_t m = base + n; for (size_t a = 1; a <= 256; a *= 2) { size_t d = m / a * a, u = (m + a - 1) / a * a; eq(0, "align_down", m, a, d); eq(1, "align_up", m, a, u); eq(2, "align_down_diff", m, a, m - d); eq(3, "align_up_diff", m, a, u - m); }
            size_t al = 0; if (m) { al = 1; while (m % (2 * al) == 0) al *= 2; } eq(4, "size_align", m, 0, al); }
        for (size_t i = 0; i <= 301; i++) { eq(5, "idx0", n, i, i < n ? i : 0); eq(8, "min and max", n, i, std::min(n, i) + 1000 * std::max(n, i)); }
        for (size_t i = 0; i < n; i++) { eq(6, "wrap_add1", i, n, (i + 1) % n); eq(7, "wrap_sub1", i, n, (i + n - 1) % n); } }
    mc::phase("prefixes and comparison of texts");
    vector<string> w{""}; for (size_t i = 0; i < w.size() && w[i].size() < 4; i++) for (char c : {'a', 'b', '\xe9'}) w.push_back(w[i] + c);
    for (auto &a : w) { if (!mc::next()) continue; mc::sample("'" + a + "'"); mc::state(mc::hash("w" + a)); for (auto &b : w) { mc::desc("'%s' and '%s'", a.c_str(), b.c_str()); mc::trace(); mc::trans(); bool p = a.compare(0, b.size(), b) == 0; long want = (p ? (long)b.size() : -1) * 100 + (p ? (long)b.size() : 0), got = bk_pref(a.c_str(), b.c_str()); if (got != want) mc::fail("prefix", "%ld, expected %ld", got, want);
            int c = a.compare(b); c = (c > 0) - (c < 0); if (bk_strcmp0(a.c_str(), b.c_str()) != c + (c ? 0 : 10)) mc::fail("strcmp0", "wrong order"); }
        mc::desc("'%s' and NULL", a.c_str()); if (bk_strcmp0(a.c_str(), nullptr) != 1 || bk_strcmp0(nullptr, a.c_str()) != -1 || bk_strcmp0(nullptr, nullptr) != 10) mc::fail("strcmp0", "NULL is not below every text"); }
}
void mc_main() { helpers(); vectors(); heaps(); lists(); strings(); pools(); }
