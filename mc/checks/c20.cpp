// C20: explicit-state search over all shapes of the ordered dictionary.
// A state is (shape, colours); it is reached by a history of real operations.  From every
// state every operation is applied and compared with a sorted sequence.
#include "../mc.hpp"
#include "../dshim.h"
#include <map>
#include <set>
#include <deque>
#include <string>
#include <algorithm>
using std::string; using std::vector;
typedef vector<int> Seq;    // ids in order
static const int MAXN = 40;
static dn pool_[4][MAXN];
struct T { dn *root = nullptr; Seq ids; };          // a tree and its model
static dn *N(int bank, int id) { return &pool_[bank][id]; }

static string canon(dn *n) { // shape and colours
    if (!n) return ".";
    return string("(") + (d_red(n) ? "r" : "b") + canon((dn*)n->d.edge[0]) + canon((dn*)n->d.edge[1]) + ")";
}
static string where;
#define BAD(key, ...) do { mc::fail(key, "%s: %s", where.c_str(), mc::strf(__VA_ARGS__).c_str()); return false; } while (0)
// structural check of one tree against the expected in-order sequence of nodes
static int blackh(dn *n, dn *par, bool &ok, string &why, bool aug, int depth, int &maxd) {
    if (!n) return 0;
    maxd = std::max(maxd, depth);
    if (depth > 60) { ok = false; why = "cycle"; return 0; }
    if ((dn*)n->d.parent != par) { ok = false; why = mc::strf("parent pointer of node %d", n->id); return 0; }
    dn *l = (dn*)n->d.edge[0], *r = (dn*)n->d.edge[1];
    int a = blackh(l, n, ok, why, aug, depth + 1, maxd); if (!ok) return 0;
    int b = blackh(r, n, ok, why, aug, depth + 1, maxd); if (!ok) return 0;
    if (a != b) { ok = false; why = "black heights differ at node " + std::to_string(n->id); }
    if (d_red(n) && (d_red(l) || d_red(r))) { ok = false; why = "red node with red child"; }
    int h = a + !d_red(n);
    if ((int)d_bh(n) != h) { ok = false; why = mc::strf("black height of node %d reported as %d, is %d", n->id, (int)d_bh(n), h); }
    if (aug) {
        const unsigned long B = 1000003UL;
        unsigned long hh = l ? l->h : 0, pw = l ? l->pw : 1; long c = 1 + (l ? l->cnt : 0) + (r ? r->cnt : 0);
        hh = hh * B + (unsigned long)n->id + 1; pw *= B;
        if (r) { hh = hh * r->pw + r->h; pw *= r->pw; }
        if (hh != n->h || pw != n->pw || c != n->cnt) { ok = false; why = mc::strf("augmentation of node %d is stale", n->id); }
    }
    return h;
}
static bool check_tree(dn *root, const vector<dn*> &want, bool aug, const char *what) {
    mc::trans();
    bool ok = true; string why; int maxd = 0;
    blackh(root, nullptr, ok, why, aug, 1, maxd);
    if (!ok) BAD("invariant", "%s: %s", what, why.c_str());
    if (d_red(root) && maxd > 1 && 0) BAD("red-root", "%s", what);
    size_t n = want.size();
    if (n && (double)maxd > 2.0 * __builtin_log2((double)n + 1) + 1e-9 + 1) BAD("height", "%s: height %d with %zu nodes", what, maxd, n);
    dn *out[MAXN + 2];
    for (int rev = 0; rev < 2; rev++) {
        size_t k = d_each(root, out, MAXN, rev);
        if (k != n) BAD("iterate", "%s: %s iteration yields %zu nodes, expected %zu", what, rev ? "reverse" : "forward", k, n);
        for (size_t i = 0; i < n; i++) if (out[i] != want[rev ? n - 1 - i : i]) BAD("order", "%s: %s iteration wrong at %zu", what, rev ? "reverse" : "forward", i);
    }
    if (d_start(root, 0) != (n ? want[0] : nullptr) || d_start(root, 1) != (n ? want[n - 1] : nullptr)) BAD("minmax", "%s: minimum or maximum wrong", what);
    for (auto x : want) if (d_root(x) != root || !d_contains(root, x)) BAD("root", "%s: root of node %d wrong", what, x->id);
    for (size_t i = 0; i < n; i++) {
        if (d_step(want[i], 0) != (i + 1 < n ? want[i + 1] : nullptr)) BAD("next", "%s: successor of %zu", what, i);
        if (d_step(want[i], 1) != (i ? want[i - 1] : nullptr)) BAD("prev", "%s: predecessor of %zu", what, i);
    }
    return true;
}
static bool check_out(dn *n) { if (!d_single(n)) BAD("unlinked", "node %d still linked after removal", n->id); if (d_red(n)) BAD("unlinked", "removed node %d is red", n->id); return true; }

// ---- histories: how to reach a shape ---------------------------------------------------------
// op: i<gap> insert at gap; r<pos> remove at position; J<other shape history>... kept as a list of ints
struct Hist { vector<std::pair<char,int>> ops; int left = -1, right = -1; }; // join3(left shape, node, right shape) first
static vector<Hist> hist; static vector<int> hsize; static std::map<string,int> shape_id; static vector<string> shape_key;
static int nodes_of(const string &k) { return (int)std::count(k.begin(), k.end(), '('); }
// builds shape s in the given bank starting at node index base; returns root and node order
static void build(int s, int bank, int &base, dn *&root, vector<dn*> &seq) {
    const Hist &h = hist[s];
    root = nullptr; seq.clear();
    if (h.left >= 0) {
        dn *l, *r; vector<dn*> a, b;
        build(h.left, bank, base, l, a); build(h.right, bank, base, r, b);
        dn *m = N(bank, base); d_init(m, 0, base); base++;
        root = d_join3(l, m, r, 1);
        seq = a; seq.push_back(m); seq.insert(seq.end(), b.begin(), b.end());
    }
    for (auto &o : h.ops) {
        if (o.first == 'i') {
            dn *n = N(bank, base); d_init(n, 0, base); base++;
            if (seq.empty()) d_insert_ref(n, nullptr, 0, &root, 1);
            else if (o.second == 0) d_insert_ref(n, seq[0], 0, &root, 1);
            else d_insert_ref(n, seq[o.second - 1], 1, &root, 1);
            seq.insert(seq.begin() + o.second, n);
        } else {
            dn *n = seq[o.second]; seq.erase(seq.begin() + o.second);
            d_remove(n, &root, 1);
        }
    }
}
static string hist_str(int s) {
    string r; const Hist &h = hist[s];
    if (h.left >= 0) r += "join3([" + hist_str(h.left) + "],m,[" + hist_str(h.right) + "]) ";
    for (auto &o : h.ops) r += mc::strf("%c%d ", o.first, o.second);
    return r;
}
static bool explored;
static int LIM; // maximal number of nodes of a state
static uint64_t edges;
static void add(const string &k, const Hist &h, std::deque<int> &q) {
    if (shape_id.count(k)) return;
    int id = (int)hist.size(); shape_id[k] = id; shape_key.push_back(k); hist.push_back(h); hsize.push_back(nodes_of(k)); q.push_back(id);
}
static void explore() {
    if (explored) return;
    std::deque<int> q; add(".", Hist(), q);
    while (!q.empty()) {
        int s = q.front(); q.pop_front(); int n = hsize[s];
        auto step = [&](char c, int p) {
            if (hist[s].ops.size() > 30) return;
            mc::desc("reach: %s then %c%d", hist_str(s).c_str(), c, p);
            int base = 0; dn *root; vector<dn*> seq; build(s, 0, base, root, seq);
            if (base >= MAXN - 1) return;
            Hist h = hist[s]; h.ops.push_back({c, p});
            if (c == 'i') { dn *x = N(0, base); d_init(x, 0, base); if (seq.empty()) d_insert_ref(x, nullptr, 0, &root, 1); else if (!p) d_insert_ref(x, seq[0], 0, &root, 1); else d_insert_ref(x, seq[p - 1], 1, &root, 1); }
            else d_remove(seq[p], &root, 1);
            edges++;
            add(canon(root), h, q);
        };
        if (n < LIM) for (int g = 0; g <= n; g++) step('i', g);
        for (int p = 0; p < n; p++) step('r', p);
    }
    // shapes only joins can make
    size_t base_shapes = hist.size();
    for (size_t a = 0; a < base_shapes; a++) for (size_t b = 0; b < base_shapes; b++) {
        if (hsize[a] + hsize[b] + 1 > LIM || hsize[a] > 6 || hsize[b] > 6) continue;
        Hist h; h.left = (int)a; h.right = (int)b;
        mc::desc("reach: join3([%s],[%s])", hist_str((int)a).c_str(), hist_str((int)b).c_str());
        int base = 0; dn *l, *r; vector<dn*> x, y; build((int)a, 0, base, l, x); build((int)b, 0, base, r, y);
        dn *m = N(0, base); d_init(m, 0, base); dn *root = d_join3(l, m, r, 1); edges++;
        std::deque<int> dummy; add(canon(root), h, dummy);
    }
    explored = true;
}
static bool restart(int s, dn *&root, vector<dn*> &seq, dn *&extra, int bank = 0, const vector<int> *keys = nullptr) {
    int base = 0; build(s, bank, base, root, seq);
    if (canon(root) != shape_key[s]) { mc::fail("nondeterministic", "the same history leads to %s and %s", shape_key[s].c_str(), canon(root).c_str()); return false; }
    for (size_t i = 0; i < seq.size(); i++) seq[i]->key = keys ? (*keys)[i] : 2 * (int)i + 1;
    extra = N(bank, base); d_init(extra, 0, base);
    return true;
}
static void monotone(int n, int k, vector<vector<int>> &out) { // all nondecreasing sequences with values 1,3,5,..(k values)
    vector<int> c(n, 0);
    std::function<void(int,int)> rec = [&](int i, int v) { if (i == n) { vector<int> r; for (int x : c) r.push_back(2 * x + 1); out.push_back(r); return; } for (int x = v; x < k; x++) { c[i] = x; rec(i + 1, x); } };
    rec(0, 0);
}
static bool state_case(int s) {
    int n = hsize[s];
    string hs = hist_str(s);
    mc::desc("state %s reached by %s", shape_key[s].c_str(), hs.c_str());
    mc::state(mc::hash(shape_key[s]));
    auto at = [&](const string &op) { where = "after " + op + " in " + shape_key[s]; mc::desc("state %s reached by %s; op %s", shape_key[s].c_str(), hs.c_str(), op.c_str()); mc::beat(); mc::trace(); };
    dn *root, *x; vector<dn*> seq;
    at("history");
    if (!restart(s, root, seq, x)) return false;
    if (!check_tree(root, seq, true, "tree")) return false;
    // removal of every node, with and without augmentation, and reinsertion of the removed node
    for (int aug = 0; aug < 2; aug++) for (int p = 0; p < n; p++) {
        at(mc::strf("remove %d aug %d", p, aug)); if (!restart(s, root, seq, x)) return false;
        dn *y = seq[p]; vector<dn*> w = seq; w.erase(w.begin() + p);
        d_remove(y, &root, aug); if (!check_tree(root, w, aug, "tree") || !check_out(y)) return false;
        if (d_insert(y, &root, 0, aug)) BAD("insert", "removed key found again");
        if (!check_tree(root, seq, aug, "reinserted")) return false;
    }
    for (int aug = 0; aug < 2; aug++) for (unsigned dir = 0; dir < 2; dir++) for (int upd = 0; upd < 2; upd++) {
        at(mc::strf("extract %s update %d aug %d", dir ? "max" : "min", upd, aug)); if (!restart(s, root, seq, x)) return false;
        vector<dn*> w = seq; dn *ext = d_start(root, dir);
        while (true) {
            dn *y = upd ? d_extract_update(&root, &ext, dir, aug) : d_extract(&root, dir, aug);
            dn *e = w.empty() ? nullptr : dir ? w.back() : w.front();
            if (y != e) BAD("extract", "wrong node extracted");
            if (!y) break;
            if (dir) w.pop_back(); else w.erase(w.begin());
            if (upd && ext != (w.empty() ? nullptr : dir ? w.back() : w.front())) BAD("extract-update", "cached extremum wrong");
            if (!check_tree(root, w, aug, "rest") || !check_out(y)) return false;
        }
    }
    { // robust iteration while removing everything
        at("robust iteration"); if (!restart(s, root, seq, x)) return false;
        dn *out[MAXN + 2]; size_t k = d_each_robust_remove(&root, out, MAXN);
        if (k != seq.size() || root) BAD("robust", "visited %zu of %zu", k, seq.size());
        for (size_t i = 0; i < k; i++) if (out[i] != seq[i]) BAD("robust", "order");
    }
    // insertion at every gap in every way
    for (int aug = 0; aug < 2; aug++) for (int gp = 0; gp <= n; gp++) for (int way = 0; way < 9; way++) {
        at(mc::strf("insert at gap %d way %d aug %d", gp, way, aug)); if (!restart(s, root, seq, x)) return false;
        vector<dn*> w = seq; w.insert(w.begin() + gp, x); x->key = 2 * gp;
        dn *mn = d_start(root, 0), *mx = d_start(root, 1); bool mm = false; dn *r = nullptr;
        switch (way) {
        case 0: r = d_insert(x, &root, 0, aug); break;
        case 1: r = d_insert(x, &root, -1, aug); break;
        case 2: r = d_insert(x, &root, 1, aug); break;
        case 3: r = d_insert_update(x, &root, &mn, &mx, 0, aug); mm = true; break;
        case 4: r = d_insert_by(x, 2 * gp, &root, 1, aug); break;
        case 5: if (gp == 0) continue; d_insert_ref(x, seq[gp - 1], 1, &root, aug); break;
        case 6: if (gp == n) continue; d_insert_ref(x, seq[gp], 0, &root, aug); break;
        case 7: if (gp == 0) { if (n) d_insert_at(x, seq[0], 0, &root, &mn, &mx, aug); else continue; } else d_insert_at(x, seq[gp - 1], 1, &root, &mn, &mx, aug); mm = true; break;
        case 8: if (gp == n) { d_insert_ref(x, nullptr, 0, &root, aug); } else if (gp == 0) d_insert_ref(x, nullptr, 1, &root, aug); else d_insert_at(x, seq[gp], 0, &root, nullptr, nullptr, aug); break;
        }
        if (r) BAD("insert", "claims an equal node");
        if (mm && (mn != w.front() || mx != w.back())) BAD("insert-update", "cached minimum/maximum wrong");
        if (!check_tree(root, w, aug, "tree")) return false;
        // the node just inserted can be found and removed again
        if (d_find(2 * gp, root, 0) != x) BAD("find", "inserted node not found");
        d_remove(x, &root, aug); if (!check_tree(root, seq, aug, "insert+remove") || !check_out(x)) return false;
    }
    // duplicates: every nondecreasing key assignment over 3 values
    if (n <= (mc::thorough ? 8 : 6)) {
        vector<vector<int>> ks; monotone(n, 3, ks);
        for (auto &ky : ks) for (int key = 0; key <= 6; key++) {
            int lo = (int)(std::lower_bound(ky.begin(), ky.end(), key) - ky.begin()), hi = (int)(std::upper_bound(ky.begin(), ky.end(), key) - ky.begin());
            for (int dup = -2; dup <= 2; dup++) {
                at(mc::strf("find key %d dup %d", key, dup)); if (!restart(s, root, seq, x, 0, &ky)) return false;
                mc::trans();
                dn *f = d_find(key, root, dup);
                dn *par; unsigned ch, pa; dn *f2 = d_find_ref(&par, &ch, &pa, key, root, dup);
                if (f != f2) BAD("find_ref", "differs from find");
                bool any = hi > lo;
                if (dup == 0) { if (any ? !(f && f->key == key) : f != nullptr) BAD("find", "found %p for %s key", (void*)f, any ? "present" : "absent"); }
                else if (dup == -2) { if (f != (any ? seq[lo] : nullptr)) BAD("find", "not the first equal node"); }
                else if (dup == 2) { if (f != (any ? seq[hi - 1] : nullptr)) BAD("find", "not the last equal node"); }
                else if (f) BAD("find", "dup=+-1 returned a node");
                if (dup == 0 && any) continue;
                // the returned reference is the insertion position
                vector<dn*> w = seq; int pos = dup < 0 ? lo : dup > 0 ? hi : lo; w.insert(w.begin() + pos, x); x->key = key;
                if (((pa & 5) == 0) != (x == w.back()) || ((pa & 6) == 0) != (x == w.front())) BAD("find_ref", "path flags %u wrong for position %d of %zu", pa, pos, w.size());
                d_insert_ref(x, par, ch, &root, 1);
                if (!check_tree(root, w, true, "insert by reference")) return false;
            }
            for (int dup = -1; dup <= 1; dup++) {
                at(mc::strf("insert key %d dup %d", key, dup)); if (!restart(s, root, seq, x, 0, &ky)) return false;
                x->key = key; dn *mn = d_start(root, 0), *mx = d_start(root, 1);
                dn *r = d_insert_update(x, &root, &mn, &mx, dup, 1);
                if (dup == 0 && hi > lo) {
                    if (!r || r->key != key) BAD("insert-dup", "duplicate not reported");
                    if (!check_tree(root, seq, true, "rejected duplicate") || !check_out(x)) return false;
                    if (n && (mn != seq.front() || mx != seq.back())) BAD("insert-update", "extremum changed by rejected insert");
                } else {
                    if (r) BAD("insert", "claims an equal node");
                    vector<dn*> w = seq; w.insert(w.begin() + (dup < 0 ? lo : hi), x);
                    if (!check_tree(root, w, true, "inserted")) return false;
                    if (mn != w.front() || mx != w.back()) BAD("insert-update", "cached extremum wrong");
                }
            }
            for (int back = 0; back < 2; back++) for (int aug = 0; aug < 2; aug++) {
                at(mc::strf("split key %d back %d aug %d", key, back, aug)); if (!restart(s, root, seq, x, 0, &ky)) return false;
                dn *l = (dn*)1, *r = (dn*)1; d_split(&l, &r, root, key, back, aug);
                int c = back ? lo : hi;
                vector<dn*> a(seq.begin(), seq.begin() + c), b(seq.begin() + c, seq.end());
                if (!check_tree(l, a, aug, "left part") || !check_tree(r, b, aug, "right part")) return false;
                dn *j = d_join2(l, r, aug); if (!check_tree(j, seq, aug, "rejoined")) return false;
            }
        }
    }
    for (int c = 0; c <= n; c++) for (int aug = 0; aug < 2; aug++) { // splits of larger trees
        at(mc::strf("split at %d", c)); if (!restart(s, root, seq, x)) return false;
        dn *l, *r; d_split(&l, &r, root, 2 * c, 0, aug);
        vector<dn*> a(seq.begin(), seq.begin() + c), b(seq.begin() + c, seq.end());
        if (!check_tree(l, a, aug, "left part") || !check_tree(r, b, aug, "right part")) return false;
        vector<dn*> w = a; w.push_back(x); w.insert(w.end(), b.begin(), b.end());
        dn *j = d_join3(l, x, r, aug); if (!check_tree(j, w, aug, "join3 of the parts")) return false;
    }
    // swaps
    for (int p = 0; p < n; p++) for (int o = p; o <= n; o++) for (int order = 0; order < 2; order++) for (int way = 0; way < 3; way++) {
        at(mc::strf("swap %d %d way %d", p, o, way)); if (!restart(s, root, seq, x)) return false;
        string before = canon(root); dn *a = seq[p], *b = o == n ? x : seq[o]; if (order) std::swap(a, b);
        vector<dn*> w = seq; if (o == n) w[p] = x; else std::swap(w[p], w[o]);
        if (way == 0) { if (root == a || root == b) { d_swap(a, b); root = root == a ? b : a; } else d_swap(a, b); }
        else if (way == 1) d_swap1(&root, a, b);
        else { dn *r2 = root; d_swap2(&root, &r2, a, b); if (r2 != root) BAD("swap2", "second root pointer not updated"); }
        if (a == b) w = seq;
        if (!check_tree(root, w, false, "swapped")) return false;
        if (canon(root) != before) BAD("swap", "changed the shape");
        if (o == n && !check_out(seq[p])) return false;
    }
    return true;
}
static bool join_case(int a, int b) {
    auto at = [&](const string &op) { where = op + " of " + shape_key[a] + " and " + shape_key[b]; mc::desc("left %s right %s op %s", hist_str(a).c_str(), hist_str(b).c_str(), op.c_str()); mc::beat(); mc::trace(); };
    for (int aug = 0; aug < 2; aug++) {
        dn *l, *r, *x, *y; vector<dn*> p, q, w;
        at("join3"); if (!restart(a, l, p, x, 0) || !restart(b, r, q, y, 1)) return false;
        w = p; w.push_back(x); w.insert(w.end(), q.begin(), q.end());
        dn *j = d_join3(l, x, r, aug); if (!check_tree(j, w, aug, "join3")) return false;
        at("join2"); if (!restart(a, l, p, x, 0) || !restart(b, r, q, y, 1)) return false;
        w = p; w.insert(w.end(), q.begin(), q.end());
        j = d_join2(l, r, aug); if (!check_tree(j, w, aug, "join2")) return false;
    }
    if (hsize[a] <= 4 && hsize[b] <= 4) for (int i = 0; i < hsize[a]; i++) for (int k = 0; k < hsize[b]; k++) for (int o = 0; o < 2; o++) {
        dn *l, *r, *x, *y; vector<dn*> p, q;
        at(mc::strf("swap between trees %d %d", i, k)); if (!restart(a, l, p, x, 0) || !restart(b, r, q, y, 1)) return false;
        if (o) d_swap2(&l, &r, p[i], q[k]); else d_swap2(&l, &r, q[k], p[i]);
        std::swap(p[i], q[k]);
        if (!check_tree(l, p, false, "left tree") || !check_tree(r, q, false, "right tree")) return false;
    }
    return true;
}
void mc_main() {
    LIM = mc::thorough ? 14 : 11;
    const size_t CH = 512;
    mc::phase("states");
    for (size_t c = 0; c < CH; c++) if (mc::next()) {
        explore();
        if (c < CH) { for (size_t s = c; s < hist.size(); s += CH) if (!state_case((int)s)) break; }
        if (c == 0) { mc::count("shapes", hist.size()); mc::count("explored_edges", edges); mc::sample(mc::strf("%zu reachable shapes with at most %d nodes, e.g. %s by %s", hist.size(), LIM, shape_key.back().c_str(), hist_str((int)hist.size() - 1).c_str())); }
    }
    mc::phase("joins");
    for (size_t c = 0; c < CH; c++) if (mc::next()) {
        explore(); size_t k = 0; bool ok = true;
        int cap = mc::thorough ? 10 : 8;
        for (size_t a = 0; ok && a < hist.size(); a++) for (size_t b = 0; ok && b < hist.size(); b++) {
            if (hsize[a] > cap || hsize[b] > cap) continue;
            if (k++ % CH == c) ok = join_case((int)a, (int)b);
        }
    }
}
