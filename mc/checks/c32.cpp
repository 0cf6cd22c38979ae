// C32: the linear algebra library computes what its names and documentation say:
// every matrix type (with and without translation and inverse) against one
// reference, homogeneous matrices of long doubles.
#include "mc.hpp"
#include "mshim.h"
#include <cmath>
#include <set>
#include <algorithm>
using std::string; using std::vector;
typedef long double L;
struct M { int n = 0; L v[16] = {}; L &at(int y, int x) { return v[y * n + x]; } L at(int y, int x) const { return v[y * n + x]; } };
static M zero(int n) { M m; m.n = n; return m; }
static M id(int n) { M m = zero(n); for (int i = 0; i < n; i++) m.at(i, i) = 1; return m; }
static M mul(const M &a, const M &b) { M r = zero(a.n); for (int y = 0; y < a.n; y++) for (int x = 0; x < a.n; x++) for (int k = 0; k < a.n; k++) r.at(y, x) += a.at(y, k) * b.at(k, x); return r; }
static M transp(const M &a) { M r = zero(a.n); for (int y = 0; y < a.n; y++) for (int x = 0; x < a.n; x++) r.at(y, x) = a.at(x, y); return r; }
static L det(const M &a) { if (a.n == 1) return a.v[0]; L s = 0; for (int c = 0; c < a.n; c++) { if (a.at(0, c) == 0) continue; M q = zero(a.n - 1); for (int y = 1; y < a.n; y++) for (int x = 0, k = 0; x < a.n; x++) if (x != c) q.at(y - 1, k++) = a.at(y, x); s += (c & 1 ? -1 : 1) * a.at(0, c) * det(q); } return s; }
static M inverse(const M &a) { // Gauss-Jordan with pivoting; a is regular
    M m = a, r = id(a.n); for (int c = 0; c < a.n; c++) { int p = c; for (int y = c; y < a.n; y++) if (fabsl(m.at(y, c)) > fabsl(m.at(p, c))) p = y;
        for (int x = 0; x < a.n; x++) { std::swap(m.at(c, x), m.at(p, x)); std::swap(r.at(c, x), r.at(p, x)); } L q = m.at(c, c);
        for (int x = 0; x < a.n; x++) { m.at(c, x) /= q; r.at(c, x) /= q; }
        for (int y = 0; y < a.n; y++) if (y != c) { L f = m.at(y, c); for (int x = 0; x < a.n; x++) { m.at(y, x) -= f * m.at(c, x); r.at(y, x) -= f * r.at(c, x); } } } return r; }
static bool close(double got, L want, L scale = 1) { return std::isfinite(got) && fabsl((L)got - want) <= 1e-9L * std::max<L>(1, std::max(scale, fabsl(want))); }
static bool same(const double *g, const M &w) { L s = 0; for (int i = 0; i < w.n * w.n; i++) s = std::max(s, fabsl(w.v[i])); for (int i = 0; i < w.n * w.n; i++) if (!close(g[i], w.v[i], s)) return false; return true; }
static M mat(int n, const double *g) { M m = zero(n); for (int i = 0; i < n * n; i++) m.v[i] = g[i]; return m; }
static string show(const M &m) { string s = "["; for (int i = 0; i < m.n * m.n; i++) s += mc::strf("%s%.9Lg", i ? (i % m.n ? " " : "; ") : "", m.v[i]); return s + "]"; }
static string show(int n, const double *g) { return show(mat(n, g)); }
static mm put(const mk_t &k, const M &a) { mm r; memset(&r, 0, sizeof r); for (int i = 0; i < k.dim * k.dim; i++) r.n[i] = (double)a.v[i]; if (k.inv) { M q = inverse(a); for (int i = 0; i < k.dim * k.dim; i++) r.i[i] = (double)q.v[i]; r.d = (double)det(a); } return r; }
static bool plain4(int k) { return k == MK_4 || k == MK_4i; }
// free entries of a kind: all of the matrix, without the last row of the types with translation
static int rows(int k) { return mk_info[k].dim == mk_info[k].geo || plain4(k) ? mk_info[k].dim : mk_info[k].geo; }
static M base(int k) { M m = zero(mk_info[k].dim); if (rows(k) < m.n) m.at(m.n - 1, m.n - 1) = 1; return m; }
static const char *ON[MO_N] = {"mul", "trans", "unit", "scale", "scale1", "scale_v", "xlat", "xlat_v", "inv", "det", "rot_unit", "rot_v", "rot_unit_into_z", "rot_into_z", "rot_ij", "rot_x", "rot_y", "rot_z", "mirror_unit", "mirror_v", "lex_cmp", "eq"};
static string key(int k, int op) { return string(mk_info[k].name) + "_" + ON[op]; }
// the result r of kind k has to be w; when the kind has an inverse, that and the determinant have to fit
static void expect(int k, int op, const mm &r, const M &w, const string &what) {
    mc::trans(); int n = mk_info[k].dim;
    if (!same(r.n, w)) { mc::fail(key(k, op), "%s: is %s, not %s", what.c_str(), show(n, r.n).c_str(), show(w).c_str()); return; }
    if (!mk_info[k].inv) return; L d = det(w);
    if (!close(r.d, d)) mc::fail(key(k, op) + ":det", "%s: determinant %.9g, not %.9Lg", what.c_str(), r.d, d);
    if (fabsl(d) > 1e-9L && !same(r.i, inverse(w))) mc::fail(key(k, op) + ":inverse", "%s: inverse is %s, not %s", what.c_str(), show(n, r.i).c_str(), show(inverse(w)).c_str());
}
static vector<vector<double>> grid(int n, const vector<double> &al) { vector<vector<double>> r = {{}}; for (int i = 0; i < n; i++) { vector<vector<double>> q; for (auto &p : r) for (double x : al) { q.push_back(p); q.back().push_back(x); } r = q; } return r; }
static M dense(int k, int seed) { M m = base(k); static const double P[] = {2, -3, 5, 7, -11, 13, .5, 17, 19, -.25, 23, 29, 3, -31, 1.5, 37}; for (int y = 0; y < rows(k); y++) for (int x = 0; x < m.n; x++) m.at(y, x) = P[(y * m.n + x + seed * 5) % 16]; return m; }
static vector<M> basis(int k) { vector<M> r; M b = base(k); r.push_back(b); for (int y = 0; y < rows(k); y++) for (int x = 0; x < b.n; x++) { M m = b; m.at(y, x) += 1 + y + 3 * x; r.push_back(m); } for (int s = 0; s < 4; s++) r.push_back(dense(k, s)); return r; }
// regular matrices for the types with inverse
static vector<M> regular(int k) {
    vector<M> r; int n = mk_info[k].dim, g = mk_info[k].geo; r.push_back(id(n));
    for (int y = 0; y < g; y++) for (int x = 0; x < g; x++) { M m = id(n); m.at(y, x) = y == x ? -2 : 3; r.push_back(m); }
    if (n > g) for (int y = 0; y < g; y++) { M m = id(n); m.at(y, g) = y + 2; r.push_back(m); }
    for (int s = 0; s < 3; s++) { M m = dense(k, s); if (n > g) { for (int x = 0; x < n; x++) m.at(g, x) = x == g; } if (fabsl(det(m)) > 1) r.push_back(m); }
    return r;
}
static vector<M> inputs(int k) { return mk_info[k].inv ? regular(k) : basis(k); }

static void products() {
    mc::phase("products and transposes");
    for (int k = 0; k < MK_N; k++) { auto in = inputs(k); const mk_t &K = mk_info[k];
        for (auto &a : in) for (int alias = 0; alias < 5; alias++) { if (!mc::next()) continue; mc::desc_s(mc::strf("%s, storage shared in way %d, a=%s", K.name, alias, show(a).c_str())); mm A = put(K, a), r; double ret;
            for (auto &b : in) { mm B = put(K, b); mc::trace(); m_op(k, MO_MUL, alias, nullptr, &A, &B, &r, &ret); M w = mul(a, alias >= 3 ? a : b); expect(k, MO_MUL, r, w, "product with " + show(b)); }
            if (alias > 1) continue; M w = transp(a); bool has = false; if (K.dim > K.geo && !plain4(k)) { w = base(k); for (int y = 0; y < K.geo; y++) { for (int x = 0; x < K.geo; x++) w.at(y, x) = a.at(x, y); has |= a.at(y, K.geo) != 0; } w.at(K.geo, K.geo) = 1; }
            m_op(k, MO_TRANS, alias, nullptr, &A, nullptr, &r, &ret); mc::trace();
            if (K.inv) { mm q = r; if (!has) expect(k, MO_TRANS, q, w, "transpose"); else if (!same(r.n, w)) mc::fail(key(k, MO_TRANS), "transpose is %s, not %s", show(K.dim, r.n).c_str(), show(w).c_str()); } else expect(k, MO_TRANS, r, w, "transpose");
            if (ret >= 0 && (ret != 0) != !has) mc::fail(key(k, MO_TRANS) + ":ret", "transpose says %g for a translation of %s", ret, has ? "non-zero" : "zero"); } }
}
static void comparisons() {
    mc::phase("comparisons of matrices");
    for (int k = 0; k < MK_N; k++) { const mk_t &K = mk_info[k]; auto in = regular(k);
        for (auto &a : in) { if (!mc::next()) continue; mc::desc_s(string(K.name) + " " + show(a)); mm A = put(K, a), r; double c, e;
            for (auto &b : in) { mm B = put(K, b); double c2; m_op(k, MO_CMP, 0, nullptr, &A, &B, &r, &c); m_op(k, MO_CMP, 0, nullptr, &B, &A, &r, &c2); m_op(k, MO_EQ, 0, nullptr, &A, &B, &r, &e); mc::trace(3); mc::trans(3);
                bool eq = !memcmp(A.n, B.n, sizeof A.n); if ((c > 0) != (c2 < 0) || (c < 0) != (c2 > 0) || (c == 0) != eq || (e != 0) != eq) mc::fail(key(k, MO_CMP), "compared with %s: %g, reverse %g, equal %g", show(b).c_str(), c, c2, e);
                double cbc; for (auto &q : in) if (c <= 0) { mm Q = put(K, q); m_op(k, MO_CMP, 0, nullptr, &B, &Q, &r, &cbc); if (cbc <= 0) { double cac; m_op(k, MO_CMP, 0, nullptr, &A, &Q, &r, &cac); mc::trans(); if (cac > 0) mc::fail(key(k, MO_CMP) + ":order", "no order: a<=b<=c but a>c, b=%s c=%s", show(b).c_str(), show(q).c_str()); } } }
            for (int y = 0; y < rows(k); y++) for (int x = 0; x < K.dim; x++) for (double d : {-.5, .5, 1e-3, -1e-3}) { mm B = A; B.n[y * K.dim + x] += d; m_op(k, MO_CMP, 0, nullptr, &A, &B, &r, &c); m_op(k, MO_EQ, 0, nullptr, &A, &B, &r, &e); mc::trans(2); if (c != (d > 0 ? -1 : 1) || e) mc::fail(key(k, MO_CMP) + ":one", "entry %d,%d larger by %g: compares %g, equal %g", y, x, d, c, e); } } }
}
static void inverse_case(int k, const M &a) {
    const mk_t &K = mk_info[k]; mm A = put(K, a), r; L d = det(a); double ret;
    for (int alias = 0; alias < 2; alias++) { m_op(k, MO_INV, alias, nullptr, &A, nullptr, &r, &ret); mc::trace(); mc::trans();
        if (!close(ret, d)) mc::fail(key(k, MO_INV) + ":ret", "determinant %g, not %Lg, of %s", ret, d, show(a).c_str());
        M w = fabsl(d) > 1e-8L ? inverse(a) : zero(K.dim); if (fabsl(d) <= 1e-8L && rows(k) < K.dim) w.at(K.dim - 1, K.dim - 1) = 1;
        if (!same(r.n, w)) mc::fail(key(k, MO_INV), "inverse of %s is %s, not %s", show(a).c_str(), show(K.dim, r.n).c_str(), show(w).c_str()); }
    m_op(k, MO_DET, 0, nullptr, &A, nullptr, &r, &ret); mc::trans(); if (!close(ret, d)) mc::fail(key(k, MO_DET), "determinant %g, not %Lg, of %s", ret, d, show(a).c_str());
    int ki = k == MK_2 ? MK_2i : k == MK_2w ? MK_2wi : k == MK_3 ? MK_3i : k == MK_3w ? MK_3wi : MK_4i, rt; m_from(ki, k, &A, &r, &rt); mc::trans();
    if (rt != (fabsl(d) > 1e-8L)) mc::fail(string(mk_info[ki].name) + "_from:ret", "conversion of %s returns %d", show(a).c_str(), rt);
    else if (rt && (!same(r.n, a) || !same(r.i, inverse(a)) || !close(r.d, d))) mc::fail(string(mk_info[ki].name) + "_from", "conversion of %s: %s, inverse %s, determinant %g", show(a).c_str(), show(K.dim, r.n).c_str(), show(K.dim, r.i).c_str(), r.d);
}
static void inverses() {
    struct S { int k; vector<double> al; int free; }; vector<S> sp = {{MK_2, {-2, -1, 0, 1, 2, 3}, 4}, {MK_2w, {-1, 0, 1, 2}, 6}, {MK_3, {-1, 0, 1}, 9}, {MK_3w, {0, 1}, 12}, {MK_4, {0, 1}, 16}};
    if (mc::thorough) { sp.push_back({MK_2w, {-2, -1, 0, 1, 3}, 6}); sp.push_back({MK_3, {-2, 0, 1, 3}, 9}); sp.push_back({MK_3w, {-1, 0, 1}, 12}); }
    for (auto &s : sp) { mc::phase((string("inverses of ") + mk_info[s.k].name).c_str()); auto hi = grid(s.free / 2, s.al), lo = grid(s.free - s.free / 2, s.al);
        for (auto &h : hi) { if (!mc::next()) continue; mc::desc_s(string(mk_info[s.k].name) + ": all matrices that begin with " + [&] { string t; for (double x : h) t += mc::strf("%g ", x); return t; }());
            for (auto &l : lo) { M m = base(s.k); int p = 0; for (int y = 0; y < rows(s.k); y++) for (int x = 0; x < m.n; x++, p++) m.at(y, x) = p < (int)h.size() ? h[(size_t)p] : l[(size_t)p - h.size()]; inverse_case(s.k, m); if (mc::failed()) break; } } }
    mc::phase("inverses by swapping"); for (int k = 0; k < MK_N; k++) if (mk_info[k].inv) for (auto &a : regular(k)) for (int alias = 0; alias < 2; alias++) { if (!mc::next()) continue; mc::desc_s(mc::strf("%s_inv %s%s", mk_info[k].name, show(a).c_str(), alias ? " in place" : "")); mm A = put(mk_info[k], a), r; double ret, old; memset(&old, 0x47, sizeof old); m_op(k, MO_INV, alias, nullptr, &A, nullptr, &r, &ret); mc::trace();
        M w = inverse(a); mc::trans(); if (!same(r.n, w) || !same(r.i, a)) mc::fail(key(k, MO_INV), "inverse %s with inverse %s", show(w.n, r.n).c_str(), show(w.n, r.i).c_str()); if (!alias && r.d == 1 / old) mc::desc_s(key(k, MO_INV) + " of any matrix into another one"); if (!close(r.d, 1 / det(a))) mc::fail(key(k, MO_INV) + (!alias && r.d == 1 / old ? ":det-of-old-result" : ":det"), "determinant of the inverse %.9g, not %.9Lg", r.d, 1 / det(a)); }
}
static M lin(int k, const vector<L> &e) { // e: geo x geo
    int n = mk_info[k].dim, g = mk_info[k].geo; M m = id(n); for (int y = 0; y < g; y++) for (int x = 0; x < g; x++) m.at(y, x) = e[(size_t)(y * g + x)]; return m; }
static void call(int k, int op, const vector<double> &x, const M &w, const string &what) { mm r; double ret; vector<double> y = x; y.resize(8); if (!m_op(k, op, 0, y.data(), nullptr, nullptr, &r, &ret)) return; mc::trace(); expect(k, op, r, w, mk_info[k].name + string("_") + ON[op] + " " + what); }
static void rotation_about(const L *u, L s, L c, vector<L> &e) { L K[9] = {0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0}, K2[9] = {}; for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) for (int q = 0; q < 3; q++) K2[y * 3 + x] += K[y * 3 + q] * K[q * 3 + x]; e.resize(9); for (int i = 0; i < 9; i++) e[(size_t)i] = (i % 4 == 0) + s * K[i] + (1 - c) * K2[i]; }
static void makers() {
    mc::phase("matrices of transformations"); const L PI = acosl(-1.0L); vector<double> al = {-2, -.5, 0, 1, 3};
    for (int k = 0; k < MK_N; k++) { int n = mk_info[k].dim, g = mk_info[k].geo;
        if (mc::next()) { mc::desc_s(mk_info[k].name + string(" unit")); call(k, MO_UNIT, {}, id(n), ""); }
        for (auto &v : grid(g, al)) { if (!mc::next()) continue; string t; for (double x : v) t += mc::strf("%g ", x); mc::desc_s(mk_info[k].name + string(" with ") + t); vector<double> a = v; a.resize(8);
            vector<L> e((size_t)(g * g)); for (int i = 0; i < g; i++) e[(size_t)(i * g + i)] = v[(size_t)i]; call(k, MO_SCALE, a, lin(k, e), t); call(k, MO_SCALE_V, a, lin(k, e), t);
            for (int i = 0; i < g; i++) e[(size_t)(i * g + i)] = v[0]; call(k, MO_SCALE1, a, lin(k, e), t);
            M x = id(n); for (int i = 0; i < n - 1; i++) x.at(i, n - 1) = a[(size_t)i]; call(k, MO_XLAT, a, x, t); call(k, MO_XLAT_V, a, x, t);
            L l = 0; for (double q : v) l += (L)q * q; l = sqrtl(l); if (l == 0) continue; vector<double> u(8); L ul[3] = {}; for (int i = 0; i < g; i++) { ul[i] = v[(size_t)i] / l; u[(size_t)i] = (double)ul[i]; }
            for (int y = 0; y < g; y++) for (int q = 0; q < g; q++) e[(size_t)(y * g + q)] = (y == q) - 2 * ul[y] * ul[q];
            call(k, MO_MIRROR_UNIT, u, lin(k, e), "of the unit vector of " + t); call(k, MO_MIRROR_V, a, lin(k, e), t);
            if (g == 3) for (int d = -360; d <= 360; d += 15) { L s = sinl(d * PI / 180), c = cosl(d * PI / 180); u[3] = a[3] = f_sin(d); u[4] = a[4] = f_cos(d); rotation_about(ul, s, c, e); call(k, MO_ROT_UNIT, u, lin(k, e), mc::strf("by %d about the unit vector of ", d) + t); call(k, MO_ROT_V, a, lin(k, e), mc::strf("by %d about ", d) + t); }
            if (g == 3) for (int op : {MO_ROT_UNIT_Z, MO_ROT_Z_V}) { mm r; double ret; m_op(k, op, 0, op == MO_ROT_Z_V ? a.data() : u.data(), nullptr, nullptr, &r, &ret); mc::trace(); M m = mat(n, r.n); string what = string(ON[op]) + " of " + t;
                M w = mul(m, transp(m)); mc::trans(); double chk[16]; for (int i = 0; i < n * n; i++) chk[i] = (double)w.v[i]; if (!same(chk, id(n))) mc::fail(key(k, op), "%s is no rotation: %s", what.c_str(), show(m).c_str());
                else { L z[3]; for (int y = 0; y < 3; y++) { z[y] = 0; for (int q = 0; q < 3; q++) z[y] += m.at(y, q) * ul[q]; } if (fabsl(z[0]) + fabsl(z[1]) + fabsl(z[2] - 1) > 1e-9L) mc::fail(key(k, op) + ":z", "%s takes the vector to %Lg,%Lg,%Lg", what.c_str(), z[0], z[1], z[2]);
                    if (fabsl(det(m) - 1) > 1e-9L) mc::fail(key(k, op) + ":mirror", "%s has the determinant %Lg", what.c_str(), det(m)); else expect(k, op, r, m, what); }
                if (op == MO_ROT_Z_V && ret != 1) mc::fail(key(k, op) + ":ret", "%s returns %g", what.c_str(), ret); } }
        for (int d = -720; d <= 720; d += mc::thorough ? 1 : 5) { if (!mc::next()) continue; mc::desc("%s rotations by %d", mk_info[k].name, d); L s = sinl(d * PI / 180), c = cosl(d * PI / 180); vector<double> x(8); x[3] = f_sin(d); x[4] = f_cos(d); string t = mc::strf("by %d", d); vector<L> e; L ax[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
            if (g == 3) for (int q = 0; q < 3; q++) { rotation_about(ax[q], s, c, e); call(k, MO_ROT_X + q, x, lin(k, e), t); } else call(k, MO_ROT_Z, x, lin(k, {c, -s, s, c}), t);
            int m = k == MK_4 || k == MK_4i ? 4 : g; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (i != j) { x[5] = i; x[6] = j; M w = id(n); w.at(i, i) = w.at(j, j) = c; w.at(i, j) = -s; w.at(j, i) = s; call(k, MO_ROT_IJ, x, w, t + mc::strf(" %d,%d", i, j)); } } }
    mc::phase("short vectors"); for (int dim = 2; dim <= 4; dim++) for (int ex = -40; ex <= 20; ex++) for (auto &v : grid(dim, {-1, 0, 1})) { L l = 0; for (double q : v) l += (L)q * q; if (l == 0 || !mc::next()) continue; l = sqrtl(l); L len = ldexpl(l, ex); vector<double> a = v, r(8); a.resize(8); for (double &q : a) q = ldexp(q, ex);
        mc::desc("vec%d_unit of a vector of length %Lg", dim, len); int ret = -1; L lim = 0x1p-15L; bool mid = len < lim && len >= 0x1p-30L;
        auto unit_ok = [&](const vector<double> &q, int ok) { mc::trans(); for (int i = 0; i < dim; i++) if (!close(q[(size_t)i], ok ? v[(size_t)i] / l : 0)) return false; return ok == (len >= lim); };
        v_op(dim, VO_UNIT, 0, a.data(), a.data(), a.data(), 0, r.data(), &ret); mc::trace();
        { bool zero, bad = len >= lim ? !unit_ok(r, 1) || ret != 1 : ret ? !unit_ok(r, 1) : !unit_ok(r, 0); zero = ret == 1 && !r[0] && !r[1] && !r[2] && !r[3];
          if (bad) { if (mid && zero) mc::desc_s("success and a zero vector for a length between 2^-30 and 2^-15"); mc::fail(mid && zero ? "unit:short-vector" : "unit", "returns %d and %g,%g,%g", ret, r[0], r[1], r[2]); mc::desc("vec%d_unit of a vector of length %Lg", dim, len); } }
        if (dim == 3) for (int k = MK_3; k < MK_N; k++) { mm m; double rt; m_op(k, MO_ROT_Z_V, 0, a.data(), nullptr, nullptr, &m, &rt); mc::trace(); mc::trans(); M q = mat(mk_info[k].dim, m.n), w = mul(q, transp(q)); double chk[16]; for (int i = 0; i < w.n * w.n; i++) chk[i] = (double)w.v[i]; if (!same(chk, id(w.n)) || (len >= lim) != (rt != 0)) { bool known = mid && rt == 1 && q.at(0, 0) == 1 && q.at(1, 1) == 1 && !q.at(2, 0) && !q.at(2, 1) && !q.at(2, 2); if (known) mc::desc_s("success and a singular matrix for a length between 2^-30 and 2^-15"); mc::fail(known ? "rot_into_z:short-vector" : key(k, MO_ROT_Z_V), "%s returns %g and %s", key(k, MO_ROT_Z_V).c_str(), rt, show(q).c_str()); } } }
}
static void transforms() {
    mc::phase("transformed vectors"); for (int k : {MK_2, MK_2w, MK_3, MK_3w, MK_4}) { const mk_t &K = mk_info[k]; int n = K.dim, vd = k == MK_4 ? 4 : K.geo;
        for (auto &a : basis(k)) { if (!mc::next()) continue; mc::desc_s(K.name + string(" ") + show(a)); mm A = put(K, a); for (auto &v : grid(vd, {-2, 0, 1, 5})) for (int alias = 0; alias < 2; alias++) { double r[4]; vector<double> x = v; x.resize(4); m_xform(k, alias, &A, x.data(), r); mc::trace(); mc::trans(); for (int y = 0; y < vd; y++) { L w = 0; for (int q = 0; q < vd; q++) w += a.at(y, q) * v[(size_t)q]; if (n > vd) w += a.at(y, vd); if (!close(r[y], w)) mc::fail(K.name + string("_xform"), "coordinate %d of the image of %g,%g,%g,%g is %g, not %Lg", y, x[0], x[1], x[2], x[3], r[y], w); } } } }
}
static void conversions() {
    mc::phase("conversions of matrices"); struct C { int dst, src; }; const C cs[] = {{MK_3w, MK_4}, {MK_2w, MK_3}, {MK_2w, MK_3w}, {MK_4, MK_3w}, {MK_3, MK_2w}, {MK_3w, MK_2w}, {MK_3wi, MK_4i}, {MK_2wi, MK_3i}, {MK_2wi, MK_3wi}, {MK_4i, MK_3wi}, {MK_3i, MK_2wi}, {MK_3wi, MK_2wi}};
    for (auto &c : cs) { const mk_t &S = mk_info[c.src], &D = mk_info[c.dst]; int n = S.dim, m = D.dim; vector<M> in = inputs(c.src);
        // matrices that can be converted, and those that differ from one in one or two entries
        vector<M> good; { M g = id(n); bool w3 = c.dst == MK_2w || c.dst == MK_2wi, from3w = w3 && n == 4; for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) g.at(y, x) = 2 + y * 3 + x; if (!from3w && S.geo == 3 && n == 4) { g.at(0, 2) = 3; g.at(2, 1) = -1; g.at(2, 2) = 4; g.at(2, 3) = 9; } g.at(0, n - 1) = 7; g.at(1, n - 1) = -5; good.push_back(g); good.push_back(id(n)); }
        for (auto &g : good) { in.push_back(g); for (int p = 0; p < rows(c.src) * n; p++) for (double d : {1.0, -1.0, .001}) { M q = g; q.v[p] += d; in.push_back(q); for (int p2 = p + 1; p2 < rows(c.src) * n; p2++) { M q2 = q; q2.v[p2] -= 1; in.push_back(q2); } } }
        for (auto &a : in) { if (S.inv && fabsl(det(a)) < 1e-6L) continue; if (!mc::next()) continue; mc::desc_s(mc::strf("%s from %s %s", D.name, S.name, show(a).c_str())); mm A = put(S, a), r; int ret; m_from(c.dst, c.src, &A, &r, &ret); mc::trace(); mc::trans();
            auto conv = [&](const M &x, bool &ok) { M w = id(m); ok = true; int dg = D.geo, sg = S.geo; if (c.src == MK_3 || c.src == MK_3i) sg = 2; if (c.dst == MK_3 || c.dst == MK_3i) dg = 2; int q = std::min(dg, sg); // linear part and translation
                for (int y = 0; y < q; y++) { for (int z = 0; z < q; z++) w.at(y, z) = x.at(y, z); w.at(y, m - 1) = x.at(y, n - 1); }
                for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) { bool kept = y < q && (z < q || z == n - 1); if (!kept && fabsl(x.at(y, z) - (y == z)) > 0x1p-15L) ok = false; } return w; };
            bool on, oi = true; M w = conv(a, on), wi; string k = string(D.name) + "_from_" + S.name; if (!same(r.n, w)) mc::fail(k, "is %s, not %s", show(m, r.n).c_str(), show(w).c_str());
            if (S.inv) { wi = conv(inverse(a), oi); if (!same(r.i, wi)) mc::fail(k + ":inverse", "inverse is %s, not %s", show(m, r.i).c_str(), show(wi).c_str()); L d = det(w); if (!close(r.d, d)) mc::fail(k + ":det", "determinant %g, not %Lg", r.d, d); }
            if (ret >= 0 && ret != (on && oi)) mc::fail(k + ":ret", "returns %d", ret); } }
    mc::phase("rectangular rotations"); for (auto &v : grid(9, {-1, 0, 1})) { if (!mc::next()) continue; int nr = 0; bool over = false; for (int y = 0; y < 3; y++) { int r = 0, c = 0; for (int x = 0; x < 3; x++) { r += v[(size_t)(y * 3 + x)] != 0; c += v[(size_t)(x * 3 + y)] != 0; } nr += r == 1 && c == 1; over |= r > 1 || c > 1; }
        if (nr != 3 && !over) continue; mc::desc("is_rect_rot [%g %g %g; %g %g %g; %g %g %g]", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); mc::trace(); mc::trans(); if (m_isrot(v.data()) != (nr == 3)) { mc::desc_s("rectangular rotations and others"); mc::fail("is_rect_rot", "returns %d", m_isrot(v.data())); } }
}
static void vectors() {
    mc::phase("vectors"); static const char *N[VO_N] = {"add", "sub", "neg", "mul", "mulc", "div", "divc", "min", "max", "rev", "lerp", "unit", "dir", "cross", "right_cross3", "left_cross3", "normal", "right_normal3", "left_normal3"};
    for (int dim = 2; dim <= 4; dim++) { auto g = grid(dim, dim == 4 ? vector<double>{-2, 0, 1} : vector<double>{-2, 0, .5, 1, 3}); for (auto &a : g) { if (!mc::next()) continue; mc::desc("vec%d %g,%g,%g,%g", dim, a[0], a[1], dim > 2 ? a[2] : 0, dim > 3 ? a[3] : 0);
        for (auto &b : g) for (int op = 0; op < VO_CROSS; op++) for (int alias = 0; alias < 5; alias++) for (double c : {-1., 0., .25, 2.}) { if (c != 2 && op != VO_MUL && op != VO_DIV && op != VO_LERP) continue; double r[4]; int ret; if ((op == VO_NEG || op == VO_REV || op == VO_MUL || op == VO_DIV || op == VO_UNIT) && (alias > 1 || b != a)) continue;
            if (!v_op(dim, op, alias, a.data(), b.data(), b.data(), c, r, &ret)) continue; mc::trace(); mc::trans(); L la = 0, ld = 0; auto &bb = alias >= 3 ? a : b; for (int i = 0; i < dim; i++) { la += (L)a[(size_t)i] * a[(size_t)i]; ld += ((L)a[(size_t)i] - bb[(size_t)i]) * ((L)a[(size_t)i] - bb[(size_t)i]); } la = sqrtl(la); ld = sqrtl(ld);
            for (int i = 0; i < dim; i++) { L x = a[(size_t)i], y = bb[(size_t)i], w = 0; switch (op) { case VO_ADD: w = x + y; break; case VO_SUB: w = x - y; break; case VO_NEG: w = -x; break; case VO_MUL: w = x * c; break; case VO_MULC: w = x * y; break; case VO_DIV: w = c == 0 ? 0 : x / c; break; case VO_DIVC: w = y == 0 ? 0 : x / y; break; case VO_MIN: w = std::min(x, y); break; case VO_MAX: w = std::max(x, y); break; case VO_REV: w = a[(size_t)(dim - 1 - i)]; break; case VO_LERP: w = x + (y - x) * c; break; case VO_UNIT: w = la == 0 ? 0 : x / la; break; case VO_DIR: w = ld == 0 ? 0 : (x - y) / ld; break; }
                if (!close(r[i], w)) mc::fail(mc::strf("vec%d_%s", dim, N[op]), "with %g,%g,%g,%g and %g, storage shared in way %d: coordinate %d is %g, not %Lg", b[0], b[1], dim > 2 ? b[2] : 0, dim > 3 ? b[3] : 0, c, alias, i, r[i], w); }
            if (op == VO_UNIT && (ret != 0) != (la != 0)) mc::fail(mc::strf("vec%d_unit:ret", dim), "returns %d", ret); }
        for (auto &b : g) for (int op = 0; op < VS_CROSSZ; op++) { double r; v_scal(dim, op, a.data(), b.data(), b.data(), &r); mc::trace(); mc::trans(); L dot = 0, sa = 0, sd = 0, mx = 0; int cmp = 0; for (int i = 0; i < dim; i++) { L x = a[(size_t)i], y = b[(size_t)i]; dot += x * y; sa += x * x; sd += (x - y) * (x - y); mx = std::max(mx, fabsl(x)); if (!cmp) cmp = (x > y) - (x < y); }
            L w = op == VS_DOT ? dot : op == VS_SQRLEN ? sa : op == VS_LEN ? sqrtl(sa) : op == VS_SQRDIST ? sd : op == VS_DIST ? sqrtl(sd) : op == VS_CMP ? cmp : op == VS_EQ ? !cmp : op == VS_LEN0 ? sa == 0 : op == VS_LEN1 ? sa == 1 : op == VS_LEN01 ? sa == 0 || sa == 1 : mx; if (!close(r, w)) mc::fail(mc::strf("vec%d:%d", dim, op), "scalar function %d with %g,%g,%g is %g, not %Lg", op, b[0], b[1], dim > 2 ? b[2] : 0, r, w); } } }
    mc::phase("cross products and angles"); { auto g = grid(3, {-1, 0, 2}); for (auto &a : g) for (auto &o : g) { if (!mc::next()) continue; mc::desc("vec3 a=%g,%g,%g o=%g,%g,%g", a[0], a[1], a[2], o[0], o[1], o[2]); for (auto &b : g) for (int op = VO_CROSS; op < VO_N; op++) for (int alias = 0; alias < 3; alias++) { bool three = op != VO_CROSS && op != VO_NORMAL; if (!three && o != g[0]) continue; double r[3]; int ret; if (!v_op(3, op, alias, a.data(), b.data(), o.data(), 0, r, &ret)) continue; mc::trace(); mc::trans();
            L p[3], q[3], w[3]; for (int i = 0; i < 3; i++) { p[i] = a[(size_t)i] - (three ? o[(size_t)i] : 0); q[i] = b[(size_t)i] - (three ? o[(size_t)i] : 0); } if (op == VO_LCROSS3 || op == VO_LNORMAL3) for (int i = 0; i < 3; i++) std::swap(p[i], q[i]); for (int i = 0; i < 3; i++) w[i] = p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]; L l = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
            if (op >= VO_NORMAL) for (L &x : w) x = l == 0 ? 0 : x / l; for (int i = 0; i < 3; i++) if (!close(r[i], w[i])) mc::fail(mc::strf("vec3_%s", N[op]), "with b=%g,%g,%g is %g,%g,%g, not %Lg,%Lg,%Lg", b[0], b[1], b[2], r[0], r[1], r[2], w[0], w[1], w[2]); if (ret >= 0 && ret != (l != 0)) mc::fail(mc::strf("vec3_%s:ret", N[op]), "with b=%g,%g,%g returns %d", b[0], b[1], b[2], ret);
          }
          for (auto &b : g) { double r; v_scal(3, VS_INLINE, a.data(), b.data(), o.data(), &r); L p[3], q[3], l = 0; for (int i = 0; i < 3; i++) { p[i] = o[(size_t)i] - a[(size_t)i]; q[i] = b[(size_t)i] - o[(size_t)i]; } for (int i = 0; i < 3; i++) l += fabsl(p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]); mc::trans(); if ((r != 0) != (l == 0)) mc::fail("vec3_in_line", "with %g,%g,%g: %g", b[0], b[1], b[2], r); } }
      // the normal of two vectors does not depend on their lengths
      auto h = grid(3, {-1, 0, 1}); for (int e1 = -42; e1 <= 21; e1 += 3) for (int e2 = -42; e2 <= 21; e2 += 3) for (auto &a : h) { if (!mc::next()) continue; mc::desc("normal of 2^%d*(%g,%g,%g) and vectors of size 2^%d", e1, a[0], a[1], a[2], e2); for (auto &b : h) { double p[3], q[3], r[3], z[3] = {}; L w[3], l = 0; for (int i = 0; i < 3; i++) { p[i] = ldexp(a[(size_t)i], e1); q[i] = ldexp(b[(size_t)i], e2); w[i] = (L)a[(size_t)((i + 1) % 3)] * b[(size_t)((i + 2) % 3)] - (L)a[(size_t)((i + 2) % 3)] * b[(size_t)((i + 1) % 3)]; l += w[i] * w[i]; } l = sqrtl(l); int ret; v_op(3, VO_NORMAL, 0, p, q, z, 0, r, &ret); mc::trace(); mc::trans(); bool bad = ret != (l != 0); for (int i = 0; i < 3; i++) bad |= !close(r[i], l == 0 ? 0 : w[i] / l); if (bad) mc::fail("vec3_normal:size", "with (%g,%g,%g): returns %d, %g,%g,%g", b[0], b[1], b[2], ret, r[0], r[1], r[2]); } } }
    { auto g = grid(2, {-2, -1, 0, 1, 3}); for (auto &a : g) for (auto &o : g) { if (!mc::next()) continue; mc::desc("vec2 a=%g,%g o=%g,%g", a[0], a[1], o[0], o[1]); for (auto &b : g) for (int op = VS_CROSSZ; op < VS_N; op++) { bool three = op != VS_CROSSZ && op != VS_NORMALZ && op != VS_ANGLE; if (!three && o != g[12]) continue; double r; v_scal(2, op, a.data(), b.data(), o.data(), &r); mc::trace(); mc::trans(); L ax = a[0], ay = a[1], bx = b[0], by = b[1]; if (three) ax -= o[0], ay -= o[1], bx -= o[0], by -= o[1]; L z = ax * by - ay * bx, w = z;
            switch (op) { case VS_NORMALZ: case VS_RN3Z: w = (z > 0) - (z < 0); break; case VS_LC3Z: w = -z; break; case VS_LN3Z: w = (z < 0) - (z > 0); break; case VS_INLINE: w = z == 0; break; case VS_ANGLE: case VS_ANGLE3: if ((ax == 0 && ay == 0) || (bx == 0 && by == 0)) continue; w = atan2l(z, ax * bx + ay * by); if (z == 0 && ax * bx + ay * by < 0) w = acosl(-1); break; }
            if (!close(r, w)) mc::fail(mc::strf("vec2:%d", op), "function %d with b=%g,%g is %.17g, not %.17Lg", op, b[0], b[1], r, w); }
        for (int d = 0; d < 360; d += 15) { double u[2] = {f_cos(d), f_sin(d)}, r[2]; v_nearest(a.data(), u, o.data(), r); L t = (o[0] - a[0]) * (L)u[0] + (o[1] - a[1]) * (L)u[1]; mc::trans(); if (!close(r[0], a[0] + t * u[0]) || !close(r[1], a[1] + t * u[1])) mc::fail("vec2_nearest", "on the line in direction %d: %g,%g", d, r[0], r[1]); } } }
    mc::phase("boxes"); for (int dim = 2; dim <= 4; dim++) { vector<double> al = {-INFINITY, 0, 1, 3, INFINITY}; vector<std::pair<double, double>> iv; for (double x : al) for (double y : al) if (std::isfinite(x) == std::isfinite(y) && (std::isfinite(x) || x != y)) iv.push_back({x, y}); // intervals: some empty, the empty and the full one
        vector<vector<int>> bx; std::function<void(vector<int>)> rec = [&](vector<int> v) { if ((int)v.size() == std::min(dim, 3)) { while ((int)v.size() < dim) v.push_back(v[0]); bx.push_back(v); return; } for (int i = 0; i < (int)iv.size(); i += dim > 2 && !mc::thorough ? 2 : 1) { auto q = v; q.push_back(i); rec(q); } }; rec({});
        for (auto &A : bx) { if (!mc::next()) continue; double a[8], b[8], r[8]; for (int i = 0; i < dim; i++) { a[i] = iv[(size_t)A[(size_t)i]].first; a[dim + i] = iv[(size_t)A[(size_t)i]].second; } mc::desc("vec%d box %g..%g, %g..%g", dim, a[0], a[dim], a[1], a[dim + 1]); auto valid = [&](const double *x) { for (int i = 0; i < dim; i++) if (x[i] > x[dim + i]) return false; return true; };
            if ((v_minmax(dim, 3, a, a, r) != 0) != valid(a)) mc::fail("minmax_valid", "is not %d", valid(a)); mc::trans();
            for (auto &p : grid(dim, {-1, 0, 2})) { v_minmax(dim, 0, a, p.data(), r); mc::trace(); mc::trans(); for (int i = 0; i < dim; i++) if (r[i] != std::min(a[i], p[(size_t)i]) || r[dim + i] != std::max(a[dim + i], p[(size_t)i])) mc::fail("minmax", "with the point %g,%g,..: %g..%g", p[0], p[1], r[i], r[dim + i]); }
            for (auto &B : bx) { for (int i = 0; i < dim; i++) { b[i] = iv[(size_t)B[(size_t)i]].first; b[dim + i] = iv[(size_t)B[(size_t)i]].second; } mc::trace(2); mc::trans(2); v_minmax(dim, 1, a, b, r); for (int i = 0; i < dim; i++) { double lo = std::min(a[i], b[i]), hi = std::max(a[dim + i], b[dim + i]); if (!valid(a)) lo = b[i], hi = b[dim + i]; else if (!valid(b)) lo = a[i], hi = a[dim + i]; if (r[i] != lo || r[dim + i] != hi) mc::fail("minmax_or", "with %g..%g, %g..%g: %g..%g in dimension %d", b[0], b[dim], b[1], b[dim + 1], r[i], r[dim + i], i); }
                v_minmax(dim, 2, a, b, r); for (int i = 0; i < dim; i++) if (r[i] != std::max(a[i], b[i]) || r[dim + i] != std::min(a[dim + i], b[dim + i])) mc::fail("minmax_and", "with %g..%g, %g..%g: %g..%g in dimension %d", b[0], b[dim], b[1], b[dim + 1], r[i], r[dim + i], i); } } }
}
static void numbers() {
    const L PI = acosl(-1.0L); mc::phase("sines and cosines");
    for (long d = -7200; d <= 7200; d++) { if (!mc::next()) continue; mc::desc("angle %ld", d); for (int q = 0; q < 4; q++) { double a = (double)d + q * .25; L s = sinl(a * PI / 180), c = cosl(a * PI / 180); mc::trace(2); mc::trans(2); if (fabsl(f_sin(a) - s) > 4e-14L * (1 + fabsl(a) / 360)) mc::fail("sin_deg", "sin(%g) = %.17g", a, f_sin(a)); if (fabsl(f_cos(a) - c) > 4e-14L * (1 + fabsl(a) / 360)) mc::fail("cos_deg", "cos(%g) = %.17g", a, f_cos(a)); if (fabsl(c) > 1e-3L && fabsl(f_tan(a) - s / c) > 1e-7L) mc::fail("tan_deg", "tan(%g) = %.17g", a, f_tan(a)); }
        if (d % 30 == 0) { long m = ((d % 360) + 360) % 360; double s = m % 180 == 0 ? 0 : m == 90 ? 1 : m == 270 ? -1 : m == 30 || m == 150 ? .5 : m == 210 || m == 330 ? -.5 : NAN, c = m == 90 || m == 270 ? 0 : m == 0 ? 1 : m == 180 ? -1 : m == 60 || m == 300 ? .5 : m == 120 || m == 240 ? -.5 : NAN; mc::trans(2); if (s == s && f_sin((double)d) != s) mc::fail("sin_deg:exact", "sin(%ld) = %.17g", d, f_sin((double)d)); if (c == c && f_cos((double)d) != c) mc::fail("cos_deg:exact", "cos(%ld) = %.17g", d, f_cos((double)d)); } }
    mc::phase("integers in floating point"); for (int e = -3; e <= 1023; e++) for (int sg = -1; sg <= 1; sg += 2) { if (!mc::next()) continue; mc::desc("%d*2^%d", sg, e); for (int k = -8; k <= 8; k++) for (double f : {0., .5, .25}) { double x = sg * (ldexp(1, e) + k + f); long long i = 77; bool in = std::isfinite(x) && x == std::floor(x) && fabs(x) >= 1 && fabs(x) < 0x1p53; int r = f_get_int(x, &i); mc::trace(); mc::trans(); if (fabs(x) >= 0x1p53 || x == 0) { if (r && (double)i != x) mc::fail("f_get_int", "%g is said to be %lld", x, i); continue; } if (r != (in ? 1 : 0) || (r && (double)i != x)) mc::fail("f_get_int", "%.17g: returns %d, %lld", x, r, i); } }
    if (mc::next()) { mc::desc("no numbers"); long long i; for (double x : {(double)INFINITY, -(double)INFINITY, (double)NAN}) if (f_get_int(x, &i)) mc::fail("f_get_int", "%g is an integer", x); }
    mc::phase("comparisons with tolerance"); { const double E = 0x1p-15, E2 = 0x1p-30; vector<double> ba = {0, 1, -1, 2.5, -1000, 4096.25}; for (int sq = 0; sq < 2; sq++) for (double a : ba) { if (!mc::next()) continue; mc::desc("%g%s", a, sq ? " squared" : ""); double e = sq ? E2 : E; vector<double> ds = {0}; for (double m : {.25, .5, 2., 4., 1e3, 1e6}) { ds.push_back(m * e); ds.push_back(-m * e); } for (double d : ds) { double b = a + d; double dd = b - a; int eq = fabs(dd) < e, lt = dd >= e, gt = dd <= -e; int w[6] = {eq, eq || lt, lt, eq || gt, gt, gt - lt}; for (int op = 0; op < 6; op++) { mc::trace(); mc::trans(); if (fabs(fabs(dd) - e) < e * 1e-3) continue; int r = f_cmp(op + 8 * sq, a, b); if (r != w[op]) mc::fail(mc::strf("cmp:%d:%d", sq, op), "comparison %d of %.17g with %.17g: %d", op, a, b, r); } } } }
    mc::phase("interpolation"); for (double a : {-3., 0., .5, 2.}) for (double b : {-3., 0., .5, 2., 7.}) for (double t : {-1., -.5, 0., .25, 1., 2.}) { if (!mc::next()) continue; mc::desc("%g %g %g", a, b, t); mc::trace(5); mc::trans(5); L x = a + (b - a) * (L)t; if (!close(f_lerp(a, b, t), x)) mc::fail("lerp", "%g", f_lerp(a, b, t)); L y = a + (b - a) * ((L)t + 1) / 2; if (!close(f_lerp_pm(a, b, t), y)) mc::fail("lerp_pm", "%g", f_lerp_pm(a, b, t)); if (!close(f_t01(a, (double)x, b), a == b ? 0 : t)) mc::fail("t01", "%g", f_t01(a, (double)x, b)); if (!close(f_t_pm(a, (double)y, b), a == b ? -1 : t)) mc::fail("t_pm", "%g", f_t_pm(a, (double)y, b)); if (!close(f_div0(a, b), b == 0 ? 0 : (L)a / b)) mc::fail("div0", "%g", f_div0(a, b)); }
    mc::phase("circles"); for (size_t n = 1; n <= (mc::thorough ? 3000u : 720u); n++) { if (!mc::next()) continue; mc::desc("circle of %zu", n); vector<double> c(n + 2), s(n + 2); vector<size_t> ix(n + 2); size_t k = f_circle(n, c.data(), s.data(), ix.data()); mc::trace(); vector<char> seen(n); if (k != n) { mc::fail("circle:count", "%zu steps", k); continue; } for (size_t i = 0; i < n; i++) { mc::trans(); if (ix[i] >= n || seen[ix[i]]) { mc::fail("circle:index", "step %zu has the index %zu", i, ix[i]); break; } seen[ix[i]] = 1; L a = 2 * PI * ix[i] / n; if (fabsl(c[i] - cosl(a)) > 1e-12L || fabsl(s[i] - sinl(a)) > 1e-12L) { mc::fail("circle:point", "index %zu is at %.17g,%.17g", ix[i], c[i], s[i]); break; } } }
}
static void into_zx() {
    mc::phase("coordinate systems of three points"); auto g = grid(3, mc::thorough ? vector<double>{-2, -1, 0, 1, 3} : vector<double>{-1, 0, 2}); auto og = grid(3, {-1, 0, 1});
    for (size_t oi = 0; oi <= og.size(); oi++) for (auto &a : g) { if (!mc::next()) continue; vector<double> o = oi < og.size() ? og[oi] : vector<double>{0, 0, 0}; mc::desc("o=%s%g,%g,%g a=%g,%g,%g", oi < og.size() ? "" : "NULL:", o[0], o[1], o[2], a[0], a[1], a[2]);
        for (size_t bi = 0; bi <= g.size(); bi++) for (int out = 0; out < 3; out++) { const double *bp = bi < g.size() ? g[bi].data() : nullptr; double in[16], fr[16]; int ret = m_into_zx(oi < og.size() ? o.data() : nullptr, a.data(), bp, out == 1 ? nullptr : in, out == 2 ? nullptr : fr); mc::trace(); mc::trans(); string bt = bp ? mc::strf("b=%g,%g,%g", bp[0], bp[1], bp[2]) : "b=NULL"; M I = out == 1 ? inverse(mat(4, fr)) : mat(4, in);
            if (out == 0) { M p = mul(I, mat(4, fr)); double chk[16]; for (int i = 0; i < 16; i++) chk[i] = (double)p.v[i]; if (!same(chk, id(4))) { mc::fail("into_zx:inverse", "%s: the matrices are not inverse to each other", bt.c_str()); continue; } }
            M R = zero(3); for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) R.at(y, x) = I.at(y, x); M q = mul(R, transp(R)); double chk[9]; for (int i = 0; i < 9; i++) chk[i] = (double)q.v[i]; if (!same(chk, id(3)) || fabsl(det(R) - 1) > 1e-9L) { mc::fail("into_zx:rotation", "%s: %s is no rotation", bt.c_str(), show(I).c_str()); continue; }
            auto img = [&](const double *v, L *w) { for (int y = 0; y < 3; y++) { w[y] = I.at(y, 3); for (int x = 0; x < 3; x++) w[y] += I.at(y, x) * v[x]; } }; L w[3], len = 0; img(o.data(), w); if (fabsl(w[0]) + fabsl(w[1]) + fabsl(w[2]) > 1e-9L) mc::fail("into_zx:origin", "%s: o is mapped to %Lg,%Lg,%Lg", bt.c_str(), w[0], w[1], w[2]);
            for (int i = 0; i < 3; i++) len += (L)(a[(size_t)i] - o[(size_t)i]) * (a[(size_t)i] - o[(size_t)i]); img(a.data(), w); if (fabsl(w[0]) + fabsl(w[1]) + fabsl(w[2] - sqrtl(len)) > 1e-8L) mc::fail("into_zx:a", "%s: a is mapped to %Lg,%Lg,%Lg", bt.c_str(), w[0], w[1], w[2]);
            bool skip = bp && bp[0] == o[0] && bp[1] == o[1], want = len != 0 && !skip; if (ret != want) mc::fail("into_zx:ret", "%s: returns %d", bt.c_str(), ret);
            if (bp && !skip) { img(bp, w); L dot = 0; for (int i = 0; i < 3; i++) dot += (L)(a[(size_t)i] - o[(size_t)i]) * (bp[i] - o[(size_t)i]); if (fabsl(w[1]) > 1e-4L) mc::fail("into_zx:b", "%s: b is mapped to %Lg,%Lg,%Lg", bt.c_str(), w[0], w[1], w[2]); else if (len != 0 && dot == 0 && fabsl(w[2]) > 1e-8L) mc::fail("into_zx:x", "%s: b is mapped to %Lg,%Lg,%Lg", bt.c_str(), w[0], w[1], w[2]); } } }
}
void mc_main() { products(); comparisons(); inverses(); makers(); transforms(); conversions(); vectors(); numbers(); into_zx(); }
