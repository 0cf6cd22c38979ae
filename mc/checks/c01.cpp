// C01: boolean trees of 3D bodies, layer by layer against the set expression.
#include "../scad.hpp"
static vector<string> ARGS = {"--min=0.5", "--max=2.9", "--step=1", "--empty=ignore"};
static Grid G44 = {-0.47, -0.48, 0.5, 0.5, 11, 11};
static NP comb(int k, const vector<NP> &c) { return k == 0 ? Union(c) : k == 1 ? Diff(c) : Inter(c); }
static void go(const NP &n, const Grid &g = G44) { mc::sample(n->text()); check_model(*n, ARGS, g); }
void mc_main() {
    bool T = true;
    NP A = Cube(0,0,0, 2,2,2), B = Cube(1,1,0, 2,2,3), C = Cube(2,0,1, 2,2,2), D = Cube(1,0,0, 1,2,1), E = Group({}), Z = leaf("cube([0,1,1])", [](V) { return false; });
    { mc::phase("one operation on up to three leaves"); vector<NP> L = {A, B, C, D, E, Z, Cyl(3,2,1,4), Group({E})};
      for (int k = 0; k < 3; k++) { if (mc::next()) go(comb(k, {}));
        for (auto &a : L) { if (mc::next()) go(comb(k, {a})); for (auto &b : L) { if (mc::next()) go(comb(k, {a, b})); for (auto &c : L) if (mc::next()) go(comb(k, {a, b, c})); } } } }
    { mc::phase("all trees of two levels over five leaves"); vector<NP> L = {A, B, C, D, E}, S = L;
      if (T) L.push_back(Z), S = L;
      for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) S.push_back(comb(k, {a, b}));
      size_t n1 = L.size();
      for (int k = 0; k < 3; k++) for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S.size(); j++) { if (i < n1 && j < n1) continue; if (!T && (i * 7 + j * 3 + (size_t)k) % 3) continue; if (mc::next()) go(comb(k, {S[i], S[j]})); } }
    { mc::phase("left and right chains of operations"); vector<NP> L = {Cube(0,0,0,4,4,3), Cube(1,0,0,1,4,3), Cube(0,1,0,3,2,2), Cube(0,0,0,2,2,3), Cube(1,1,1,3,3,2), Cube(2,0,0,2,4,1), Cube(0,2,0,4,1,3), Cube(2,2,0,1,1,2), Cube(0,0,0,3,3,3)};
      int n = T ? 8 : 6; int m = 1; for (int i = 1; i < n; i++) m *= 3;
      for (int dir = 0; dir < 2; dir++) for (int w = 0; w < m; w++) { if (!mc::next()) continue; NP t = L[0]; int v = w; for (int i = 1; i < n; i++, v /= 3) t = dir ? comb(v % 3, {L[(size_t)i], t}) : comb(v % 3, {t, L[(size_t)i]}); go(t); } }
    { mc::phase("one operation on many operands"); // across the limit of lazily combined operands
      for (int k = 0; k < 3; k++) for (int n = 4; n <= (T ? 40 : 24); n++) for (int pat = 0; pat < 4; pat++) { if (!mc::next()) continue; vector<NP> c;
        if (k == 1) c.push_back(Cube(0,0,0,5,5,3)); 
        for (int i = 0; i < n; i++) { int x = i % 5, y = (i / 5) % 5; NP q = pat == 0 ? Cube(x, y, i / 25, 1, 1, 3) : pat == 1 ? Cube(x * .5, y * .5, 0, 2, 2, 1 + i % 3) : pat == 2 ? Diff({Cube(0,0,0,5,5,3), Cube(x, y, 0, 1, 1, 2)}) : Inter({Cube(0,0,0, x + 1,5,3), Cube(0,0,0,5,y + 1,3)}); c.push_back(q); }
        if (k == 2) for (auto &q : c) q = Diff({Cube(0,0,0,5,5,3), q});
        go(comb(k, c)); } }
    { mc::phase("groups of groups: nesting of operands of every size"); // lazy combination flushes at every boundary
      for (int k1 = 0; k1 < 3; k1++) for (int k2 = 0; k2 < 3; k2++) for (int a = 1; a <= (T ? 12 : 7); a++) for (int b = 1; b <= (T ? 12 : 7); b++) { if (!mc::next()) continue; vector<NP> X, Y; int s = 0;
        auto lf = [&] { s++; return k1 == 2 ? Diff({Cube(0,0,0,5,5,3), Cube(s % 5, (s * 2) % 5, s % 2, 1, 2, 2)}) : Cube(s % 5, (s * 3) % 5, s % 2, 2, 1, 2); };
        for (int i = 0; i < a; i++) X.push_back(lf()); for (int i = 0; i < b; i++) Y.push_back(lf()); if (k1 == 1) X.insert(X.begin(), Cube(0,0,0,5,5,3));
        go(comb(k2, {comb(k1, X), comb(k1, Y)}), {-0.27, -0.28, 0.5, 0.5, 11, 11}); go(comb(k2, {Cube(1,1,0,3,3,3), comb(k1, X), comb(k1, Y)}), {-0.27, -0.28, 0.5, 0.5, 11, 11}); } }
    if (mc::thorough) { mc::phase("all trees of three levels over four leaves, second operand a leaf"); vector<NP> L = {A, B, C, D}, S = L, U;
      for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) S.push_back(comb(k, {a, b}));
      for (int k = 0; k < 3; k++) for (auto &a : S) for (auto &b : S) for (int k2 = 0; k2 < 3; k2++) for (auto &c : L) for (int d = 0; d < 2; d++) if (mc::next()) go(d ? comb(k2, {comb(k, {a, b}), c}) : comb(k2, {c, comb(k, {a, b})})); }
    { mc::phase("slanted and round bodies"); vector<NP> L = {Cyl(3,2,1,5), Xf("translate([1,1,0])", m_translate(1,1,0), {Cyl(3,1,2,7)}), Xf("rotate([30,20,10])", m_rot(30,20,10), {Cube(0,0,0,2,2,2)}), Xf("translate([1,1,1])", m_translate(1,1,1), {Sphere(1.5,8)}), Cube(.5,-1,0,1,4,3), Xf("mirror([1,1,0])", m_mirror(1,1,0), {Cyl(2,2,.5,3)})};
      vector<NP> S = L; for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) if (a != b) S.push_back(comb(k, {a, b}));
      Grid g = {-2.37, -2.41, 0.31, 0.29, 20, 20};
      for (int k = 0; k < 3; k++) for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < L.size(); j++) for (int d = 0; d < 2; d++) { if (!T && (i + j) % 3) continue; if (mc::next()) go(d ? comb(k, {L[j], S[i]}) : comb(k, {S[i], L[j]}), g); } }
}
