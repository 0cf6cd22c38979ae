// C17: importing an STL file yields the solid stored in it.
#include "../scad.hpp"
typedef std::array<int,3> F3;
struct Mesh { const char *name; vector<V> p; vector<F3> f; }; // faces counter-clockwise seen from outside
static V sub(V a, V b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
static V cross(V a, V b) { return {a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; }
static double dot(V a, V b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static V normal(const Mesh &m, F3 f) { return cross(sub(m.p[(size_t)f[1]], m.p[(size_t)f[0]]), sub(m.p[(size_t)f[2]], m.p[(size_t)f[0]])); }
// even-odd along a skewed ray
static bool inside(const Mesh &m, V q) {
    V d = {.8137, .3391, .4717}; bool r = false;
    for (auto &f : m.f) { V a = m.p[(size_t)f[0]], e1 = sub(m.p[(size_t)f[1]], a), e2 = sub(m.p[(size_t)f[2]], a), h = cross(d, e2); double k = dot(e1, h); if (fabs(k) < 1e-14) continue; V s = sub(q, a); double u = dot(s, h) / k; if (u < 0 || u > 1) continue; V w = cross(s, e1); double v = dot(d, w) / k; if (v < 0 || u + v > 1) continue; if (dot(e2, w) / k > 0) r = !r; }
    return r;
}
static double vol(const Mesh &m) { double v = 0; for (auto &f : m.f) v += dot(m.p[(size_t)f[0]], cross(m.p[(size_t)f[1]], m.p[(size_t)f[2]])); return v; }
static void quad(Mesh &m, int a, int b, int c, int d) { m.f.push_back({a,b,c}); m.f.push_back({a,c,d}); }
static Mesh box(const char *n, double x, double y, double z, double X, double Y, double Z) { Mesh m{n, {{x,y,z},{X,y,z},{X,Y,z},{x,Y,z},{x,y,Z},{X,y,Z},{X,Y,Z},{x,Y,Z}}, {}}; quad(m,3,2,1,0); quad(m,4,5,6,7); for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; quad(m, i, j, j + 4, i + 4); } return m; }
static Mesh prism(const char *n, const vector<Pt> &p, const vector<F3> &t, double z0, double z1) { Mesh m{n, {}, {}}; int k = (int)p.size(); for (int h = 0; h < 2; h++) for (auto &q : p) m.p.push_back({q.x, q.y, h ? z1 : z0}); for (auto &f : t) { m.f.push_back({f[2], f[1], f[0]}); m.f.push_back({f[0] + k, f[1] + k, f[2] + k}); } for (int i = 0; i < k; i++) quad(m, i, (i + 1) % k, (i + 1) % k + k, i + k); return m; }
static Mesh join(const char *n, Mesh a, const Mesh &b, bool rev = false) { int k = (int)a.p.size(); a.name = n; for (auto &p : b.p) a.p.push_back(p); for (auto f : b.f) { if (rev) std::swap(f[0], f[2]); a.f.push_back({f[0] + k, f[1] + k, f[2] + k}); } return a; }
static Mesh ring() { Mesh m{"ring", {}, {}}; double o[4][2] = {{0,0},{4,0},{4,4},{0,4}}, i[4][2] = {{1,1},{3,1},{3,3},{1,3}}; for (double z : {0., 1.5}) for (auto &q : {o, i}) for (int k = 0; k < 4; k++) m.p.push_back({q[k][0], q[k][1], z}); for (int k = 0; k < 4; k++) { int l = (k + 1) % 4; quad(m, k + 4, l + 4, l, k); quad(m, k + 8, l + 8, l + 12, k + 12); quad(m, k, l, l + 8, k + 8); quad(m, l + 4, k + 4, k + 12, l + 12); } return m; }
static Mesh tetra() { return {"tetra", {{0,0,0},{2,0,0},{0,2,0},{0,0,2}}, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}}; }
static vector<Mesh> meshes() {
    vector<Mesh> v = {tetra(), box("box", 0,0,0,2,1,1.5), {"octa", {{2,0,0},{-2,0,0},{0,2,0},{0,-2,0},{0,0,1},{0,0,-1}}, {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}}};
    v.push_back(prism("ell", {{0,0},{3,0},{3,1},{1,1},{1,3},{0,3}}, {{0,1,2},{0,2,3},{0,3,4},{0,4,5}}, -1, 1.25)); v.push_back(ring());
    v.push_back(join("two", box("", 0,0,0,1,1,1), box("", 2,.5,.5,3,2,3))); v.push_back(join("cavity", box("", 0,0,0,4,4,4), box("", 1,1,1,3,3,3), true));
    v.push_back({"skew", {{.123456789,-.4,0},{2.25,.3,.7},{.4,3.1,-.2},{.9,.8,2.6}}, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}});
    for (auto &m : v) if (vol(m) <= 0) mc::harness_error("mesh %s is inside out", m.name);
    return v;
}
// one facet of a file: which face, first vertex, flipped?, scale of the normal
struct Rec { int f; int rot; bool flip; double nrm; };
static vector<Rec> recs(const Mesh &m) { vector<Rec> r; for (size_t i = 0; i < m.f.size(); i++) r.push_back({(int)i, 0, false, 1}); return r; }
typedef vector<string> Toks;
static void vec(Toks &t, V v) { for (double d : {v.x, v.y, v.z}) t.push_back(nm(d == 0 ? 0. : d)); }
static Toks toks(const Mesh &m, const vector<Rec> &rs) {
    Toks t; for (auto &r : rs) { F3 f = m.f[(size_t)r.f]; V n = normal(m, f); double l = r.nrm / sqrt(dot(n, n)); t.push_back("facet"); t.push_back("normal"); vec(t, {n.x * l, n.y * l, n.z * l}); t.push_back("outer"); t.push_back("loop");
        for (int k = 0; k < 3; k++) { int i = (r.flip ? 2 - k : k) + r.rot; t.push_back("vertex"); vec(t, m.p[(size_t)f[(size_t)(i % 3)]]); } t.push_back("endloop"); t.push_back("endfacet"); }
    return t;
}
static string text_of(const Toks &t, const string &head = "solid x\n", const string &tail = "\nendsolid x\n") { string s = head; for (size_t i = 0; i < t.size(); i++) { s += t[i]; if (i + 1 < t.size()) s += t[i + 1] == "vertex" || t[i + 1] == "outer" || t[i + 1] == "facet" || t[i + 1][0] == 'e' ? "\n" : " "; } return s + tail; }
static string bin_of(const Mesh &m, const vector<Rec> &rs, char fill = ' ', unsigned attr = 0) {
    string s(80, fill); auto u = [&](unsigned w, int n) { for (int i = 0; i < n; i++) s += (char)(w >> (8 * i)); }; auto f32 = [&](double d) { float f = (float)d; unsigned w; memcpy(&w, &f, 4); u(w, 4); }; u((unsigned)rs.size(), 4);
    for (auto &r : rs) { F3 f = m.f[(size_t)r.f]; V n = normal(m, f); double l = r.nrm / sqrt(dot(n, n)); f32(n.x * l); f32(n.y * l); f32(n.z * l); for (int k = 0; k < 3; k++) { V p = m.p[(size_t)f[(size_t)(((r.flip ? 2 - k : k) + r.rot) % 3)]]; f32(p.x); f32(p.y); f32(p.z); } u(attr, 2); }
    return s;
}
struct Exp { const Mesh *m; Mat x; string pre; };
static bool solid(const Exp &e, const string &file, int ng = 10, int nz = 4) {
    spit(scr("a.stl"), file); Mesh w = *e.m; for (auto &p : w.p) p = mul(e.x, p); V lo = w.p[0], hi = w.p[0]; for (auto &p : w.p) { lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)}; hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)}; }
    string t = e.pre + "import(\"a.stl\");"; string d = mc::strf("mesh %s, %s, a.stl = ", e.m->name, t.c_str()); bool bin = file.compare(0, 5, "solid"); if (bin) for (size_t i = 0; i < file.size() && i < 400; i++) d += mc::strf("%02x", (unsigned char)file[i]); else d += file.substr(0, 3000);
    double st = std::max(1., floor((hi.z - lo.z) * 64 / nz)) / 64, z0 = floor(lo.z * 64) / 64 + 1. / 128 + floor(st * 64 * .3) / 64, mx = hi.z + .001; vector<string> a = {"--min=" + nm(z0), "--step=" + nm(st), "--max=" + nm(mx)}; Grid g = {lo.x - .11, lo.y - .13, (hi.x - lo.x + .2) / (ng - 1), (hi.y - lo.y + .2) / (ng - 1), ng, ng};
    mc::desc_s("hob3l" + jargs(a) + " on: " + d); mc::sample(d); std::map<long,Layer> ls; Info inf; if (!stl_run(t, a, ls, inf)) return false;
    auto n = leaf(t, [&w](V q) { return inside(w, q); }); return compare(*n, ls, z0, st, std::max(1L, (long)floor((mx - z0) / st + 1e-9) + 1), g, 1e-3);
}
static bool plain(const Mesh &m, const string &f) { return solid({&m, unit(), ""}, f); }
static void reject(const string &why, const string &file, const string &d) {
    spit(scr("a.stl"), file); spit(scr("in.scad"), "import(\"a.stl\");"); mc::desc_s(why + ": " + d); Res r = run({"-q", "in.scad", "-o", "out.stl"}); mc::trans(); mc::state(mc::hash(why + first_line(r.err)));
    if (!r.rejected()) { mc::fail("accepted:" + why + (r.sig ? ":" + site(r) : ""), "must be rejected: %s %s", r.how().c_str(), r.err.substr(0, 300).c_str()); return; }
    if (r.err.find("a.stl:") == string::npos || r.err.find("Error:") == string::npos) mc::fail("no-location:" + why, "message does not say where in a.stl: %s", r.err.substr(0, 300).c_str());
}
// the faces of the dumped 3D structure, as sets of oriented triangles
static bool oriented(const Mesh &m, const string &file) {
    spit(scr("a.stl"), file); spit(scr("in.scad"), "import(\"a.stl\");"); Res r = run({"-q", "in.scad", "--dump-csg3", "-o", "d.scad"}); if (!r.ok()) { mc::fail(site(r), "%s", r.err.substr(0, 300).c_str()); return false; }
    string s = slurp(scr("d.scad")); if (s.empty()) s = r.so; vector<double> nums; size_t p = s.find("points"), q = s.find("faces"); if (p == string::npos || q == string::npos) { mc::fail("dump", "no polyhedron in the dump: %s", s.substr(0, 300).c_str()); return false; }
    auto list = [&](size_t a, size_t b) { vector<double> v; while (a < b) { if (isdigit((unsigned char)s[a]) || (s[a] == '-' && a + 1 < b && isdigit((unsigned char)s[a+1])) || s[a] == '.') { char *e; v.push_back(strtod(s.c_str() + a, &e)); a = (size_t)(e - s.c_str()); } else a++; } return v; };
    auto pv = list(p, q), fv = list(q, s.find(';', q)); if (pv.size() % 3 || fv.size() != 3 * m.f.size()) { mc::fail("dump", "%zu coordinates, %zu indices for %zu facets", pv.size(), fv.size(), m.f.size()); return false; }
    double v = 0; std::map<std::pair<int,int>,int> ed; for (size_t i = 0; i < fv.size(); i += 3) { V c[3]; for (size_t k = 0; k < 3; k++) { size_t o = (size_t)fv[i + k] * 3; if (o + 2 >= pv.size()) { mc::fail("dump", "index out of range"); return false; } c[k] = {pv[o], pv[o+1], pv[o+2]}; ed[{(int)fv[i+k], (int)fv[i+(k+1)%3]}]++; } v += dot(c[0], cross(c[1], c[2])); mc::trans(); }
    for (auto &e : ed) if (e.second != 1 || !ed.count({e.first.second, e.first.first})) { mc::fail("orientation", "edge %d-%d of the polyhedron is not shared by two facets of opposite direction", e.first.first, e.first.second); return false; }
    if (fabs(-v - vol(m)) > 1e-5 * vol(m)) { mc::fail("orientation", "polyhedron has signed volume %g, expected %g (faces clockwise)", v / 6, -vol(m) / 6); return false; }
    return true;
}
void mc_main() {
    auto M = meshes(); const Mesh &T = M[0];
    { mc::phase("tetrahedron: every facet order, every first vertex, text and binary"); vector<int> o = {0,1,2,3}; do for (int r = 0; r < 81; r++) for (int b = 0; b < 2; b++) { if (!mc::thorough && (r % 3 != o[0] % 3) && (r / 3 % 3 != o[1] % 3)) continue; if (!mc::next()) continue; vector<Rec> rs; int k = r; for (int i : o) { rs.push_back({i, k % 3, false, 1}); k /= 3; } plain(T, b ? bin_of(T, rs) : text_of(toks(T, rs))); } while (std::next_permutation(o.begin(), o.end())); }
    { mc::phase("every set of flipped facets of the tetrahedron, every pair of any mesh"); for (auto &m : M) { vector<unsigned long> sets; size_t n = m.f.size(); if (n == 4) for (unsigned long s = 0; s < 16; s++) sets.push_back(s); else { sets.push_back(0); sets.push_back((1ul << n) - 1); for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) sets.push_back(1ul << i | 1ul << j); } for (auto s : sets) for (int k = 0; k < 4; k++) { if (!mc::next()) continue; auto rs = recs(m); for (size_t i = 0; i < n; i++) { rs[i].flip = s >> i & 1; rs[i].nrm = k == 2 ? 1e-3 : k == 3 ? 1e3 : 1; rs[i].rot = k; } string f = k & 1 ? bin_of(m, rs) : text_of(toks(m, rs)); if (plain(m, f)) oriented(m, f); } } }
    { mc::phase("normals of length zero"); for (auto &m : M) for (size_t i = 0; i <= m.f.size(); i++) for (int b = 0; b < 2; b++) { if (!mc::next()) continue; auto rs = recs(m); for (size_t k = 0; k < rs.size(); k++) if (i == m.f.size() || k == i) rs[k].nrm = 0; string f = b ? bin_of(m, rs) : text_of(toks(m, rs)); if (plain(m, f)) oriented(m, f); } }
    { mc::phase("every transposition and rotation of the facets of every mesh"); for (auto &m : M) { size_t n = m.f.size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int b = 0; b < 2; b++) { if (!mc::next()) continue; auto rs = recs(m); if (i < j) std::swap(rs[i], rs[j]); else std::rotate(rs.begin(), rs.begin() + (long)i, rs.end()), rs[j].rot = 1; plain(m, b ? bin_of(m, rs) : text_of(toks(m, rs))); } } }
    { mc::phase("every spelling of every number"); static const vector<vector<string>> sp = {{"0", "0.", ".0", "+0", "-0", "0.0", "0e0", "0e5", "-.0E-3", "00", "0.000000e+00", "+.0"}, {"2", "2.", "+2", "2.0", "2e0", "2E0", "2e+0", "2e-0", "2.e0", "20e-1", ".2e1", "+.2E+01", "0.2e1", "002", "2000000e-6", "0.0000002e7", "2.000000e+00", "1.9999999999999998"}}; auto t = toks(T, recs(T)); for (size_t i = 0; i < t.size(); i++) if (t[i] == "0" || t[i] == "2") for (auto &s : sp[t[i] == "2"]) if (mc::next()) { auto u = t; u[i] = s; plain(T, text_of(u)); } for (auto &s : sp[0]) for (auto &q : sp[1]) if (mc::next()) { auto u = t; for (auto &x : u) if (x == "0") x = s; else if (x == "2") x = q; plain(T, text_of(u)); } }
    { mc::phase("white space, names, line ends"); auto t = toks(T, recs(T)); static const char *ws[] = {" ", "\n", "\t", "\r\n", "   ", " \n\t ", "\n\n\n", "\r"};
      for (auto w : ws) { if (mc::next()) { string s = "solid x\n"; for (auto &x : t) s += x + w; plain(T, s + "endsolid x\n"); } for (size_t i = 0; i + 1 < t.size(); i++) if (mc::next()) { string s = "solid x\n"; for (size_t k = 0; k < t.size(); k++) s += t[k] + (k == i ? w : k % 5 ? " " : "\n"); plain(T, s + "endsolid x\n"); } }
      static const char *heads[] = {"solid\n", "solid \n", "solid x\n", "solid x", "solid facet normal\n", "solid\r\n", "solid x y z \r\n", "solid\t\n", "solid\n\n", "solid \n\n", "solid endsolid\n", "solid 17\n", "solid \"a'b;{}\n", "solid caf\xc3\xa9\n", "solid \xe9\xff\n", "solid\n  \n"};
      static const char *tails[] = {"\nendsolid x\n", "\nendsolid", "\nendsolid\n", "\nendsolid x", "\n endsolid x y\r\n", "\nendsolid facet\n", " endsolid\n\n\n", "\nendsolid \n \t\r\n", "\nendsolid caf\xc3\xa9\n", "\nendsolid 1.5.2\n", "\nendsolid \xff", "\nendsolid;\n"};
      for (auto h : heads) for (auto q : tails) if (mc::next()) { string hs = h; bool nl = hs.find('\n') != string::npos; plain(T, text_of(t, nl ? hs : hs + "\n", q)); } }
    { mc::phase("an empty solid"); for (const char *s : {"solid x\nendsolid x\n", "solid\nendsolid\n", "solid\nendsolid", "solid x\n\nendsolid x"}) if (mc::next()) { spit(scr("a.stl"), s); mc::desc_s(s); std::map<long,Layer> ls; Info inf; if (stl_run("import(\"a.stl\");", {}, ls, inf) && !ls.empty()) mc::fail("surplus", "layers from an empty file"); mc::state(mc::hash(string(s))); } if (mc::next()) { spit(scr("a.stl"), string(80, ' ') + string(4, '\0')); mc::desc_s("binary, 0 facets"); std::map<long,Layer> ls; Info inf; if (stl_run("import(\"a.stl\");", {}, ls, inf) && !ls.empty()) mc::fail("surplus", "layers from an empty file"); } }
    { mc::phase("binary: header bytes, attributes"); for (int c = 0; c < 256; c++) for (unsigned at : {0u, 1u, 0x100u, 0xffffu}) { if (c % 8 && at) continue; if (mc::next()) plain(M[1], bin_of(M[1], recs(M[1]), (char)c, at)); }
      for (const char *h : {"soli", "Solid x", "SOLID", " solid", "STLB ASM 220.40.00.65.8", "xsolid"}) if (mc::next()) { string s = bin_of(T, recs(T), 0); memcpy(&s[0], h, strlen(h)); plain(T, s); } }
    { mc::phase("transformations"); struct X { string t; Mat m; }; vector<X> xs = {{"", unit()}, {"translate([1,2,3])", m_translate(1,2,3)}, {"mirror([1,0,0])", m_mirror(1,0,0)}, {"mirror([1,1,1])", m_mirror(1,1,1)}, {"scale([2,1,.5])", m_scale(2,1,.5)}, {"scale([1,-1,1])", m_scale(1,-1,1)}, {"rotate([90,0,0])", m_rot(90,0,0)}, {"rotate([20,30,40])", m_rot(20,30,40)}, {"multmatrix([[1,.5,0,1],[0,1,.25,0],[0,0,1,-2],[0,0,0,1]])", {{{1,.5,0,1},{0,1,.25,0},{0,0,1,-2}}}}};
      for (auto &m : M) for (auto &a : xs) for (auto &b : xs) for (int k = 0; k < 2; k++) if (mc::next()) solid({&m, mul(a.m, b.m), a.t + b.t}, k ? bin_of(m, recs(m)) : text_of(toks(m, recs(m)))); }
    { mc::phase("every tetrahedron on a lattice"); int n = mc::thorough ? 27 : 18; vector<V> L; for (int i = 0; i < 27 && (int)L.size() < n; i++) L.push_back({(double)(i % 3), (double)(i / 3 % 3), (double)(i / 9)}); if (!mc::thorough) L.pop_back();
      for (size_t a = 0; a < L.size(); a++) for (size_t b = a + 1; b < L.size(); b++) for (size_t c = b + 1; c < L.size(); c++) for (size_t d = c + 1; d < L.size(); d++) { Mesh m{"lattice", {L[a], L[b], L[c], L[d]}, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}}; if (vol(m) == 0) continue; if (vol(m) < 0) std::swap(m.p[0], m.p[1]); if (!mc::next()) continue; solid({&m, unit(), ""}, (a + b + c + d) & 1 ? bin_of(m, recs(m)) : text_of(toks(m, recs(m))), 8, 3); } }
    { mc::phase("cuboids of every extent, coordinates of every magnitude"); static const double e[] = {0, 1e-3, .1, 1. / 3, 1, 2.5, 100, -1, -.007}; for (double x : e) for (double y : e) for (double z : e) for (double k : {1., .37}) { if (!mc::next()) continue; Mesh m = box("cuboid", x, y, z, x + k, y + 2 * k, z + 1.5 * k); solid({&m, unit(), ""}, text_of(toks(m, recs(m))), 8, 3); } }
    { mc::phase("every truncation"); auto t = toks(T, recs(T)); string s = text_of(t), b = bin_of(T, recs(T)), h = bin_of(M[1], recs(M[1])); size_t end = s.find("endsolid") + 8; for (size_t i = 0; i < end; i++) if (mc::next()) reject("truncated", s.substr(0, i), mc::strf("text cut after %zu bytes", i)); for (size_t i = 0; i < b.size(); i++) if (mc::next()) reject("truncated", b.substr(0, i), mc::strf("binary cut after %zu bytes", i)); for (size_t i = 84; i < h.size(); i += mc::thorough ? 1 : 25) if (mc::next()) reject("truncated", h.substr(0, i), mc::strf("binary box cut after %zu bytes", i)); for (unsigned c = 5; c < 256; c += 7) for (int k = 80; k < 84; k++) if (mc::next()) { string q = b; q[(size_t)k] = (char)c; reject("facet count", q, mc::strf("byte %d of the header is %u", k, c)); } }
    { mc::phase("every mutation of one token"); auto t = toks(T, recs(T)); t.insert(t.begin(), "solid x\n"); t.push_back("endsolid"); static const char *rep[] = {"facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid", "0", "-", ".", "+", "e", "1e", "1e+", "+-1", "-.e1", "1.5.2", "1-2", "1e999", "-1e999", "nan", "inf", "x", "\"", "Facet", "endfacets", "verte", "solid", "0x1", "1,", ";", "\x80", "\x01"};
      auto mk = [](const Toks &v) { string s; for (auto &x : v) s += x + " "; return s; }; auto isnum = [](const string &x) { return isdigit((unsigned char)x[0]) || ((x[0] == '-' || x[0] == '.') && x.size() > 1); };
      for (size_t i = 1; i < t.size(); i++) { bool num = isnum(t[i]); if (mc::next()) { auto u = t; u.erase(u.begin() + (long)i); reject("missing token", mk(u), mc::strf("token %zu '%s' deleted", i, t[i].c_str())); }
          if (mc::next() && i + 1 < t.size()) { auto u = t; u.insert(u.begin() + (long)i, t[i]); reject("surplus token", mk(u), mc::strf("token %zu '%s' doubled", i, t[i].c_str())); }
          if (i + 1 < t.size() && isnum(t[i]) != isnum(t[i + 1]) && mc::next()) { auto u = t; std::swap(u[i], u[i + 1]); reject("swapped tokens", mk(u), mc::strf("tokens %zu '%s' and '%s' swapped", i, t[i].c_str(), t[i + 1].c_str())); }
          for (auto r : rep) { if (t[i] == r || (num && !strcmp(r, "0"))) continue; if (!strcmp(r, "endsolid") && t[i] == "facet") continue; /* the rest is its name */ if (mc::next()) { auto u = t; u[i] = r; reject(num ? string("bad number ") + r : "wrong token", mk(u), mc::strf("token %zu '%s' replaced by '%s'", i, t[i].c_str(), r)); } } }
      for (auto s : {"x", "facet", "solid y\nendsolid y", "1", "endsolid", "\x80", "endfacet"}) for (const char *e : {"endsolid\n", "endsolid x\n", "endsolid x y\r\n"}) if (mc::next()) { auto u = t; u.pop_back(); reject("text after the end", mk(u) + e + s, mc::strf("'%s' after '%s'", s, e)); } }
    { mc::phase("binary: numbers that are none"); auto b = bin_of(T, recs(T)); for (size_t i = 0; i < 4; i++) for (size_t k = 3; k < 12; k++) for (unsigned w : {0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00001u, 0x7f800001u}) if (mc::next()) { auto q = b; for (size_t j = 0; j < 4; j++) q[84 + 50 * i + 4 * k + j] = (char)(w >> (8 * j)); reject("not finite", q, mc::strf("facet %zu, number %zu = %08x", i, k, w)); } }
    { mc::phase("files of no known kind"); for (const char *s : {"", "x", "soli", "Solid x\nendsolid x\n", " solid x\nendsolid x\n", "facet", "ply\n", "OFF\n4 4 6\n", "\n", "PK\x03\x04"}) if (mc::next()) reject("unknown format", s, s); }
    { mc::phase("own output read back"); static const char *src[] = {"cube(2);", "difference(){cube(3);translate([1,1,-1])cube([1,1,9]);}", "cylinder(2,1,.5,$fn=7);", "linear_extrude(1)polygon([[0,0],[3,0],[3,1],[1,1],[1,3],[0,3]]);"}; for (auto s : src) for (const char *opt : {"--stl-txt", "--stl-bin"}) for (double gap : {.01, .125}) { if (!mc::next()) continue; mc::desc_s(string(opt) + " " + s); spit(scr("o.scad"), s); Res r = run({"-q", "o.scad", "--step=.5", "--min=.25", "--max=2.5", "--layer-gap=" + nm(gap), "--stl-txt", "-o", "ref.stl"}); if (!r.ok()) { mc::fail(site(r), "%s", r.err.c_str()); continue; } r = run({"-q", "o.scad", "--step=.5", "--min=.25", "--max=2.5", "--layer-gap=" + nm(gap), opt, "-o", "a.stl"}); if (!r.ok()) { mc::fail(site(r), "%s", r.err.c_str()); continue; }
          Stl st = stl_text(slurp(scr("ref.stl"))); std::map<long,Layer> a, b; string why; if (!st.ok || !layers_of(st, a, why)) { mc::fail("own-output", "%s", why.c_str()); continue; } Info inf; if (!stl_run("import(\"a.stl\");", {"--step=.5", "--min=.3125", "--max=2.5"}, b, inf)) continue; if (a.size() != b.size()) { mc::fail("own-output", "%zu layers became %zu", a.size(), b.size()); continue; } auto ia = a.begin(); for (auto &l : b) { double x = area(ia->second.bot), y = area(l.second.bot); mc::trans(); if (fabs(x - y) > 1e-3 * x) mc::fail("own-output", "area %g became %g", x, y); ++ia; } mc::state(mc::hash(string(s) + opt)); } }
}
