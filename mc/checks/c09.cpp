// C09: every STL written is a closed, consistently oriented surface.
#include "../models.hpp"
typedef std::array<double,3> P3;
static const char *PRE = "";
static bool closed(const Stl &s, double step, double gap) {
    struct LY { std::map<std::pair<P3,P3>,long> e; double vol = 0, lo = 1e99, hi = -1e99, area = 0; };
    auto bad = [&](const char *k, const string &m) { mc::fail(string(PRE) + k, "%s", m.c_str()); return false; };
    // layers by height: the walls connect bottom and top
    std::map<double,LY> ly; std::set<double> bots; for (auto &f : s.f) for (auto &v : f.v) bots.insert(v[2]);
    vector<double> zs(bots.begin(), bots.end()); if (zs.size() % 2) return bad("odd-heights", mc::strf("%zu different heights", zs.size()));
    std::map<double,double> base; for (size_t i = 0; i < zs.size(); i += 2) { base[zs[i]] = zs[i]; base[zs[i + 1]] = zs[i]; if (fabs(zs[i + 1] - zs[i] - (step - gap)) > 3e-6) return bad("thickness", mc::strf("layer from %g to %g", zs[i], zs[i + 1])); if (i + 2 < zs.size() && zs[i + 2] <= zs[i + 1]) return bad("layers-touch", mc::strf("at %g", zs[i + 2])); }
    for (auto &f : s.f) {
        mc::trans(); P3 v[3]; for (int i = 0; i < 3; i++) v[i] = {f.v[i][0], f.v[i][1], f.v[i][2]};
        double b = base[v[0][2]]; for (int i = 1; i < 3; i++) if (base[v[i][2]] != b) return bad("layers-joined", "a facet joins two layers");
        LY &l = ly[b];
        for (int i = 0; i < 3; i++) l.e[{v[i], v[(i + 1) % 3]}]++;
        double a[3], c[3], n[3]; for (int i = 0; i < 3; i++) a[i] = v[1][i] - v[0][i], c[i] = v[2][i] - v[0][i]; n[0] = a[1]*c[2]-a[2]*c[1]; n[1] = a[2]*c[0]-a[0]*c[2]; n[2] = a[0]*c[1]-a[1]*c[0];
        double len = sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); if (!(len > 0)) return bad("degenerate", mc::strf("facet at (%g,%g,%g)", v[0][0], v[0][1], v[0][2]));
        double nl = sqrt(f.n[0]*f.n[0]+f.n[1]*f.n[1]+f.n[2]*f.n[2]); if (fabs(nl - 1) > 1e-5) return bad("normal-length", mc::strf("normal %g %g %g", f.n[0], f.n[1], f.n[2]));
        double d = (n[0]*f.n[0]+n[1]*f.n[1]+n[2]*f.n[2]) / len; if (!(d > 1 - 1e-4)) return bad("normal", mc::strf("normal (%g,%g,%g), vertices say (%g,%g,%g)", f.n[0], f.n[1], f.n[2], n[0]/len, n[1]/len, n[2]/len));
        l.vol += (v[0][0]*(v[1][1]*v[2][2]-v[1][2]*v[2][1]) - v[0][1]*(v[1][0]*v[2][2]-v[1][2]*v[2][0]) + v[0][2]*(v[1][0]*v[2][1]-v[1][1]*v[2][0])) / 6;
        l.lo = std::min({l.lo, v[0][2], v[1][2], v[2][2]}); l.hi = std::max({l.hi, v[0][2], v[1][2], v[2][2]}); if (f.n[2] < -.5) l.area += len / 2;
    }
    for (auto &q : ly) { for (auto &e : q.second.e) { mc::trans(); if (e.first.first == e.first.second) return bad("degenerate", "edge of no length"); auto r = q.second.e.find({e.first.second, e.first.first}); if (r == q.second.e.end() || r->second != e.second) { auto &x = e.first.first, &y = e.first.second; return bad("open-edge", mc::strf("edge (%.9g,%.9g,%.9g)-(%.9g,%.9g,%.9g) occurs %ld times, its reverse %ld times", x[0], x[1], x[2], y[0], y[1], y[2], e.second, r == q.second.e.end() ? 0 : r->second)); } }
        double want = q.second.area * (q.second.hi - q.second.lo); if (!(q.second.vol > 0) || fabs(q.second.vol - want) > 1e-4 * std::max(1., want)) return bad("volume", mc::strf("layer at %g: volume %g, area times thickness %g", q.first, q.second.vol, want)); }
    mc::state(mc::hash(s.f.empty() ? nullptr : &s.f[0], s.f.size() * sizeof(Facet)));
    return true;
}
static void go(const Model &m, const vector<string> &extra) {
    vector<string> a = m.args; double step = .2, gap = .01; a.insert(a.end(), extra.begin(), extra.end()); for (auto &x : a) { sscanf(x.c_str(), "--step=%lf", &step); sscanf(x.c_str(), "--layer-gap=%lf", &gap); }
    mc::desc_s("hob3l" + jargs(a) + " on: " + m.text); mc::sample(m.text); spit(scr("in.scad"), m.text);
    for (int bin = 0; bin < 2; bin++) { PRE = bin ? "binary:" : "text:"; string o = bin ? "out.stlb" : "out.stl"; auto b = a; b.insert(b.end(), {"in.scad", "-o", o}); Res r = run(b); if (!r.ok()) { mc::fail(PRE + site(r), "%s %s", r.how().c_str(), r.err.c_str()); return; }
        Stl s = bin ? stl_bin(slurp(scr(o))) : stl_text(slurp(scr(o))); if (!s.ok) { mc::fail(string(PRE) + "syntax", "%s", s.why.c_str()); return; } if (!closed(s, step, gap)) return; }
}
void mc_main() {
    bool T = mc::thorough; auto plain = [&](const Model &m) { go(m, {}); };
    { mc::phase("pixel images"); models_pixels(plain, 3, 3); if (T) models_pixels(plain, 4, 3); }
    { mc::phase("rotated pixel images"); models_pixels(plain, 3, 3, "rotate(17)"); models_pixels(plain, 3, 3, "scale([.01,.037])rotate(40)"); if (T) { models_pixels(plain, 4, 3, "rotate(33.3)"); models_pixels(plain, 3, 3, "translate([1000,-500])rotate(1)"); } }
    { mc::phase("voxel images"); models_voxels(plain); }
    { mc::phase("boolean trees"); models_trees(plain, T); }
    { mc::phase("polygons"); models_polygons(plain, T); }
    { mc::phase("round bodies"); models_round(plain); }
    { mc::phase("fine details far from the origin"); for (int dir = 0; dir < 8; dir++) for (int k = 0; k <= 16; k++) for (int e = 0; e <= 14; e += T ? 1 : 2) for (int form = 0; form < 3; form++) for (int anc = 0; anc < 3; anc++) { if (!mc::next()) continue;
        static const int dx[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[] = {0, 1, 1, 1, 0, -1, -1, -1}; double w = ldexp(1, -e), x = dx[dir] * ldexp(1, k), y = dy[dir] * ldexp(1, k); auto pt = [&](double a, double b) { return mc::strf("[%.17g,%.17g]", x + a * w, y + b * w); };
        // a comb, a staircase, a triangle with a hole, of a size of about 2^-e
        string t = "linear_extrude(1)"; if (form == 0) t += "polygon([" + pt(0,0) + "," + pt(7,0) + "," + pt(7,3) + "," + pt(6,3) + "," + pt(6,1) + "," + pt(5,1) + "," + pt(5,3) + "," + pt(4,3) + "," + pt(4,1) + "," + pt(3,1) + "," + pt(3,3) + "," + pt(0,2.5) + "]);";
        else if (form == 1) t += "polygon([" + pt(0,0) + "," + pt(1,0) + "," + pt(1,1) + "," + pt(2,1) + "," + pt(2,2) + "," + pt(3,2) + "," + pt(3,3) + "," + pt(4,3) + "," + pt(4,4) + "," + pt(-1,4.5) + "]);";
        else t += "difference(){polygon([" + pt(0,0) + "," + pt(9,1) + "," + pt(2,7) + "]);polygon([" + pt(2,2) + "," + pt(4,2) + "," + pt(3,4) + "]);}";
        if (anc) t += "translate([" + mc::strf("%.17g,%.17g", anc == 1 || !dx[dir] ? 0 : -dx[dir] * 10., anc == 1 || !dy[dir] ? 0 : -dy[dir] * 10.) + "])translate([-.5,-.5])cube(1);";
        go({t, {"--step=1"}}, {}); if (mc::failed()) continue;
        Stl a = stl_text(slurp(scr("out.stl"))), b = stl_bin(slurp(scr("out.stlb"))); if (a.f.size() != b.f.size()) { mc::fail("binary-differs", "%zu facets in the text, %zu in the binary file", a.f.size(), b.f.size()); continue; }
        for (size_t i = 0; i < a.f.size() && !mc::failed(); i++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) if ((float)a.f[i].v[j][c] != b.f[i].v[j][c]) { mc::fail("binary-inexact", "%.17g in the text file, %.17g in the binary file", a.f[i].v[j][c], b.f[i].v[j][c]); j = 3; break; } } }
    { mc::phase("options"); for (vector<string> o : vector<vector<string>>{{"--no-path"}, {"--opt-no-drop-collinear"}, {"--opt-no-skip-empty"}, {"--layer-gap=.05"}, {"--max-simultaneous=2"}, {"--grid=16"}, {"--grid=100"}, {"--grid=2^20", "--auto-grid-max"}, {"--grid=0"}, {"--layer-gap=0.001", "--no-path"}, {"--no-auto-grid"}}) { auto f = [&](const Model &m) { go(m, o); }; models_voxels(f); models_round(f); if (T) { models_pixels(f, 3, 3, "rotate(17)"); models_trees(f, false); } else models_pixels(f, 3, 2, "rotate(17)"); } }
}
