// C27: determinism, options without influence on the solid, identities of set algebra.
#include "../models.hpp"
typedef std::map<long,Layer> Layers;
static double perim(const vector<Tri> &v) { double p = 0; for (auto &t : v) for (int i = 0; i < 3; i++) p += hypot(t[(size_t)(i + 1) % 3].x - t[(size_t)i].x, t[(size_t)(i + 1) % 3].y - t[(size_t)i].y); return p; }
// the same solid up to the coordinate grid?
static bool same(const Layers &a, const Layers &b, string &why) {
    for (int dir = 0; dir < 2; dir++) {
        const Layers &x = dir ? b : a, &y = dir ? a : b;
        for (auto &l : x) {
            auto it = y.lower_bound(l.first - 300); if (it != y.end() && it->first > l.first + 300) it = y.end(); // heights are snapped to the grid, too
            if (it == y.end()) { double p = perim(l.second.bot); if (area(l.second.bot) <= p * 4e-4 + 1e-7) continue; why = mc::strf("layer z=%g only in %s", l.second.z0, dir ? "the second" : "the first"); return false; }
            if (dir == 0) { double p = std::max(perim(l.second.bot), perim(it->second.bot)), d = fabs(area(l.second.bot) - area(it->second.bot)); if (d > p * 4e-4 + 1e-7) { why = mc::strf("layer z=%g: areas %.9g and %.9g", l.second.z0, area(l.second.bot), area(it->second.bot)); return false; } if (fabs(l.second.z1 - it->second.z1) > 3e-4) { why = "layer thickness"; return false; } }
            for (auto &t : l.second.bot) { double ar = fabs(area2(t)), p = 0; for (int i = 0; i < 3; i++) p += hypot(t[(size_t)(i + 1) % 3].x - t[(size_t)i].x, t[(size_t)(i + 1) % 3].y - t[(size_t)i].y); if (ar < p * 2e-3) continue; double cx = (t[0].x + t[1].x + t[2].x) / 3, cy = (t[0].y + t[1].y + t[2].y) / 3; mc::trans(); if (!cover(it->second.bot, cx, cy)) { why = mc::strf("layer z=%g: (%g,%g) is filled only in %s", l.second.z0, cx, cy, dir ? "the second" : "the first"); return false; } }
        }
    }
    return true;
}
static bool get(const string &text, const vector<string> &args, string &bytes, Layers &ls, bool parse = true) {
    if (!text.empty()) spit(scr("in.scad"), text); vector<string> a = args; for (auto s : {"in.scad", "-o", "out.stl"}) a.push_back(s);
    unlink(scr("out.stl").c_str()); Res r = run(a); if (!r.ok()) { mc::fail(site(r), "hob3l%s: %s\n%s", jargs(args).c_str(), r.how().c_str(), r.err.substr(0, 500).c_str()); return false; }
    bytes = slurp(scr("out.stl")); ls.clear(); if (!parse) return true; Stl s = stl_text(bytes); string why; if (!s.ok || !layers_of(s, ls, why)) { mc::fail("stl", "%s%s", s.why.c_str(), why.c_str()); return false; }
    return true;
}
static void tune(const Model &m) {
    string A = m.text; mc::desc_s("hob3l" + jargs(m.args) + " on: " + A); mc::sample(A);
    string b0, b; Layers l0, l; if (!get(A, m.args, b0, l0)) return; mc::state(mc::hash(b0));
    auto with = [&](const vector<string> &x) { vector<string> a = m.args; a.insert(a.end(), x.begin(), x.end()); return a; };
    for (int p : {0, 1, 85, 255}) { PERTURB = p; bool ok = get("", m.args, b, l, false); PERTURB = 0; if (!ok) return; mc::trans(); if (b != b0) { mc::fail("not-deterministic", "the output differs when memory is laid out differently (pattern %d)", p); return; } }
    for (auto &x : vector<vector<string>>{{"-q"}, {"-v"}, {"-v", "-v", "-v"}, {"--stl-txt"}, {"--dump-stl"}, {"--no-auto-grid"}, {"--auto-grid-max"}, {"--grid=8192"}, {"--grid=2^13"}, {"--max-fn=100"}, {"--max-simultaneous=10"}, {"--max-simultaneous=1000"}, {"--opt-no-skip-empty=false"}, {"--opt-no-drop-collinear=false"}, {"--empty=error"}}) { if (!get("", with(x), b, l, false)) return; mc::trans(); if (b != b0) { mc::fail("bytes:" + x[0], "the output differs with %s", x[0].c_str()); return; } }
    { vector<string> a = with({"--dump-stl", "-q", "in.scad"}); Res r = run(a); if (!r.ok()) { mc::fail(site(r), "%s", r.err.substr(0, 300).c_str()); return; } mc::trans(); if (r.so != b0) { mc::fail("bytes:stdout", "the output on stdout differs from that in a file"); return; } }
    string why;
    for (auto &x : vector<vector<string>>{{"--max-simultaneous=2"}, {"--max-simultaneous=3"}, {"--max-simultaneous=4"}, {"--max-simultaneous=5"}, {"--max-simultaneous=7"}, {"--opt-no-skip-empty"}, {"--opt-no-drop-collinear"}, {"--opt-no-skip-empty", "--opt-no-drop-collinear", "--max-simultaneous=2"}, {"--grid=4096"}, {"--grid=2^16"}, {"--gran=1/16384"}, {"--grid=0"}, {"--eps=1/65536"}}) { if (!get("", with(x), b, l)) return; if (!same(l0, l, why)) { mc::fail("solid:" + x[0], "with%s: %s", jargs(x).c_str(), why.c_str()); return; } }
    // each layer alone
    size_t k = 0; for (auto &ly : l0) { if (k++ > 2) break; vector<string> a = m.args; a.push_back("--z=" + nm(ly.second.z0)); if (!get("", a, b, l)) return; Layers one; one[ly.first] = ly.second; if (!same(one, l, why)) { mc::fail("one-layer", "--z=%s alone: %s", nm(ly.second.z0).c_str(), why.c_str()); return; } }
}
static void ident(const char *name, const string &p, const string &q, const vector<string> &args) {
    mc::desc_s(string(name) + ":" + jargs(args) + "\n  " + p + "\n  " + q); mc::sample(q); string b, why; Layers x, y; if (!get(p, args, b, x) || !get(q, args, b, y)) return; mc::state(mc::hash(b));
    if (!same(x, y, why)) mc::fail(string("identity:") + name, "%s", why.c_str());
}
static string U(const string &x) { return "union(){" + x + "}"; } static string D(const string &x) { return "difference(){" + x + "}"; } static string I(const string &x) { return "intersection(){" + x + "}"; }
static void identities(const string &A, const string &B, const string &C, const vector<string> &a) {
    string Z = "translate([-9,-9,-9])cube(20);";
    struct { const char *n; string p, q; } id[] = {
        {"commute", U(A + B), U(B + A)}, {"commute", I(A + B), I(B + A)}, {"associate", U(A + U(B + C)), U(U(A + B) + C)}, {"associate", I(A + I(B + C)), I(I(A + B) + C)}, {"flatten", U(A + U(B + C)), A + B + C}, {"flatten", I(A + I(B + C)), I(C + A + B)},
        {"idempotent", U(A + A), A}, {"idempotent", I(A + A + A), A}, {"absorb", U(A + I(A + B)), A}, {"absorb", I(A + U(A + B)), A}, {"minus-self", D(A + A), ""}, {"minus", D(A + B + C), D(A + U(B + C))}, {"minus", D(A + B + C), D(D(A + B) + C)}, {"minus", D(A + B), D(A + I(B + A))}, {"minus", D(A + B + B), D(A + B)}, {"minus-twice", D(A + D(A + B)), I(A + B)},
        {"distribute", I(A + U(B + C)), U(I(A + B) + I(A + C))}, {"distribute", U(A + I(B + C)), I(U(A + B) + U(A + C))}, {"distribute", D(U(A + B) + C), U(D(A + C) + D(B + C))}, {"de-morgan", D(Z + U(A + B)), I(D(Z + A) + D(Z + B))}, {"de-morgan", D(Z + I(A + B)), U(D(Z + A) + D(Z + B))}, {"complement", U(I(A + B) + D(A + B)), A}, {"double", D(Z + D(Z + A)), A},
        {"group", "group(){" + U(A) + "}" + "group(){}", A}, {"xor", U(D(A + B) + D(B + A)), D(U(A + B) + I(A + B))}, {"identity-move", "translate([1,2,3])translate([-1,-2,-3]){" + A + "}", A}, {"identity-turn", "rotate([0,0,90])rotate([0,0,-90]){" + A + "}", A}, {"identity-mirror", "mirror([1,0,0])mirror([1,0,0]){" + A + "}", A}, {"distribute-move", "translate([.5,.25])" + U(A + B), U("translate([.5,.25]){" + A + "}translate([.5,.25]){" + B + "}")}, {"distribute-mirror", "mirror([1,1,0])" + D(A + B), D("mirror([1,1,0]){" + A + "}mirror([1,1,0]){" + B + "}")} };
    for (auto &x : id) if (mc::next()) ident(x.n, x.p, x.q, a);
}
void mc_main() {
    bool T = mc::thorough; auto L = model_leaves();
    mc::phase("tuning options: pixel images"); models_pixels(tune, 3, T ? 3 : 2); models_pixels(tune, T ? 3 : 2, 2, "rotate(30)");
    mc::phase("tuning options: voxel images"); { size_t k = 0; models_voxels([&](const Model &m) { if (T || k++ % 4 == 0) tune(m); }); }
    mc::phase("tuning options: trees"); { size_t k = 0; models_trees([&](const Model &m) { if (T || k++ % 3 == 0) tune(m); }, false); }
    mc::phase("tuning options: round bodies"); { size_t k = 0; models_round([&](const Model &m) { if (T || k++ % 4 == 0) tune(m); }); }
    mc::phase("tuning options: many operands");
    for (int n : {9, 10, 11, 12, 19, 20, 21, 25, 33}) for (int k = 0; k < 4; k++) for (int v = 0; v < 3; v++) { if (!mc::next()) continue; string t; for (int i = 0; i < n; i++) { int j = v == 0 ? i : v == 1 ? (i * 7) % n : n - 1 - i; string c = k == 2 ? mc::strf("translate([%g,%g])cube([9,8,1]);", j * .1, (j * j % 5) * .2) : mc::strf("translate([%d,%d])cube([1.5,1.25,1]);", j % 6, j / 6); if (i && k == 3 && i % 2) c = "difference(){" + c + mc::strf("translate([%d,%d])cube([.5,.75,1]);}", j % 6, j / 6); t += c; } if (k == 1) t = "difference(){translate([-1,-1])cube([9,9,1]);" + t + "}"; if (k == 2) t = "intersection(){" + t + "}"; tune({t, {"--step=1"}}); }
    mc::phase("identities of set algebra");
    for (size_t i = 0; i + 1 < L.size(); i++) for (size_t j = 0; j + 1 < L.size(); j++) for (size_t k = 0; k + 1 < L.size(); k++) { if (!T && (i * 5 + j * 3 + k) % 6) continue; identities(L[i], L[j], L[k], {"--step=.5", "--min=-3.3125", "--max=3.4"}); }
    mc::phase("identities with compound operands and small batches");
    vector<string> cs = {U(L[0] + L[1]), D(L[0] + L[1]), I(L[0] + L[2] + L[4]), D(L[5] + L[3]), U(L[4] + D(L[1] + L[3]))};
    for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < cs.size(); j++) { if (i == j) continue; for (auto ms : {"10", "2", "3"}) { if (!T && (i + j) % 3 != (size_t)(ms[0] == '1' ? 0 : ms[0] - '1')) continue; identities(cs[i], cs[j], cs[(i + j) % 5], {"--step=.5", "--min=-3.3125", "--max=3.4", string("--max-simultaneous=") + ms}); } }
}
