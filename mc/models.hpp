// Families of models that several checks share.
#pragma once
#include "scad.hpp"
#include "checks/bodies.hpp"
struct Model { string text; vector<string> args; };
typedef std::function<void(const Model &)> ModelFn;
static string pix(int m, int w, int h) { string t; for (int i = 0; i < w * h; i++) if (m >> i & 1) t += mc::strf("translate([%d,%d])square(1);", i % w, i / w); return t; }
static void models_pixels(const ModelFn &f, int w, int h, const char *pre = "") { for (int m = 1; m < 1 << (w * h); m++) if (mc::next()) f({"linear_extrude(1){" + string(pre) + "{" + pix(m, w, h) + "}}", {"--step=1"}}); }
static void models_voxels(const ModelFn &f) { for (int m = 1; m < 256; m++) if (mc::next()) { string t; for (int i = 0; i < 8; i++) if (m >> i & 1) t += mc::strf("translate([%d,%d,%d])cube(1);", i & 1, i >> 1 & 1, i >> 2); f({t, {"--step=.5"}}); } }
static vector<string> model_leaves() { return {"cube(2);", "translate([1,1,0])cube([2,2,1]);", "translate([2,0,0])cube([1,2,2]);", "translate([0,0,1])cylinder(1.5,1,.5,$fn=6);", "sphere(1.4,$fn=7);", "linear_extrude(1.5,twist=40)difference(){square(3,true);square(1,true);}", "group(){}"}; }
static string tree_text(int k, const vector<string> &c) { static const char *o[] = {"union", "difference", "intersection"}; string s = string(o[k]) + "(){"; for (auto &x : c) s += x; return s + "}"; }
static void models_trees(const ModelFn &f, bool deep) {
    auto L = model_leaves(); vector<string> two; for (int k = 0; k < 3; k++) for (auto &a : L) for (auto &b : L) two.push_back(tree_text(k, {a, b}));
    for (auto &t : two) if (mc::next()) f({t, {"--step=.5"}});
    for (int k = 0; k < 3; k++) for (size_t i = 0; i < two.size(); i++) for (size_t j = 0; j < L.size(); j++) { if (!deep && (i + j) % 3) continue; if (mc::next()) f({tree_text(k, {two[i], L[j]}), {"--step=.5"}}); if (mc::next()) f({tree_text(k, {L[j], two[i]}), {"--step=.5"}}); }
}
static void models_polygons(const ModelFn &f, bool all) {
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int c = 0; c < 9; c++) for (int d = 0; d < 9; d++) { if (a == b || a == c || a == d || b == c || b == d || c == d) continue; if (!all && (a > b || a > c || a > d)) continue; if (!mc::next()) continue; string t; for (int i : {a, b, c, d}) t += mc::strf("%s[%d,%d]", t.empty() ? "" : ",", i % 3, i / 3); f({"linear_extrude(1)polygon([" + t + "]);", {"--step=1"}}); }
}
static void models_round(const ModelFn &f) {
    static const char *tr[] = {"", "rotate([0,90,0])", "rotate([30,45,60])", "mirror([0,0,1])", "scale([2,1,.5])"};
    for (auto t : tr) for (int fn : {3, 4, 5, 8, 13, 40, 100, 0}) for (int k = 0; k < 6; k++) { if (!mc::next()) continue; string n = std::to_string(fn); string b = k == 0 ? "cylinder(2,1,2,$fn=" + n + ");" : k == 1 ? "sphere(2,$fn=" + n + ");" : k == 2 ? "rotate_extrude($fn=" + n + ")translate([1,0])square([2,1]);" : k == 3 ? "rotate_extrude(angle=200,$fn=" + n + ")polygon([[0,0],[3,1],[0,2]]);" : k == 4 ? "difference(){sphere(2,$fn=" + n + ");cylinder(9,1,1,true,$fn=" + n + ");}" : "linear_extrude(2,twist=90,slices=3,scale=.5)difference(){circle(3,$fn=" + n + ");translate([1,0])circle(1,$fn=" + n + ");}"; f({t + b, {"--step=.6"}}); }
}
