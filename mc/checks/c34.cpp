// C34: the result is right however many there are of anything: children, nesting, vertices, paths,
// faces, facets, steps, layers, operands, files, characters.
#include "scad.hpp"
#include <map>
#include <set>
static string n(double x) { return mc::strf("%.17g", x); }
static string I(long i) { return std::to_string(i); }
static string rep(const string &s, long k) { string r; for (long i = 0; i < k; i++) r += s; return r; }
static string at(double x, double y, double z, const string &s) { return "translate([" + n(x) + "," + n(y) + "," + n(z) + "])" + s; }
struct Pt3 { double x, y; int w; };
// expectation of one layer: its area and the membership of points
struct Lay { double z, area; vector<Pt3> p; };
struct Case { string text; vector<string> args; vector<Lay> l; std::map<string,string> files; double tol = 1e-3; };
typedef std::function<Case(long)> Fam;
struct F { const char *name; long max; Fam f; };

static void one(const F &f, long k) {
    Case c = f.f(k); for (auto &x : c.files) spit(scr(x.first), x.second); string shown = c.text.substr(0, 300) + (c.text.size() > 300 ? "..." : "");
    mc::desc_s(string(f.name) + ", " + I(k) + ": hob3l" + jargs(c.args) + " on: " + shown); mc::beat();
    vector<string> a = c.args; bool heights = false; for (auto &x : a) heights |= x.compare(0, 5, "--min") == 0; if (!heights) { a.push_back("--min=" + n(c.l[0].z)); a.push_back("--step=" + n(c.l.size() > 1 ? c.l[1].z - c.l[0].z : 1)); a.push_back("--max=" + n(c.l.back().z + .0001)); }
    std::map<long,Layer> ls; Info inf; string t = std::move(c.text); if (!stl_run(t, a, ls, inf)) { mc::desc_s(""); return; } mc::trace(); size_t seen = 0;
    for (auto &w : c.l) { const Layer *q = nullptr; for (auto &l : ls) if (fabs(l.second.z0 - w.z) < 2e-4) q = &l.second; mc::trans();
        if (!q) { if (w.area > 0) { mc::fail(f.name, "no layer at z=%.9g", w.z); return; } continue; } seen++;
        for (int top = 0; top < 2; top++) { auto &T = top ? q->top : q->bot; double A = 0; for (auto &x : T) A += fabs((x[1].x - x[0].x) * (x[2].y - x[0].y) - (x[2].x - x[0].x) * (x[1].y - x[0].y)) / 2;
            if (fabs(A - w.area) > c.tol * (1 + w.area)) { mc::fail(f.name, "layer z=%.9g: area %.9g, not %.9g", w.z, A, w.area); return; }
            for (auto &p : w.p) { int m = 0; for (auto &x : T) m += tri_has(x, p.x + .0137, p.y + .0071); if (m != p.w) { mc::fail(f.name, "layer z=%.9g: point (%g,%g) covered %d times, not %d", w.z, p.x, p.y, m, p.w); return; } } }
        mc::state(mc::hash(mc::strf("%s %ld %g", f.name, k, w.area))); }
    if (seen != ls.size()) mc::fail(f.name, "%zu layers, only %zu of them expected", ls.size(), seen);
}
static double gon(double r, long k) { return (double)k / 2 * r * r * sin(2 * M_PI / (double)k); }
static vector<Pt3> row(long k, double d, double x0, int in, int between) { vector<Pt3> v; for (long i = 0; i < k; i++) { v.push_back({x0 + d * (double)i, .5, in}); if (i + 1 < k) v.push_back({x0 + d * ((double)i + .5), .5, between}); if (k > 70 && i > 20 && i < k - 20) i += k / 50; } return v; }
static vector<F> fams() {
    vector<F> v; auto U = [](double z, double a, vector<Pt3> p = {}) { return vector<Lay>{{z, a, p}}; };
    // children
    v.push_back({"cubes apart", 2100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(2 * i, 0, 0, "cube(1);"); return Case{s, {}, U(.5, k, row(k, 2, .5, 1, 0))}; }});
    v.push_back({"cubes side by side", 2100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(i, 0, 0, "cube(1);"); return Case{s, {}, U(.5, k, row(k, 1, .45, 1, 1))}; }});
    v.push_back({"overlapping cubes in a group", 1100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(i * .5, 0, 0, "cube(1);"); return Case{"group(){" + s + "}", {}, U(.5, (k + 1) * .5)}; }});
    v.push_back({"the same cube", 1100, [=](long k) { return Case{"union(){" + rep("cube(1);", k) + "}", {}, U(.5, 1, {{.3, .6, 1}})}; }});
    v.push_back({"holes", 1100, [=](long k) { string s = "cube([" + n(2 * k + 1) + ",1,1]);"; for (long i = 0; i < k; i++) s += at(2 * i + 1, .25, -1, "cube([1,.5,3]);"); return Case{"difference(){" + s + "}", {}, U(.5, 2 * k + 1 - k * .5, row(k, 2, 1.5, 0, 1))}; }});
    v.push_back({"holes in slices", 520, [=](long k) { string s = "cube([" + n(2 * k + 1) + ",1,1]);"; for (long i = 0; i < k; i++) s += at(2 * i + 1, -1, -1, "cube([1,3,3]);"); return Case{"difference(){" + s + "}", {}, U(.5, k + 1, row(k, 2, 1.5, 0, 1))}; }});
    v.push_back({"intersection of shifted cubes", 1100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(i / 64., i % 2 / 4., 0, "cube([20,1,1]);"); double w = 20 - (double)(k - 1) / 64, h = k > 1 ? .75 : 1; return Case{"intersection(){" + s + "}", {}, U(.5, w * h, {{(k - 1) / 64. + w / 2, .5, 1}, {(k - 1) / 64. - .03, .5, 0}, {20.005, .5, 0}})}; }});
    v.push_back({"stairs", mc::thorough ? 260 : 140, [=](long k) { string s; vector<Lay> l; for (long i = 0; i < k; i++) s += at(i, 0, 0, "cube([1,1," + n((double)(i + 1) * .25) + "]);"); for (long i = 0; i < k; i++) l.push_back({(double)i * .25 + .125, (double)(k - i), {{(double)i + .5, .5, 1}, {(double)i - .5, .5, 0}}}); return Case{s, {}, l}; }});
    v.push_back({"cubes on each other", 520, [=](long k) { string s; vector<Lay> l; for (long i = 0; i < k; i++) { s += at(0, 0, (double)i * .5, "cube([" + n(1 + (double)(i % 3)) + ",1,.5]);"); l.push_back({(double)i * .5 + .25, 1 + (double)(i % 3), {}}); } return Case{s, {}, l}; }});
    v.push_back({"layers", mc::thorough ? 5000 : 1100, [=](long k) { vector<Lay> l; for (long i = 0; i < k; i++) l.push_back({.0625 + (double)i * .125, 2, {}}); return Case{"cube([2,1," + n((double)k * .125) + "]);", {}, l}; }});
    v.push_back({"layers of a pyramid", 1100, [=](long k) { vector<Lay> l; double h = (double)k / 8; for (long i = 0; i < k; i++) { double z = .0625 + (double)i * .125, q = (1 - z / h) * 10; l.push_back({z, q * q * 2, {}}); } return Case{"cylinder(h=" + n(h) + ",r1=10,r2=0,$fn=4);", {}, l, {}, 2e-3}; }});
    v.push_back({"operands of every kind in turn", 300, [=](long k) { string s = "cube([" + n(k + 1) + ",1,1]);"; double a = (double)k + 1; for (long i = 0; i < k; i++) { if (i % 3 == 0) { s = "difference(){" + s + at(i + .25, -1, -1, "cube([.25,3,3]);") + "}"; a -= .25; } else if (i % 3 == 1) { s = "union(){" + s + at(i, .5, 0, "cube([.5,1,1]);") + "}"; a += .25; } else s = "intersection(){" + s + at(-1, -1, 0, "cube([" + n(k + 9) + ",9,9]);") + "}"; } return Case{s, {}, U(.5, a)}; }});
    v.push_back({"rings", 400, [=](long k) { string s; double a = 0; for (long i = 1; i <= k; i++) { string c = at(-i, -i, 0, "cube([" + n(2 * i) + "," + n(2 * i) + ",1]);"); s = i == 1 ? c : "difference(){" + c + s + "}"; a = 4. * (double)i * (double)i - a; } vector<Pt3> p; for (long i = 1; i <= k; i++) p.push_back({(double)i - .5, .25, (k - i) % 2 == 0}); return Case{s, {}, U(.5, a, p)}; }});
    v.push_back({"differences of differences", 400, [=](long k) { string s = "cube([" + n(k + 1) + ",1,1]);"; for (long i = 0; i < k; i++) s = "difference(){" + s + at(i, -1, -1, "cube([.5,3,3]);") + "}"; return Case{s, {}, U(.5, k * .5 + 1)}; }});
    // nesting
    for (string h : {"group()", "union()", "intersection()", "difference()", "{", "color([1,0,0])", "render()", "#", "translate([0,0,0])", "rotate(0)", "scale(1)"}) v.push_back({"", 1900, [=](long k) { bool mod = h == "#"; string o = mod ? "#" : h == "{" ? "{" : h + "{", c = mod ? "" : "}"; return Case{rep(o, k) + "cube([2,1,1]);" + rep(c, k), {}, U(.5, 2, {{1.5, .5, 1}, {-.5, .5, 0}})}; }}), v.back().name = strdup(("nesting of " + h).c_str());
    v.push_back({"nested translations", 1900, [=](long k) { return Case{rep("translate([.0625,0,-.03125])", k) + "cube([2,1,100]);", {}, U(.5, 2, {{(double)k / 16 + .01, .5, 1}, {(double)k / 16 - .04, .5, 0}})}; }});
    v.push_back({"nested rotations", 1900, [=](long k) { double a = fmod((double)k, 360) * M_PI / 180; auto r = [=](double x, double y, int w) { return Pt3{x * cos(a) - y * sin(a), x * sin(a) + y * cos(a), w}; }; return Case{rep("rotate(1)", k) + "cube([2,1,1]);", {}, U(.5, 2, {r(1.94, .05, 1), r(1.94, .94, 1), r(2.05, .5, 0), r(1, 1.05, 0)})}; }});
    v.push_back({"nested mirrors", 1900, [=](long k) { return Case{rep("mirror([1,0,0])", k) + "cube([2,1,1]);", {}, U(.5, 2, {{k % 2 ? -1. : 1., .5, 1}})}; }});
    v.push_back({"nested scales", 1900, [=](long k) { string s; for (long i = 0; i < k; i++) s += i % 2 ? "scale([2,1,.5])" : "scale([.5,1,2])"; return Case{s + "cube([4,1,4]);", {}, U(.5, k % 2 ? 2 : 4)}; }});
    // two dimensions
    v.push_back({"vertices of a regular polygon", 4100, [=](long k) { k += 2; string s; for (long i = 0; i < k; i++) s += (i ? "," : "") + ("[" + n(9 * cos(2 * M_PI * (double)i / (double)k)) + "," + n(9 * sin(2 * M_PI * (double)i / (double)k))) + "]"; return Case{"linear_extrude(1)polygon([" + s + "]);", {}, U(.5, gon(9, k), {{0, 0, 1}, {9.1, 0, 0}})}; }});
    v.push_back({"teeth of a comb", 1100, [=](long k) { string s = "[" + n(2 * k) + ",-1],[0,-1]"; for (long i = 0; i < k; i++) s += ",[" + n(2 * i) + ",1],[" + n(2 * i + 1) + ",1],[" + n(2 * i + 1) + ",0],[" + n(2 * i + 2) + ",0]"; return Case{"linear_extrude(1)polygon([" + s + "]);", {}, U(.5, 3 * k, row(k, 2, .5, 1, 0))}; }});
    v.push_back({"teeth of a saw", 1100, [=](long k) { string s = "[" + n(k) + ",-1],[0,-1]"; for (long i = 0; i < k; i++) s += ",[" + n(i) + ",1],[" + n(i + 1) + ",0]"; return Case{"linear_extrude(1)polygon([" + s + "]);", {}, U(.5, 1.5 * k)}; }});
    v.push_back({"paths of a polygon", 800, [=](long k) { string s, t; for (long i = 0; i < k; i++) { double x = (double)i * 2; s += (i ? ",[" : "[") + n(x) + ",0],[" + n(x + 1) + ",0],[" + n(x + 1) + ",1],[" + n(x) + ",1]"; t += (i ? ",[" : "[") + I(4 * i) + "," + I(4 * i + 1) + "," + I(4 * i + 2) + "," + I(4 * i + 3) + "]"; } return Case{"linear_extrude(1)polygon(points=[" + s + "],paths=[" + t + "]);", {}, U(.5, k, row(k, 2, .5, 1, 0))}; }});
    v.push_back({"nested paths of a polygon", 300, [=](long k) { string s, t; double a = 0; for (long i = 0; i < k; i++) { double x = (double)i + 1; a = 4 * x * x - a; s += (i ? ",[" : "[") + n(-x) + "," + n(-x) + "],[" + n(x) + "," + n(-x) + "],[" + n(x) + "," + n(x) + "],[" + n(-x) + "," + n(x) + "]"; t += (i ? ",[" : "[") + I(4 * i) + "," + I(4 * i + 1) + "," + I(4 * i + 2) + "," + I(4 * i + 3) + "]"; } return Case{"linear_extrude(1)polygon(points=[" + s + "],paths=[" + t + "]);", {}, U(.5, a)}; }});
    v.push_back({"unused points of a polygon", 2100, [=](long k) { string s; for (long i = 0; i < k; i++) s += ",[" + n(i + 5) + "," + n(i * i % 7) + "]"; return Case{"linear_extrude(1)polygon(points=[[0,0],[2,0],[0,1]" + s + "],paths=[[0,1,2]]);", {}, U(.5, 1)}; }});
    v.push_back({"2D operands", 1100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(2 * i, 0, 0, "square(1);"); return Case{"linear_extrude(1){" + s + "}", {}, U(.5, k, row(k, 2, .5, 1, 0))}; }});
    v.push_back({"2D holes", 600, [=](long k) { string s = "square([" + n(2 * k + 1) + ",1]);"; for (long i = 0; i < k; i++) s += at(2 * i + 1, .25, 0, "square([1,.5]);"); return Case{"linear_extrude(1){difference(){" + s + "}}", {}, U(.5, 2 * k + 1 - k * .5, row(k, 2, 1.5, 0, 1))}; }});
    v.push_back({"hull of squares", 1100, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(i, i % 2 * .5, 0, "square(1);"); double w = (double)k, a = k == 1 ? 1 : k == 2 ? 2.5 : k % 2 ? (w * 1.5 - .25 - .25) : (w * 1.5 - .5); return Case{"linear_extrude(1){hull(){" + s + "}}", {}, U(.5, a)}; }});
    v.push_back({"hull of a circle", 2100, [=](long k) { k += 2; string s; for (long i = 0; i < k; i++) s += "rotate(" + n(360. * (double)i / (double)k) + ")translate([8,0])square([1,.001],center=true);"; return Case{"linear_extrude(1){hull(){" + s + "}}", {}, U(.5, gon(8.5, k)), {}, 5e-2}; }});
    v.push_back({"projection", 500, [=](long k) { string s; for (long i = 0; i < k; i++) s += at(2 * i, 0, -.5, "cube(1);"); return Case{"linear_extrude(1){projection(cut=true){" + s + "}}", {}, U(.5, k, row(k, 2, .5, 1, 0))}; }});
    // fragments, steps, slices
    v.push_back({"$fn of a cylinder", 4100, [=](long k) { k += 2; return Case{"cylinder(h=1,r=9,$fn=" + I(k) + ");", {"--max-fn=5000"}, U(.5, gon(9, k), {{8.9, 0, 1}, {9.1, 0, 0}})}; }});
    v.push_back({"$fn of a circle", 4100, [=](long k) { k += 2; return Case{"linear_extrude(1)circle(9,$fn=" + I(k) + ");", {"--max-fn=5000"}, U(.5, gon(9, k), {{8.9, 0, 1}, {9.1, 0, 0}})}; }});
    v.push_back({"fragments of an exact sphere", 4100, [=](long k) { k += 2; return Case{"sphere(9);", {"--max-fn=" + I(k)}, U(0, gon(9, k), {{8.9, 0, 1}, {9.1, 0, 0}})}; }});
    v.push_back({"$fn of a sphere", 400, [=](long k) { k += 2; long q = (k + 1) / 2; double z = 9 * sin(180. / (double)q / 2 * (q % 2 ? 2 : 1) * M_PI / 180), r = 9 * cos(180. / (double)q / 2 * (q % 2 ? 0 : 1) * M_PI / 180); (void)z; return Case{"sphere(9,$fn=" + I(k) + ");", {"--max-fn=5000"}, U(.0, gon(r, k)), {}, 2e-3}; }});
    v.push_back({"$fn of rotate_extrude", 400, [=](long k) { k += 2; return Case{"rotate_extrude($fn=" + I(k) + ")translate([4,0])square([5,1]);", {"--max-fn=5000"}, U(.5, gon(9, k) - gon(4, k), {{-2, .1, 0}})}; }});
    v.push_back({"vertices of a rotated polygon", 400, [=](long k) { string s; for (long i = 0; i < k; i++) s += ",[" + n(9 - (double)(i % 2)) + "," + n((double)i + .5) + "]"; vector<Lay> l; for (long i = 0; i < k; i++) l.push_back({(double)i + .5 - .0001, gon(9 - (double)(i % 2) + (i % 2 ? .0001 : -.0001) * (i ? 1 : 0), 6), {}}); return Case{"rotate_extrude($fn=6)polygon([[0,0],[9,0]" + s + ",[0," + n((double)k - .5) + "]]);", {}, l, {}, 2e-3}; }});
    v.push_back({"slices of linear_extrude", 2100, [=](long k) { return Case{"linear_extrude(8,scale=3,slices=" + I(k) + ")square(2,center=true);", {}, {{1, 6.25, {}}, {3, 12.25, {}}, {5, 20.25, {}}, {7, 30.25, {}}}}; }});
    v.push_back({"slices of a twist", 2100, [=](long k) { k += 2; double z = 8. / (double)k * (double)(k / 2) + 1e-4; return Case{"linear_extrude(8,twist=90,slices=" + I(k) + ")square(2,center=true);", {}, {{z, 4, {}}}, {}, 5e-3}; }});
    v.push_back({"cone of many slices", 1100, [=](long k) { return Case{"linear_extrude(8,scale=0,slices=" + I(k) + ")square(8,center=true);", {}, {{1, 49, {}}, {3, 25, {}}, {5, 9, {}}, {7, 1, {}}}, {}, 2e-3}; }});
    // polyhedra and files
    auto prisms = [](long k, vector<V> &p, vector<vector<long>> &f) { for (long i = 0; i < k; i++) { double x = (double)i * 2; long b = (long)p.size(); for (V q : {V{x, 0, 0}, V{x + 1, 0, 0}, V{x, 1, 0}, V{x, 0, 1}, V{x + 1, 0, 1}, V{x, 1, 1}}) p.push_back(q); for (vector<long> q : vector<vector<long>>{{0, 1, 2}, {5, 4, 3}, {0, 3, 4, 1}, {1, 4, 5, 2}, {2, 5, 3, 0}}) { for (long &t : q) t += b; f.push_back(q); } } };
    v.push_back({"prisms of one polyhedron", 500, [=](long k) { vector<V> p; vector<vector<long>> f; prisms(k, p, f); string s = "polyhedron(points=["; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + v3(p[i].x, p[i].y, p[i].z); s += "],faces=["; for (size_t i = 0; i < f.size(); i++) { s += i ? ",[" : "["; for (size_t j = 0; j < f[i].size(); j++) s += (j ? "," : "") + I(f[i][j]); s += "]"; } vector<Pt3> q; for (long i = 0; i < k; i += 1 + k / 30) q.push_back({(double)i * 2 + .3, .3, 1}), q.push_back({(double)i * 2 + .8, .8, 0}); return Case{s + "]);", {}, U(.5, k * .5, q)}; }});
    v.push_back({"corners of a face", 2100, [=](long k) { k += 2; string s, lo, hi, w; for (long i = 0; i < k; i++) for (int t = 0; t < 2; t++) s += (i + t ? ",[" : "[") + n(9 * cos(2 * M_PI * (double)i / (double)k)) + "," + n(9 * sin(2 * M_PI * (double)i / (double)k)) + "," + I(t) + "]"; for (long i = 0; i < k; i++) { long j = (i + 1) % k; lo += (i ? "," : "") + I(2 * i); hi += (i ? "," : "") + I(2 * (k - 1 - i) + 1); w += ",[" + I(2 * i) + "," + I(2 * i + 1) + "," + I(2 * j + 1) + "," + I(2 * j) + "]"; } return Case{"polyhedron(points=[" + s + "],faces=[[" + lo + "],[" + hi + "]" + w + "]);", {}, U(.5, gon(9, k))}; }});
    for (int bin = 0; bin < 2; bin++) v.push_back({bin ? "facets of a binary STL file" : "facets of a text STL file", 500, [=](long k) { vector<V> p; vector<vector<long>> f; prisms(k, p, f); vector<std::array<V,3>> t; for (auto &q : f) for (size_t i = 2; i < q.size(); i++) t.push_back({p[(size_t)q[0]], p[(size_t)q[i]], p[(size_t)q[i - 1]]}); string s; Case c{"import(\"a.stl\");", {}, U(.5, k * .5)};
        if (!bin) { s = "solid a\n"; for (auto &q : t) { s += "facet normal 0 0 0\nouter loop\n"; for (auto &x : q) s += "vertex " + n(x.x) + " " + n(x.y) + " " + n(x.z) + "\n"; s += "endloop\nendfacet\n"; } s += "endsolid a\n"; }
        else { s = string(80, ' '); uint32_t m = (uint32_t)t.size(); s.append((char*)&m, 4); for (auto &q : t) { float z[12] = {0, 0, 0}; for (int i = 0; i < 3; i++) { z[3 + 3 * i] = (float)q[(size_t)i].x; z[4 + 3 * i] = (float)q[(size_t)i].y; z[5 + 3 * i] = (float)q[(size_t)i].z; } s.append((char*)z, 48); s.append(2, '\0'); } }
        c.files["a.stl"] = s; return c; }});
    auto svg = [U](const string &b, double a, double tol = 2e-3) { Case c{"linear_extrude(1){import(\"a.svg\");}", {}, U(.5, a)}; c.files["a.svg"] = "<svg width=\"90000mm\" height=\"100mm\" viewBox=\"0 0 90000 100\">" + b + "</svg>"; c.tol = tol; return c; };
    v.push_back({"shapes of an SVG file", 800, [=](long k) { string s; for (long i = 0; i < k; i++) s += "<rect x=\"" + I(2 * i) + "\" y=\"1\" width=\"1\" height=\"1\"/>"; return svg(s, k); }});
    v.push_back({"figures of an SVG path", 800, [=](long k) { string s; for (long i = 0; i < k; i++) s += "M" + I(2 * i) + " 1h1v1h-1z"; return svg("<path d=\"" + s + "\"/>", k); }});
    v.push_back({"commands of an SVG path", 1100, [=](long k) { string s = "M0 0"; for (long i = 0; i < k; i++) s += "v1h1v-1h1"; return svg("<path d=\"" + s + "v9H0z\"/>", (double)k * 2 * 9 - k); }});
    v.push_back({"points of an SVG polygon", 1100, [=](long k) { string s = "0,9"; for (long i = 0; i < k; i++) s += " " + I(2 * i) + ",0 " + I(2 * i + 1) + ",1"; return svg("<polygon points=\"" + s + " " + I(2 * k) + ",0 " + I(2 * k) + ",9\"/>", (double)k * 2 * 9 - k); }});
    v.push_back({"nested SVG groups", 900, [=](long k) { return svg(rep("<g transform=\"translate(1)\">", k) + "<rect width=\"3\" height=\"2\"/>" + rep("</g>", k), 6); }});
    v.push_back({"SVG transformations", 1100, [=](long k) { return svg("<rect transform=\"" + rep("translate(1,0)", k) + "\" width=\"3\" height=\"2\"/>", 6); }});
    v.push_back({"attributes of an SVG element", 1100, [=](long k) { string s; for (long i = 0; i < k; i++) s += " a" + I(i) + "=\"" + I(i) + "\""; return svg("<rect" + s + " width=\"3\" height=\"2\"/>", 6); }});
    v.push_back({"characters of SVG comments and text", 70000, [=](long k) { return svg("<!--" + string((size_t)k, 'c') + "--><desc>" + string((size_t)k, 't') + "</desc><rect width=\"3\" height=\"2\"/>", 6); }});
    // text
    v.push_back({"zeros in a number", 3000, [=](long k) { return Case{"cube([2." + rep("0", k) + "," + rep("0", k) + "1,1." + rep("0", k) + "e0]);", {}, U(.5, 2)}; }});
    v.push_back({"digits of a number", 300, [=](long k) { return Case{"cube([1." + rep("9", k) + ",." + rep("9", k) + ",1]);", {}, U(.5, (2 - pow(10, -(double)k)) * (1 - pow(10, -(double)k)))}; }});
    v.push_back({"spaces", 70000, [=](long k) { return Case{string((size_t)k, ' ') + "cube(" + string((size_t)k, ' ') + "2);" + string((size_t)k, ' '), {}, U(.5, 4)}; }});
    v.push_back({"empty lines", 70000, [=](long k) { return Case{string((size_t)k, '\n') + "cube(" + string((size_t)k, '\n') + "2);" + string((size_t)k, '\n'), {}, U(.5, 4)}; }});
    v.push_back({"characters of a comment", 70000, [=](long k) { return Case{"//" + string((size_t)k, '*') + "\ncube(/*" + string((size_t)k, '/') + "*/2);//" + string((size_t)k, 'x'), {}, U(.5, 4)}; }});
    v.push_back({"comments", 3000, [=](long k) { return Case{rep("//a\n/**/", k) + "cube(2);" + rep("/* */", k), {}, U(.5, 4)}; }});
    v.push_back({"empty statements", 3000, [=](long k) { return Case{rep(";", k) + "cube(2);" + rep("{}", k), {}, U(.5, 4)}; }});
    v.push_back({"characters of a file name", 200, [=](long k) { Case c{"include <" + string((size_t)k, 'f') + ">\ncube([1,1,1]);", {}, U(.5, 4)}; c.files[string((size_t)k, 'f')] = "cube([4,1,1]);"; return c; }});
    v.push_back({"characters of a colour name", 200, [=](long k) { return Case{"color(" + rep("  ", k) + "\"red\")cube(2);", {}, U(.5, 4)}; }});
    v.push_back({"ignored parameters", 800, [=](long k) { string s; for (long i = 0; i < k; i++) s += ",$a" + I(i) + "=" + I(i); return Case{"cube(2" + s + ");", {"--unknown-param=ignore"}, U(.5, 4)}; }});
    v.push_back({"repeated parameters", 800, [=](long k) { string s; for (long i = 0; i < k; i++) s += "size=" + I(i + 3) + ","; return Case{"cube(" + s + "size=2);", {}, U(.5, 4)}; }});
    v.push_back({"characters of an unknown parameter", 3000, [=](long k) { return Case{"cube(2," + string((size_t)k, 'p') + "=1);", {"--unknown-param=ignore"}, U(.5, 4)}; }});
    v.push_back({"characters of an unknown functor", 3000, [=](long k) { return Case{"cube(2);" + string((size_t)k, 'p') + "(1);", {"--unknown-functor=ignore"}, U(.5, 4)}; }});
    v.push_back({"ignored text", 3000, [=](long k) { return Case{"group(\"" + string((size_t)k, 's') + "\"){cube(2);}", {}, U(.5, 4)}; }});
    v.push_back({"nested arrays", 1500, [=](long k) { return Case{"group(" + rep("[", k) + rep("]", k) + "){cube(2);}", {}, U(.5, 4)}; }});
    v.push_back({"elements of an array", 3000, [=](long k) { return Case{"group([" + rep("1,", k) + "1]){cube(2);}", {}, U(.5, 4)}; }});
    v.push_back({"included files", 300, [=](long k) { Case c; for (long i = 0; i < k; i++) { c.text += "include <f" + I(i) + ">\n"; c.files["f" + I(i)] = at(2 * i, 0, 0, "cube(1);"); } c.l = U(.5, k, row(k, 2, .5, 1, 0)); return c; }});
    v.push_back({"imported files", 300, [=](long k) { Case c; for (long i = 0; i < k; i++) c.text += at(2 * i, 0, 0, "import(\"a.stl\");"); vector<V> p; vector<vector<long>> f; prisms(1, p, f); string s = "solid a\n"; for (auto &q : f) for (size_t i = 2; i < q.size(); i++) { s += "facet normal 0 0 0\nouter loop\n"; for (long x : {q[0], q[i], q[i - 1]}) s += "vertex " + n(p[(size_t)x].x) + " " + n(p[(size_t)x].y) + " " + n(p[(size_t)x].z) + "\n"; s += "endloop\nendfacet\n"; } c.files["a.stl"] = s + "endsolid a\n"; c.l = U(.5, k * .5); return c; }});
    return v;
}
void mc_main() {
    for (auto &f : fams()) { mc::phase(f.name); std::set<long> ks; for (long i = 1; i <= (mc::thorough ? 140 : 36); i++) ks.insert(i); for (long p = 64; p <= 1 << 17; p *= 2) for (long d = mc::thorough ? -3 : -1; d <= (mc::thorough ? 3 : 1); d++) ks.insert(p + d); for (long p : {100, 200, 300, 500, 800, 1000, 2000, 3000}) if (mc::thorough || p % 200 == 0) for (long d : {-1, 0, 1}) ks.insert(p + d);
        for (long k : ks) if (k <= f.max) { if (!mc::next()) continue; one(f, k); } }
}
