// C35: the dump of the 3D model (--dump-csg3) is a program of the same solid.
#include "outline.hpp"
#include "../models.hpp"
// what the program prints but does not read: the exclusive or of the paths of an extrusion; two parameters of sphere; the
// modifier '!', which it puts on every part of the object
static string plain_xor(const string &d, size_t &p, bool one) { // statements from p to the closing brace (or exactly one)
    string r; while (p < d.size() && d[p] != '}') {
        size_t q = d.find_first_of(";{", p), c = p; while (c < d.size() && isspace((unsigned char)d[c])) c++;
        if (c >= d.size()) { p = c; break; } if (d[c] == '}') { p = c; break; } if (d[c] == '/' && d[c + 1] == '/') { p = d.find('\n', c); continue; }
        if (q == string::npos) { r += d.substr(p); p = d.size(); break; }
        if (d[q] == ';') { r += d.substr(c, q + 1 - c) + "\n"; p = q + 1; } else {
            string head = d.substr(c, q - c); p = q + 1;
            if (head.find("hob3l_xor") == string::npos) { r += head + "{\n" + plain_xor(d, p, false) + "}\n"; p++; }
            else { string x; for (;;) { string y = plain_xor(d, p, true); if (y.empty()) break; x = x.empty() ? y : "union(){difference(){" + x + y + "}difference(){" + y + x + "}}\n"; } r += x; p++; }
        }
        if (one) return r;
    }
    return r;
}
static string dumped(string d) {
    for (size_t p; (p = d.find('!')) != string::npos; ) d.erase(p, 1);
    for (size_t p; (p = d.find("center=true,$fn=")) != string::npos && d.rfind("sphere(", p) != string::npos && d.rfind("sphere(", p) + 14 > p; ) d.erase(p, 12);
    size_t p = 0; return plain_xor(d, p, false);
}
static bool sections(const string &text, double lo, double hi, int nz, vector<Sec> &s, const char *pre) {
    double st = (hi - lo) / nz, z0 = lo + st * .37; std::map<long,Layer> ls; Info inf; if (!stl_run(text, {"--min=" + nm(z0), "--step=" + nm(st), "--max=" + nm(hi), "--layer-gap=0"}, ls, inf, nullptr, pre)) return false;
    s.assign((size_t)nz, {}); for (auto &l : ls) { long i = lround((l.second.z0 - z0) / st); if (i < 0 || i >= nz) { mc::fail("height", "layer at z=%.9g", l.second.z0); return false; } Sec &q = s[(size_t)i]; string why; outline(l.second, q.o, q.area, why); }
    return true;
}
static void one(const string &cls, const string &text, double lo, double hi, double tol, int nz = 5, bool gate = true) {
    if (gate && !mc::next()) return; mc::desc_s("hob3l --dump-csg3 on: " + text); spit(scr("in.scad"), text); Res r = run({"--dump-csg3", "in.scad"}); mc::trace(); if (!r.ok()) { mc::fail(cls + ":" + site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 500).c_str()); return; }
    string d = dumped(r.so); vector<Sec> a, b; if (!sections(text, lo, hi, nz, a, "")) return; mc::desc_s("sections of " + d.substr(0, 1500) + "\ndumped from " + text); if (!sections(d, lo, hi, nz, b, "read-back:")) return; mc::trace();
    for (size_t i = 0; i < a.size(); i++) if (!same_section(a[i], b[i], tol, cls, i)) return;
    // the dump of the dump describes the same faces
    spit(scr("d.scad"), d); Res q = run({"--dump-csg3", "d.scad"}); if (!q.ok()) { mc::fail(cls + ":again:" + site(q), "%s\n%s", q.how().c_str(), q.err.substr(0, 500).c_str()); return; }
    auto cnt = [](const string &s, const char *w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != string::npos; p++) n++; return n; };
    if (!cnt(d, "sphere(")) for (const char *w : {"polyhedron(", "intersection()", "#"}) if (cnt(dumped(q.so), w) != cnt(d, w)) { mc::fail(cls + ":again", "%d times '%s' in the dump of the dump, not %d\n%s", cnt(dumped(q.so), w), w, cnt(d, w), q.so.substr(0, 1000).c_str()); return; }
}
void mc_main() {
    struct B { const char *cls, *t; double lo, hi, tol; };
    vector<B> bs = {{"cube", "cube([2,3,1]);", 0, 1, 0}, {"cube", "cube([2,3,1],center=true);", -.5, .5, 0}, {"exact sphere", "sphere(1.5);", -1.5, 1.5, .01}, {"sphere", "sphere(1.5,$fn=7);", -1.3, 1.3, 0}, {"cylinder", "cylinder(2,1,1,$fn=9);", 0, 2, 0}, {"cone", "cylinder(h=2,r1=1.5,r2=0,$fn=6);", 0, 2, 0}, {"cone", "cylinder(h=2,r1=0,r2=1.5,$fn=5);", 0, 2, 0}, {"frustum", "cylinder(h=2,d1=1,d2=3,center=true);", -1, 1, 0},
        {"polyhedron", "polyhedron(points=[[0,0,0],[3,0,.5],[0,2,.25],[.5,.5,2]],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);", 0, 2, 0}, {"polyhedron", "polyhedron(points=[[9,9,9],[0,0,0],[3,0,.5],[0,2,.25],[.5,.5,2]],faces=[[1,2,3],[1,4,2],[2,4,3],[3,4,1]]);", 0, 2, 0},
        {"extrusion", "linear_extrude(2){polygon([[0,0],[3,0],[1,1],[0,3]]);}", 0, 2, 0}, {"holes", "linear_extrude(2){polygon(points=[[0,0],[3,0],[3,2],[0,2],[1,.5],[2,.5],[2,1.5],[1,1.5]],paths=[[0,1,2,3],[4,5,6,7]]);}", 0, 2, 0}, {"twisted", "linear_extrude(2,twist=60,slices=4,scale=[.5,.75]){translate([.5,0])square([1,2]);}", 0, 2, 0}, {"pyramid", "linear_extrude(height=2,center=true,scale=0){square(2,center=true);}", -1, 1, 0},
        {"ring", "rotate_extrude($fn=8){translate([2,0])circle(.75,$fn=6);}", -.64, .64, 0}, {"arc", "rotate_extrude(angle=100,$fn=12){translate([1,-1])square([1,2]);}", -1, 1, 0}, {"hull", "linear_extrude(1){hull(){circle(1,$fn=5);translate([3,1])square(1);}}", 0, 1, 0}, {"projection", "linear_extrude(1){projection(cut=true){translate([0,0,-.3])sphere(1.5,$fn=9);}}", 0, 1, 0}, {"2D union", "linear_extrude(2){square(2);translate([1,1])square(2);translate([5,0])circle(1,$fn=7);}", 0, 2, 0}};
    struct X { const char *h; double lo, hi; }; vector<X> xs = {{"", 0, 0}, {"translate([7,-5,0])", 0, 0}, {"rotate([45,0,0])", -2, 2}, {"rotate([30,40,50])", -1.5, 1.5}, {"rotate(a=70,v=[1,2,3])", -1, 1.5}, {"mirror([1,0,0])", 0, 0}, {"mirror([1,2,2])", -2, 1}, {"mirror([0,0,1])", -1.2, 1}, {"rotate([180,0,0])", -1.2, 1}, {"scale([2,.5,1])", 0, 0}, {"scale([1,2,-3])", -3, 2.5}, {"rotate([0,60,0])scale([.5,1,2])", -2, 2}, {"multmatrix([[1,.5,0,1],[0,1,.25,0],[0,0,1,0]])", 0, 0}};
    mc::phase("bodies under transformations"); for (auto &b : bs) for (auto &x : xs) one(b.cls, string(x.h) + b.t, x.lo || x.hi ? x.lo : b.lo, x.lo || x.hi ? x.hi : b.hi, .01 + b.tol);
    mc::phase("operations"); const char *L[] = {"cube(2);", "translate([1,1,.5])cube([2,2,1]);", "translate([.5,.5,1])sphere(1.25);", "translate([1.5,0,0])cylinder(2,1,.5,$fn=7);", "rotate([20,30,0])cube([1,2,1]);"}, *O[] = {"union()", "difference()", "intersection()", "group()"};
    for (auto o : O) for (auto a : L) for (auto b : L) { one("operation", string(o) + "{" + a + b + "}", -1, 2.5, .02); for (auto c : L) for (auto q : O) { one("operation", string(q) + "{" + o + "{" + a + b + "}" + c + "}", -1, 2.5, .02); one("operation", string(q) + "{" + c + o + "{" + a + b + "}}", -1, 2.5, .02); } }
    mc::phase("modifiers, colours and empty operands"); for (const char *m : {"#", "color([.5,.25,1])", "color(\"red\",.5)", "%", "*", "!"}) for (auto o : O) for (auto a : L) for (int w = 0; w < 4; w++) { string x = w == 1 || w == 3 ? m : "", y = w == 2 || w == 3 ? m : "", z = w == 0 ? m : ""; if (w == 3 && *m == '!') continue; one("modifier", z + o + "{" + x + a + y + L[1] + "}", -1, 2.5, .02); }
    for (const char *t : {"", "group(){}", "cube(1);union(){}", "difference(){cube(2);group(){}}", "intersection(){cube(2);group(){}}", "intersection(){}", "difference(){group(){}cube(1);}", "union(){union(){union(){cube(1);}}}", "difference(){difference(){difference(){cube(2);}}}", "difference(){intersection(){cube(2);}translate([1,1,1])cube(2);}"}) one("empty", t, 0, 2, .01);
    mc::phase("families of models"); models_trees([](const Model &m) { one("tree", m.text, -1, 4, .03, 4, false); }, mc::thorough); models_voxels([](const Model &m) { one("voxels", m.text, 0, 2, .01, 2, false); }); models_round([](const Model &m) { one("round", m.text, -2, 3, .05, 4, false); });
}
