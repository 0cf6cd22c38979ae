// C33: a model k times as large has sections k times as large: nothing in the
// geometry depends on the absolute size, except for the grid.
#include "scad.hpp"
#include <map>
typedef std::function<string(double)> Gen;
struct Mo { string name; Gen g; double lo, hi; bool touch = false; string file; }; // heights (lo,hi) of the model of size 1
static string n(double x) { return mc::strf("%.17g", x); }
// template text: numbers behind @ are lengths
static string sized(const string &t, double s) { string r; for (size_t i = 0; i < t.size(); ) { if (t[i] != '@') { r += t[i++]; continue; } char *e; double v = strtod(t.c_str() + i + 1, &e); r += n(v * s); i = (size_t)(e - t.c_str()); } return r; }
static Gen G(const string &t) { return [=](double s) { return sized(t, s); }; }
#include "outline.hpp"
struct Run { bool ok = false; vector<Sec> s; };
static const int NZ = 5;
static Run sections(const Mo &m, const string &text, double s) {
    Run r; double st = (m.hi - m.lo) / NZ, z0 = m.lo + st * .37; mc::desc_s("size " + n(s) + ": " + text); if (!m.file.empty()) { string f = sized(m.file, s); spit(scr("a.stl"), f); mc::desc_s("size " + n(s) + ": " + text + "\n" + f.substr(0, 300)); }
    std::map<long,Layer> ls; Info inf; if (!stl_run(text, {"--min=" + n(z0 * s), "--step=" + n(st * s), "--max=" + n(m.hi * s), "--layer-gap=0"}, ls, inf)) return r;
    r.s.resize(NZ); for (auto &l : ls) { double k = (l.second.z0 / s - z0) / st; long i = lround(k); if (fabs(k - (double)i) > .02 || i < 0 || i >= NZ) { mc::fail("height", "layer at z=%.9g", l.second.z0); return r; }
        Sec &q = r.s[(size_t)i]; string why; outline(l.second, q.o, q.area, why); q.area /= s * s; for (auto &e : q.o) { e.first.x /= s; e.first.y /= s; e.second.x /= s; e.second.y /= s; } }
    r.ok = true; return r;
}
static void same(const Run &a, const Run &b, double tol, const string &cls) { for (size_t i = 0; i < NZ; i++) if (!same_section(a.s[i], b.s[i], tol, cls, i)) return; }
void mc_main() {
    vector<Mo> B = {
        {"cube", G("cube([@2,@3,@1]);"), 0, 1, false, ""}, {"centered cube", G("cube([@2,@3,@1],center=true);"), -.5, .5, false, ""},
        {"exact sphere", G("sphere(@1.5);"), -1.5, 1.5, false, ""}, {"sphere", G("sphere(@1.5,$fn=7);"), -1.3, 1.3, false, ""}, {"fine sphere", G("sphere(d=@3,$fn=40);"), -1.49, 1.49, false, ""},
        {"cylinder", G("cylinder(@2,@1,@1,$fn=9);"), 0, 2, false, ""}, {"cone", G("cylinder(h=@2,r1=@1.5,r2=@0,$fn=6);"), 0, 2, false, ""}, {"frustum", G("cylinder(h=@2,d1=@1,d2=@3,center=true);"), -1, 1, false, ""},
        {"tetrahedron", G("polyhedron(points=[[@0,@0,@0],[@3,@0,@.5],[@0,@2,@.25],[@.5,@.5,@2]],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);"), 0, 2, false, ""},
        {"extruded polygon", G("linear_extrude(@2){polygon(points=[[@0,@0],[@3,@0],[@3,@2],[@0,@2],[@1,@.5],[@2,@.5],[@2,@1.5],[@1,@1.5]],paths=[[0,1,2,3],[4,5,6,7]]);}"), 0, 2, false, ""},
        {"twisted", G("linear_extrude(@2,twist=60,slices=4,scale=[.5,.75]){translate([@.5,@0])square([@1,@2]);}"), 0, 2, false, ""},
        {"pyramid", G("linear_extrude(height=@2,center=true,scale=0){square(@2,center=true);}"), -1, 1, false, ""},
        {"ring", G("rotate_extrude($fn=8){translate([@2,@0])circle(@.75,$fn=6);}"), -.64, .64, false, ""}, {"part of a ring", G("rotate_extrude(angle=100,$fn=12){translate([@1,@-1])square([@1,@2]);}"), -1, 1, false, ""},
        {"hull", G("linear_extrude(@1){hull(){circle(@1,$fn=5);translate([@3,@1])square(@1);}}"), 0, 1, false, ""},
        {"projection", G("linear_extrude(@1){projection(cut=true){translate([@0,@0,@-.3])sphere(@1.5,$fn=9);}}"), 0, 1, false, ""},
        {"difference", G("difference(){cube([@3,@3,@2]);translate([@1,@1,@-1])cube([@1,@1,@4]);translate([@2,@2,@1])sphere(@.75);}"), 0, 2, false, ""},
        {"intersection", G("intersection(){sphere(@1.5);translate([@-1,@-.5,@-2])cube([@3,@1,@4]);}"), -1.5, 1.5, false, ""},
        {"touching cubes", G("cube(@1);translate([@1,@0,@0])cube(@1);translate([@0,@1,@0])cube([@1,@1,@2]);translate([@2,@1,@0])cube(@1);"), 0, 2, true, ""},
        {"file", G("import(\"a.stl\");"), 0, 2, false, "solid x\nfacet normal 0 0 0\nouter loop\nvertex @0 @0 @0\nvertex @3 @0 @.5\nvertex @.5 @.5 @2\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex @3 @0 @.5\nvertex @0 @2 @.25\nvertex @.5 @.5 @2\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex @0 @2 @.25\nvertex @0 @0 @0\nvertex @.5 @.5 @2\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex @0 @0 @0\nvertex @0 @2 @.25\nvertex @3 @0 @.5\nendloop\nendfacet\nendsolid x\n"},
    };
    struct T { string head; double lo, hi; bool turn; }; // lo, hi: 0,0 = heights of the body stay
    vector<T> X = {{"", 0, 0, false}, {"translate([@7,@-5,@0])", 0, 0, false}, {"rotate([45,0,0])", -2, 2, true}, {"rotate([30,40,50])", -1.5, 1.5, true}, {"rotate(a=70,v=[1,2,3])", -1, 1.5, true}, {"rotate(90)", 0, 0, false}, {"rotate(25)", 0, 0, true}, {"mirror([1,0,0])", 0, 0, false}, {"mirror([1,2,2])", -2, 1, true}, {"mirror([0,0,1])", -1.2, 1, false}, {"rotate([180,0,0])", -1.2, 1, false}, {"scale([2,.5,1])", 0, 0, false}, {"scale([1,2,-3])", -3, 2.5, false}, {"rotate([0,60,0])scale([.5,1,2])", -2, 2, true}, {"multmatrix([[1,.5,0,@1],[0,1,.25,@0],[0,0,1,@0]])", 0, 0, true}, {"multmatrix([[.1,0,0,@0],[0,.1,0,@0],[0,0,1,@0]])", 0, 0, false}};
    int lo = mc::thorough ? -6 : -4, hi = mc::thorough ? 13 : 13;
    mc::phase("caps of exact spheres"); for (int e = -3; e <= 15; e++) for (double k : {1., 1.25, 1.5, 1.75}) for (int side = 0; side < 2; side++) for (int d = 1; d <= 40; d += mc::thorough ? 1 : 3) { if (!mc::next()) continue; double r = ldexp(k, e), dz = ldexp(1, d - 14) * 3; if (dz >= r) continue;
        // a plane at depth dz below the pole (or above the other)
        double z = side ? -r + dz : r - dz, w = sqrt(2 * r * dz - dz * dz); string t = "sphere(" + n(r) + ");"; mc::desc_s("hob3l -z=" + n(z) + " on: " + t); std::map<long,Layer> ls; Info inf; if (!stl_run(t, {"-z=" + n(z)}, ls, inf)) continue; mc::trans();
        double dw = 0x1p-14 * r / w + 0x1p-12 + r * ldexp(1, -14) / 64, got = 0; for (auto &l : ls) for (auto &q : l.second.bot) for (auto &p : q) got = std::max(got, hypot(p.x, p.y));
        if (w > 2 * r * 0x1p-15 + 4 * 0x1p-13 ? fabs(got - w) > dw : got > w + dw) mc::fail("cap", "radius of the section is %.9g, not %.9g", got, w); }
    mc::phase("operands far larger than the result"); for (int e = 0; e <= 22; e++) for (int dir = 0; dir < 6; dir++) for (int opr = 0; opr < 4; opr++) for (int pos = 0; pos < 2; pos++) { if (!mc::next()) continue; double s = ldexp(1, e), o[3] = {-1, -1, -1}, d[3] = {3, 3, 3}; int ax = dir / 2;
        // a box which is large on one side only takes, or leaves, one half of a cube
        if (dir % 2) o[ax] = .5 - s, d[ax] = s; else o[ax] = .5, d[ax] = s; string big = opr & 1 ? "polyhedron(points=[[0,0,0],[1,0,0],[1,1,0],[0,1,0],[0,0,1],[1,0,1],[1,1,1],[0,1,1]],faces=[[0,1,2,3],[4,7,6,5],[0,4,5,1],[1,5,6,2],[2,6,7,3],[3,7,4,0]]);" : "cube(1);";
        big = "translate([" + n(o[0]) + "," + n(o[1]) + "," + n(o[2]) + "])scale([" + n(d[0]) + "," + n(d[1]) + "," + n(d[2]) + "])" + big; string at = pos ? "translate([-.5,-.5,-.5])" : "";
        string t = at + (opr < 2 ? "difference(){cube(1);" + big + "}" : "intersection(){" + big + "cube(1);}"); mc::desc_s("hob3l --min=.125-.5*" + n(pos) + " --step=.25 on: " + t); double z0 = pos ? -.375 : .125;
        std::map<long,Layer> ls; Info inf; if (!stl_run(t, {"--min=" + n(z0), "--step=.25", "--max=" + n(z0 + .76)}, ls, inf)) continue; mc::trans();
        bool low = (dir % 2 == 0) == (opr < 2); // what is left: the lower or the upper half
        for (int l = 0; l < 4; l++) { double want = ax == 2 ? (l < 2) == low : .5, got = 0, lo = 9, hi = -9; for (auto &q : ls) if (fabs(q.second.z0 - (z0 + l * .25)) < .01) for (auto &f : q.second.bot) { got += fabs((f[1].x - f[0].x) * (f[2].y - f[0].y) - (f[2].x - f[0].x) * (f[1].y - f[0].y)) / 2; for (auto &p : f) { double c = (ax ? p.y : p.x) + pos * .5; lo = std::min(lo, c); hi = std::max(hi, c); } }
            if (fabs(got - want) > 2e-2) { mc::fail("area", "layer at z=%g has an area of %.9g, not %.9g", z0 + l * .25, got, want); break; }
            if (ax < 2 && (fabs(lo - (low ? 0 : .5)) > 1e-2 || fabs(hi - (low ? .5 : 1)) > 1e-2)) { mc::fail("half", "layer at z=%g goes from %.9g to %.9g", z0 + l * .25, lo, hi); break; } } }
    mc::phase("layers far above and below the model"); for (int e = 0; e <= 22; e++) for (int side = 0; side < 2; side++) for (const char *t : {"cube(1);", "rotate([0,90,0])translate([-.5,.5])cylinder(h=1,r=.5,$fn=4);", "translate([.5,.5,.5])sphere(r=.5);"}) { if (!mc::next()) continue; double s = ldexp(1, e); // the model is met by one layer only
        vector<string> a = side ? vector<string>{"--min=" + n(.5 - 8 * s), "--step=" + n(s), "--max=" + n(.5 + s / 4)} : vector<string>{"--min=.5", "--step=" + n(s), "--max=" + n(8.25 * s + .5)}; mc::desc_s("hob3l" + jargs(a) + " on: " + t); std::map<long,Layer> ls; Info inf; if (!stl_run(t, a, ls, inf)) continue; mc::trans();
        double got = 0, out = 0, want = t[0] == 'c' ? 1 : strstr(t, "sphere") ? M_PI / 4 : 1; for (auto &q : ls) for (auto &f : q.second.bot) (fabs(q.second.z0 - .5) < .01 ? got : out) += fabs((f[1].x - f[0].x) * (f[2].y - f[0].y) - (f[2].x - f[0].x) * (f[1].y - f[0].y)) / 2;
        if (fabs(got - want) > .03 || out != 0) mc::fail("area", "area of %.9g in the layer of the model and of %.9g in others", got, out); }
    mc::phase("bodies under transformations"); for (auto &m : B) for (auto &x : X) { if (m.touch && x.turn) continue; Mo k = m; if (x.lo || x.hi) k.lo = x.lo, k.hi = x.hi;
        Run ref; bool have = false; double dim = 12;
        int top = m.g(1).find("extrude") != string::npos ? hi : mc::thorough ? hi + 5 : hi + 3; for (int e = lo; e <= top; e += mc::thorough || (e >= 6 && e <= 9) ? 1 : 2) for (int how = 0; how < 2; how++) { if (!mc::next()) continue; double s = ldexp(1, e);
            if (!have) { ref = sections(k, sized(x.head, 16) + m.g(16), 16); have = true; } if (!ref.ok) continue;
            string text = how ? "scale(" + n(s) + "){" + sized(x.head, 1) + m.g(1) + "}" : sized(x.head, s) + m.g(s);
            Mo q = k; if (how && !m.file.empty()) q.file = sized(m.file, 1);
            // error of the outline: the grid (of lengths and heights), magnified where faces are nearly horizontal or corners sharp
            auto tol = [&](double s) { int dig = (int)ceil(log2(dim * s)) + 1; double grid = ldexp(1, -std::min(13, std::min(24 - dig, 30 - dig))); return 60 * grid / s + 60 * 0x1p-17; };
            Run r = sections(q, text, s); mc::trace(); if (!r.ok) continue; same(ref, r, std::max({tol(s), tol(16), how ? tol(1) : 0}), m.name); } }
}
