// C14, second part: values out of the documented range are rejected by the program, with a location.
#include "../scad.hpp"
struct R { const char *t; bool d2; };
static const R bad[] = {
    {"circle(0)", true}, {"circle(-1)", true}, {"circle(r=-.001)", true}, {"circle(d=0)", true}, {"circle(d=-2,$fn=5)", true}, {"square(0)", true}, {"square([0,1])", true}, {"square([1,0])", true}, {"square([0,0],true)", true},
    {"cube(0)", false}, {"cube([1,0,1])", false}, {"cube([0,1,1],true)", false}, {"cube([1,1,0])", false}, {"sphere(0)", false}, {"sphere(-1)", false}, {"sphere(d=0)", false}, {"sphere(d=-1,$fn=6)", false},
    {"cylinder(0,1,1)", false}, {"cylinder(-1,1,1)", false}, {"cylinder(h=0)", false}, {"cylinder(1,0,0)", false}, {"cylinder(1,-1,1)", false}, {"cylinder(1,1,-1)", false}, {"cylinder(1,-1,-1)", false}, {"cylinder(1,-1,0)", false}, {"cylinder(1,r=0)", false}, {"cylinder(1,r=-1)", false}, {"cylinder(1,d=0)", false}, {"cylinder(1,d1=0,d2=0)", false}, {"cylinder(1,d1=-1,d2=1)", false}, {"cylinder(1,d1=1,d2=-1)", false}, {"cylinder(1,r1=-1)", false}, {"cylinder(1,r2=-1)", false},
    {"linear_extrude(0)square(1)", false}, {"linear_extrude(height=0,center=true)square(1)", false}, {"linear_extrude(1,slices=0)square(1)", false}, {"linear_extrude(1,twist=90,slices=0)square(1)", false}, {"linear_extrude(1,scale=-1)square(1)", false}, {"linear_extrude(1,scale=[1,0])square(1)", false}, {"linear_extrude(1,scale=[0,1])square(1)", false}, {"linear_extrude(1,scale=[-1,1])square(1)", false}, {"linear_extrude(1,scale=[1,-1])square(1)", false}, {"linear_extrude(1,scale=[0,-1])square(1)", false},
    {"rotate_extrude(angle=0)square(1)", false}, {"rotate_extrude()translate([-1,0])square(2)", false}, {"rotate_extrude(angle=90){square(1);translate([-1,0])square(1);}", false},
    {"mirror([0,0,0])cube(1)", false}, {"mirror([0,0])cube(1)", false}, {"scale(0)cube(1)", false}, {"scale([1,0,1])cube(1)", false}, {"scale([0,1])cube(1)", false}, {"scale([1,1,0])cube(1)", false}, {"rotate(30,[0,0,0])cube(1)", false}, {"rotate(a=90,v=[0,0,0])cube(1)", false},
    {"multmatrix([[1,0],[0,0]])cube(1)", false}, {"multmatrix([[1,2,3],[2,4,6],[0,0,1]])cube(1)", false}, {"multmatrix([[1,0,0,1],[0,1,0,1],[1,1,0,1]])cube(1)", false},
    {"mirror([0,0])square(1)", true}, {"scale([1,0])square(1)", true}, {"scale([0,1])square(1)", true}, {"scale(0)square(1)", true},
    {"polygon([[0,0],[1,1]])", true}, {"polygon([[0,0]])", true}, {"polygon([])", true}, {"polygon([[0,0],[1,1],[1,0]],[[0,1]])", true}, {"polygon([[0,0],[1,1],[1,0]],[[0,1,2],[0,1]])", true}, {"polygon([[0,0],[1,1],[1,0]],[[0,1,3]])", true}, {"polygon([[0,0],[1,1],[1,0]],[[0,1,-1]])", true},
    {"polyhedron([[0,0,0],[1,0,0],[0,1,0]],[[0,1,2]])", false}, {"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,1,3],[1,2,3]])", false}, {"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,1,3],[1,2,3],[0,2,4]])", false},
    {"projection(cut=false)cube(1)", true}, {"projection()cube(1)", true},
};
void mc_main() {
    static const struct { const char *pre, *post; } ctx[] = {{"", ""}, {"translate([1,2,3])", ""}, {"difference(){cube(9);", "}"}, {"intersection(){union(){cube(9);sphere(2);}", "}"}, {"union(){*cube(1);", "cube(1);}"}, {"color(\"red\")group(){", "}"}};
    mc::phase("values out of range, in every context");
    for (auto &b : bad) for (auto &c : ctx) for (int mid = 0; mid < 3; mid++) {
        if (!b.d2 && mid) break; if (!mc::next()) continue;
        string t = string(c.pre) + (b.d2 ? mid == 0 ? "linear_extrude(1)" : mid == 1 ? "rotate_extrude()" : "linear_extrude(2)difference(){square(9);" : "") + b.t + ";" + (mid == 2 ? "}" : "") + c.post;
        mc::desc_s(t); mc::sample(t); spit(scr("in.scad"), t); Res r = run({"-q", "in.scad", "-o", "out.stl"}); mc::trans();
        if (!r.rejected()) { mc::fail("range:" + string(b.t), "%s must be rejected: %s %s", t.c_str(), r.how().c_str(), r.err.substr(0, 300).c_str()); continue; }
        if (r.err.find("in.scad:1:") == string::npos || r.err.find("Error:") == string::npos) mc::fail("no-location:" + string(b.t), "%s: message without location: %s", t.c_str(), r.err.substr(0, 300).c_str());
        mc::state(mc::hash(first_line(r.err)));
    }
}
