// C31: when memory runs out, the run ends with a message; it never crashes and never claims success.
#include "../scad.hpp"
#include <sys/mman.h>
struct Shared { long n; long hit; }; static Shared *sh; static long fail_at = -1; static bool forever, armed;
static bool dies() { if (!armed) return false; long i = sh->n++; if (fail_at < 0 || i < fail_at || (i > fail_at && !forever)) return false; sh->hit++; errno = ENOMEM; return true; }
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return dies() ? nullptr : __real_malloc(n); } void *__wrap_calloc(size_t a, size_t b) { return dies() ? nullptr : __real_calloc(a, b); } void *__wrap_realloc(void *p, size_t n) { return dies() ? nullptr : __real_realloc(p, n); } }
struct Job { string name; vector<string> args; string out; };
static vector<Job> jobs; struct Base { Res r; string out; long n; }; static std::map<string,Base> bases;
static Res go(const Job &j, long k, bool fv) { if (!j.out.empty()) unlink(scr(j.out).c_str()); sh->n = sh->hit = 0; fail_at = k; forever = fv; armed = true; Res r = run(j.args); armed = false; return r; }
static string output(const Job &j, const Res &r) { return j.out.empty() ? r.so : slurp(scr(j.out)); }
static const Base &base(const Job &j) { auto it = bases.find(j.name); if (it != bases.end()) return it->second; Base b; b.r = go(j, -1, false); b.n = sh->n; b.out = output(j, b.r); return bases[j.name] = b; }
static void fixtures() {
    mkdir(scr("d").c_str(), 0700); spit(scr("t.stl"), "solid t\nfacet normal 0 0 -1\nouter loop\nvertex 0 0 0\nvertex 0 1 0\nvertex 1 0 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 1 0 0\nvertex 0 1 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 1 0\nvertex 0 0 0\nvertex 0 0 1\nendloop\nendfacet\nendsolid t\n");
    spit(scr("d/v.svg"), "<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 9 9\">\n<g id=\"a&amp;b\" transform=\"translate(1,1) rotate(3)\"><rect x=\"1\" y=\"1\" width=\"2\" height=\"2\" rx=\".3\"/><circle r=\"1\"/></g><path d=\"M5 5 h2 v2 h-2 z m1 1 q1 1 2 0 a1 2 0 0 1 1 1 c1 1 1 1 2 0\"/><polygon points=\"7,7 8,8 8,7\"/></svg>\n");
    spit(scr("d/i.scad"), "linear_extrude(1) import(\"v.svg\", $fn=8);\n");
    spit(scr("one.scad"), "cube(1);\n"); spit(scr("empty.scad"), ""); spit(scr("bad.scad"), "cube(1);\n\ncube(1\n"); spit(scr("bad2.scad"), "union(){cube(1);\nfoo(size=[1,2]);}"); spit(scr("bad3.scad"), "include <nix.scad>\n"); spit(scr("bad4.scad"), "linear_extrude(1)polygon([[0,0],[1,1],[0,0]]);"); spit(scr("warn.scad"), "cube(1,foo=2);\ncube(1,foo=\"a\\n\\\"b\");\n");
    string m = "include <d/i.scad>\ntranslate([0,5,0]) import(\"t.stl\");\ndifference(){union(){cube(3);translate([1,1,1])rotate(30)cube(2.5);sphere(1.4,$fn=12);}cylinder(h=9,r=.5,$fn=9);rotate([10,20,30])cube([1,2,9]);}\nintersection(){cube(2);translate([1,0,0])sphere(2,$fn=20);}\ncolor(\"red\")mirror([1,1,0])multmatrix([[1,.5],[0,1]])translate([5,5,0])rotate_extrude($fn=12,angle=200)translate([2,0])circle(1,$fn=7);\nlinear_extrude(2,twist=30,slices=4,scale=.5)difference(){square(4);hull(){square(1);translate([2,2])square(1);}}\nlinear_extrude(1)projection(cut=true)rotate(45)cube(3,center=true);polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,2,1],[0,1,3],[1,2,3],[0,3,2]]);\n"; spit(scr("m.scad"), m);
    string g; for (int i = 0; i < (mc::thorough ? 14 : 4); i++) for (int k = 0; k < (mc::thorough ? 14 : 4); k++) g += mc::strf("%s cube([1,1,%d]);", i || k ? mc::strf("translate([%g,%g,0])", i * .75, k * .75).c_str() : "", 1 + (i + k) % 3); spit(scr("many.scad"), g);
    string deep; for (int i = 0; i < (mc::thorough ? 300 : 60); i++) deep += "translate([.01,0,0])"; deep += "cube(1);"; spit(scr("deep.scad"), deep + "// " + string(20000, 'x') + "\n" + "cube(size=" + string(200, '[') + "1" + string(200, ']') + ");");
    for (const char *in : {"one", "m", "many", "empty", "warn"}) for (const char *f : {"stl", "stb", "js", "ps", "scad"}) { if (string(f) != "stl" && (string(in) == "empty" || string(in) == "warn")) continue; string o = string("o.") + f; jobs.push_back({string(in) + "." + f, {string(in) + ".scad", mc::thorough ? "--step=.5" : "--step=2", "-o", o}, o}); }
    for (const char *in : {"one", "m", "warn"}) for (const char *d : {"--dump-syn", "--dump-scad", "--dump-csg3", "--dump-csg2", "--dump-js"}) jobs.push_back({string(in) + d, {string(in) + ".scad", mc::thorough ? "--step=.5" : "--step=2", d}, ""});
    for (const char *in : {"bad", "bad2", "bad3", "bad4", "deep", "none"}) jobs.push_back({in, {string(in) + ".scad", "-o", "o.stl"}, "o.stl"});
    jobs.push_back({"help", {"--help"}, ""}); jobs.push_back({"nocsg", {"m.scad", "--no-csg", "--dump-ps"}, ""}); jobs.push_back({"sim2", {"m.scad", "--max-simultaneous=2", mc::thorough ? "--step=.7" : "--step=2", "-o", "o.stl"}, "o.stl"}); jobs.push_back({"badopt", {"--foo=1", "m.scad"}, ""});
}
void mc_main() {
    mc::set_hang(30); sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fixtures();
    mc::phase("every allocation fails"); for (auto &j : jobs) { const Base &b = base(j); for (int fv = 1; fv >= 0; fv--) for (long k = 0; k < b.n; k++) {
        if (!mc::next()) continue; mc::desc_s(j.name + mc::strf(": allocation #%ld%s fails", k, fv ? " and all later ones" : "")); mc::sample(j.name + mc::strf(" #%ld", k)); Res r = go(j, k, fv); long hit = sh->hit; string out = output(j, r); mc::trans(); mc::state(mc::hash(j.name + mc::strf("%ld %d", k, fv)));
        if (!hit) { mc::fail("unreached", "the run does not repeat: only %ld of %ld allocations", sh->n, b.n); continue; }
        if (r.sig && !(r.sig == SIGABRT && r.err.find("Fatal Error: ") != string::npos && r.err.find("Out of memory") != string::npos)) { mc::fail(site(r), "%s: %s", r.how().c_str(), r.err.substr(0, 300).c_str()); continue; }
        if (r.ok()) { if (!b.r.ok() || out != b.out) mc::fail("success", "success claimed, but the output has %zu bytes, without the failure it has %zu", out.size(), b.out.size()); continue; }
        if (!r.sig && r.code != 1) { mc::fail("status", "%s", r.how().c_str()); continue; } if (!r.sig && r.err.find("Error: ") == string::npos) mc::fail("message", "%s without message: %s", r.how().c_str(), r.err.substr(0, 300).c_str());
        if (b.r.ok() && !r.sig && r.err.find("Out of memory") == string::npos && r.err.find("Cannot allocate memory") == string::npos) mc::fail("reason", "the message does not give the reason: %s", r.err.substr(0, 300).c_str()); } }
}
