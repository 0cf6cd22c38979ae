// C29: colours are recognised as documented, reach the bodies, and never change the solid.
#include "../css.hpp"
#ifndef PART2
#include "../mc.hpp"
#include "../gshim.h"
#include <set>
#include <map>
#include <math.h>
using std::string; using std::vector;
static string lower(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static string upper(string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
static std::map<string,long> tab;
static bool hex(const string &s, long &v) { if (s.empty() || s[0] != '#' || (s.size() != 4 && s.size() != 7)) return false; v = 0; for (size_t i = 1; i < s.size(); i++) { char c = lower(s)[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (d < 0) return false; v = v * 16 + d; if (s.size() == 4) v = v * 16 + d; } return true; }
static long want_name(const string &n) { long v; if (hex(n, v)) return v; auto i = tab.find(lower(n)); return i == tab.end() ? -1 : i->second; }
static void name(const string &n) { if (!mc::next()) return; mc::desc_s("colour name '" + n + "'"); long w = want_name(n), g = g_name(n.c_str()); mc::trace(); mc::trans(); mc::state(mc::hash(n)); if (w != g) mc::fail(w < 0 ? "name-accepted" : g < 0 ? "name-rejected" : "name-value", "'%s' is %06lx, expected %06lx", n.c_str(), g, w); }
static string num(double d) { return mc::strf("%.6g", d); }
struct C { bool rgb; double r, g, b, a; string t; bool bad = false; };
// expected byte(s): nearest to 255 f
static bool near(int v, double f) { return fabs(v - f * 255) <= .5 + 1e-6; }
static void body(const C &c, const string &pre, const string &mid, const string &post) {
    string t = pre + "color(" + c.t + ")" + mid + "cube(1);" + post; mc::desc_s(t); mc::sample(t); char *o; long loc; int ok = g_bodies(t.data(), t.size(), &o, &loc); string s = o; free(o); mc::trace(); mc::trans();
    mc::state(mc::hash(c.t + s));
    if (c.bad) { if (ok) mc::fail("accepted:" + c.t, "must be rejected, but is %s", s.c_str()); else if (loc < 0) mc::fail("no-location", "message without location: %s", s.c_str()); return; }
    if (!ok) { mc::fail("rejected:" + c.t, "%s", s.c_str()); return; }
    int r, g, b, a; if (sscanf(s.c_str(), "p:%d,%d,%d,%d;", &r, &g, &b, &a) != 4) { mc::fail("shape", "%s", s.c_str()); return; }
    if (!c.rgb ? (r != 220 || g != 220 || b != 64) : !(near(r, c.r) && near(g, c.g) && near(b, c.b))) mc::fail("value", "colour is %d,%d,%d, expected %g,%g,%g (of 255)", r, g, b, c.rgb ? c.r * 255 : 220, c.rgb ? c.g * 255 : 220, c.rgb ? c.b * 255 : 64);
    else if (!near(a, c.a)) mc::fail("alpha", "alpha is %d, expected %g", a, c.a * 255);
}
// trees: colours over bodies
// a body may be built of several parts
static string once(const string &s) { string o, last; for (size_t i = 0; i < s.size();) { size_t e = i + 1; if (s[i] == 'p' || s[i] == 's') e = s.find(';', i) + 1; string x = s.substr(i, e - i); if (x != last) o += x; last = x; i = e; } return o; }
void mc_main() {
    for (auto &c : css) tab[c.name] = (long)c.rgb;
    { mc::phase("every colour name in several spellings, every near miss"); for (auto &c : css) { string n = c.name; name(n); name(upper(n)); string q = n; q[0] = (char)(q[0] - 32); name(q); for (size_t i = 0; i < n.size(); i++) { q = n; q[i] = (char)(q[i] - 32); name(q); q = upper(n); q[i] = n[i]; name(q); q = n; q.erase(i, 1); name(q); q = n; q.insert(i, 1, n[i]); name(q); q = n.substr(0, i); name(q); q = n.substr(i); name(q); for (char x : string("aeiouxyz gr-_1")) { q = n; q[i] = x; name(q); q = n; q.insert(i, 1, x); name(q); } if (i + 1 < n.size()) { q = n; std::swap(q[i], q[i + 1]); name(q); } for (int bit = 0; bit < 8; bit++) { q = n; q[i] = (char)(q[i] ^ (1 << bit)); if (q[i]) name(q); } } for (const char *x : {" ", "s", "1", "ish", "\xc3\xa4"}) { name(n + x); name(x + n); } for (auto &d : css) name(n + d.name); } name(""); for (int i = 1; i < 256; i++) { name(string(1, (char)i)); for (int k = 2; k < 40; k++) name(string((size_t)k, (char)i)); } }
    { mc::phase("hexadecimal colours"); for (unsigned v = 0; v < 4096; v++) { name(mc::strf("#%03x", v)); name(mc::strf("#%03X", v)); } for (unsigned ch = 0; ch < 3; ch++) for (unsigned v = 0; v < 256; v++) for (unsigned o : {0u, 0xffffffu, 0x123456u, 0xfedcbau}) { unsigned q = (o & ~(255u << (8 * ch))) | v << (8 * ch); name(mc::strf("#%06x", q)); name(mc::strf("#%06X", q)); }
      for (size_t n = 0; n <= 12; n++) name("#" + string(n, 'a')), name("#" + string(n, '0')); for (int c = 1; c < 256; c++) for (size_t n : {4u, 7u}) for (size_t i = 0; i < n; i++) { string s = "#" + string(n - 1, '7'); s[i] = (char)c; name(s); } }
    { mc::phase("components and alpha"); static const double v[] = {0, 1, .5, .25, 1. / 255, 254. / 255, .001, .999, .003, .1, .7}; static const double w[] = {0, 1, .5, .25}; vector<C> L;
      for (double r : v) for (double g : v) for (double b : w) { string a = num(r) + "," + num(g) + "," + num(b); L.push_back({true, r, g, b, 1, "[" + a + "]"}); if (r != g) continue; for (double x : v) { L.push_back({true, r, g, b, x, "[" + a + "," + num(x) + "]"}); L.push_back({true, r, g, b, x, "[" + a + "]," + num(x)}); L.push_back({true, r, g, b, x, "c=[" + a + "],alpha=" + num(x)}); L.push_back({true, r, g, b, x, "alpha=" + num(x) + ",c=[" + a + "]"}); } }
      for (int i = 0; i < 256; i++) for (int k = 0; k < 4; k++) { double f[4] = {0, 0, 0, 1}; f[k] = i / 255.; L.push_back({true, f[0], f[1], f[2], f[3], "[" + num(f[0]) + "," + num(f[1]) + "," + num(f[2]) + "," + num(f[3]) + "]"}); }
      for (auto &c : css) { double r = (c.rgb >> 16) / 255., g = (c.rgb >> 8 & 255) / 255., b = (c.rgb & 255) / 255.; string n = string("\"") + c.name + "\""; L.push_back({true, r, g, b, 1, n}); L.push_back({true, r, g, b, .5, n + ",0.5"}); L.push_back({true, r, g, b, 0, n + ",alpha=0"}); }
      for (const char *n : {"\"#f80\"", "\"#FF8800\"", "\"#f80\",1"}) L.push_back({true, 1, 136 / 255., 0, 1, n}); for (double x : v) { L.push_back({false, 0, 0, 0, x, "undef," + num(x)}); L.push_back({false, 0, 0, 0, x, "c=undef,alpha=" + num(x)}); } L.push_back({false, 0, 0, 0, 1, "undef"}); L.push_back({true, 1, 0, 0, 1, "[1,0,0],alpha=undef"}); L.pop_back();
      for (const char *b : {"[]", "[0]", "[0,0]", "[0,0,0,0,0]", "[0,0,0,1],1", "[0,0,0,1],alpha=0.5", "[0,0,1.1]", "[0,-.1,0]", "[2,0,0]", "[0,0,255]", "[0,0,0,1.01]", "[0,0,0,-1]", "[0,0,0],2", "[0,0,0],-0.5", "[0,0,0],alpha=1.5", "\"red\",2", "\"red\",-1", "undef,3", "\"\"", "\"redd\"", "\"#ff\"", "\"#gggggg\"", "\"#ff00ff0\"", "1", "0.5", "true", "[\"red\"]", "[\"0\",0,0]", "[0,[0],0]", "[0,0,undef]", "[0:1:2]", "\"red\",\"1\"", "\"red\",[1]", "\"red\",0.5,0.5", ""}) L.push_back({true, 0, 0, 0, 0, b, true});
      static const char *ctx[][3] = {{"", "", ""}, {"", "{", "}"}, {"color(\"#abcdef\",.125)", "", ""}, {"group(){", "translate([1,2,3])", "}"}, {"", "union(){", "}"}, {"rotate(30)", "scale(2)", ""}};
      for (auto &c : L) for (int k = 0; k < 6; k++) { if (k == 2 && !c.rgb) continue; if (mc::next()) body(c, ctx[k][0], ctx[k][1], ctx[k][2]); } }
    { mc::phase("nested colours over every tree"); struct Col { string t; int rgb; int a; }; static const vector<Col> cols = {{"", -1, -1}, {"color(\"red\")", 0xff0000, 255}, {"color([0,0,1,.2])", 0xff, 51}, {"color(undef)", -1, 255}, {"color(undef,0)", -1, 0}, {"color(\"#123\",.4)", 0x112233, 102}};
      static const char *leafs[] = {"cube(1);", "sphere(1);", "cylinder(1,1,.5,$fn=5);", "polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]],[[0,1,2],[0,3,1],[1,3,2],[0,2,3]]);", "linear_extrude(1)square(1);", "rotate_extrude($fn=5)translate([1,0])square(1);", "sphere(1,$fn=300);"};
      auto app = [&](const Col &c, int &rgb, int &a) { if (c.a >= 0) a = c.a; if (c.rgb >= 0) rgb = c.rgb; }; auto show = [](const char *l, int rgb, int a) { return mc::strf("%c:%d,%d,%d,%d;", l[0] == 's' && (strstr(l, "300") || !strstr(l, "$fn")) ? 's' : 'p', rgb >> 16, rgb >> 8 & 255, rgb & 255, a); };
      static const char *ops[][2] = {{"union(){", ""}, {"difference(){", "-"}, {"intersection(){", "&"}, {"group(){", ""}, {"{", ""}, {"translate([1,1,1]){", ""}, {"mirror([1,0,0])render(){", ""}}; static const char *mods[] = {"", "#", "*", "%"};
      for (auto &c1 : cols) for (auto &c2 : cols) for (auto &op : ops) for (auto &c3 : cols) for (auto &c4 : cols) for (size_t l = 0; l < 7; l++) for (size_t md = 0; md < 4; md++) { if (md && l != 0) continue; if (!mc::thorough && l > 1 && (c1.rgb + c4.rgb + (int)l) % 3) continue; if (!mc::next()) continue;
          const char *la = leafs[l], *lb = leafs[(l + 1) % 7]; string t = c1.t + op[0] + mods[md] + c2.t + la + c3.t + c4.t + lb + "}cube(2);"; int r = 0xdcdc40, a = 255; app(c1, r, a); int r2 = r, a2 = a; app(c2, r2, a2); int r3 = r, a3 = a; app(c3, r3, a3); app(c4, r3, a3); string x = md > 1 ? show(lb, r3, a3) : show(la, r2, a2) + op[1] + show(lb, r3, a3); x += "p:220,220,64,255;";
          mc::desc_s(t); mc::sample(t); char *o; long loc; int ok = g_bodies(t.data(), t.size(), &o, &loc); string s = o; free(o); mc::trace(); mc::trans(); mc::state(mc::hash(x)); if (!ok) mc::fail("rejected", "%s", s.c_str()); else if (once(s) != once(x)) mc::fail("inherit", "bodies %s, expected %s", s.c_str(), x.c_str()); } }
}
#else
#include "../scad.hpp"
#include "../models.hpp"
// the dump repeats every colour exactly, and colours do not change the solid
static string run_dump(const string &t, const char *opt) { spit(scr("in.scad"), t); Res r = run({"-q", opt, "in.scad", "-o", "d.scad"}); if (!r.ok()) { mc::fail(site(r), "%s %s", r.how().c_str(), r.err.substr(0, 300).c_str()); return ""; } string s = slurp(scr("d.scad")); return s.empty() ? r.so : s; }
static string stl(const string &t) { spit(scr("in.scad"), t); Res r = run({"-q", "--step=.5", "in.scad", "-o", "o.stl"}); if (!r.ok()) { mc::fail(site(r), "%s %s", r.how().c_str(), r.err.substr(0, 300).c_str()); return "?"; } return slurp(scr("o.stl")); }
void mc_main() {
    { mc::phase("every component value in the dump"); for (int k = 0; k < 4; k++) for (int v = 0; v < 256; v++) { if (!mc::next()) continue; int c[4] = {17, 200, 99, 255}; c[k] = v; string t = mc::strf("color([%.9g,%.9g,%.9g],%.9g)cube(1);", c[0] / 255., c[1] / 255., c[2] / 255., c[3] / 255.); mc::desc_s(t); mc::sample(t); string d = run_dump(t, "--dump-scad"); size_t p = d.find("color("); double f[4]; mc::trans(); mc::state(mc::hash(t)); if (p == string::npos || sscanf(d.c_str() + p, "color(c=[%lf,%lf,%lf,%lf])", f, f + 1, f + 2, f + 3) != 4) { if (!mc::failed()) mc::fail("dump", "no colour in: %s", d.substr(0, 200).c_str()); continue; } for (int i = 0; i < 4; i++) if (lrint(f[i] * 255) != c[i]) mc::fail("dump-value", "component %d is %d, the dump says %g", i, c[i], f[i]); }
      for (int v = 0; v < 256; v++) { if (!mc::next()) continue; string t = mc::strf("color(undef,%.9g)cube(1);", v / 255.); mc::desc_s(t); string d = run_dump(t, "--dump-scad"); size_t p = d.find("color("); double f; mc::trans(); mc::state(mc::hash(t)); if (p == string::npos || sscanf(d.c_str() + p, "color(c=undef,alpha=%lf)", &f) != 1 || lrint(f * 255) != v) mc::fail("dump-value", "alpha %d: %s", v, d.substr(0, 200).c_str()); }
      for (auto &c : css) { if (!mc::next()) continue; string t = string("color(\"") + c.name + "\")cube(1);"; mc::desc_s(t); string d = run_dump(t, "--dump-scad"); size_t p = d.find("color("); double f[4]; mc::trans(); mc::state(mc::hash(t)); if (p == string::npos || sscanf(d.c_str() + p, "color(c=[%lf,%lf,%lf,%lf])", f, f + 1, f + 2, f + 3) != 4 || (unsigned)(lrint(f[0] * 255) << 16 | lrint(f[1] * 255) << 8 | lrint(f[2] * 255)) != c.rgb || f[3] != 1) mc::fail("dump-value", "%s: %s", c.name, d.substr(0, 200).c_str()); } }
    { mc::phase("colours at every position of every tree leave the solid alone"); static const char *cs[] = {"color(\"red\")", "color([0,0,0,0])", "color(undef)", "color(\"blue\",0)"}; static const char *L[] = {"cube(2);", "translate([1,1,1])sphere(1.5,$fn=8);", "linear_extrude(3){square(1);}", "linear_extrude(2)@difference(){@square(3);@translate([1,1])@circle(1,$fn=6);}", "rotate_extrude($fn=5)@translate([1,0])@square(1);", "linear_extrude(1)hull(){@square(1);@translate([3,2])@square(1);}", "linear_extrude(1)projection(cut=true)@translate([0,0,-1])@cube(2);", "multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,.25],[0,0,0,1]])@cylinder(3,1,2,$fn=5);"}; static const char *ops[] = {"union()", "difference()", "intersection()", "render()", "group()"};
      for (auto o : ops) for (auto a : L) for (auto b : L) { string t = string("@") + o + "{@" + a + "@" + o + "{@" + b + "}" + "@" + a + "}"; string base; bool have = false; vector<size_t> at; for (size_t i = 0; i < t.size(); i++) if (t[i] == '@') at.push_back(i); auto fill = [&](int pos, const char *c) { string s; int k = 0; for (char x : t) if (x == '@') { if (k == pos || pos == -2) s += c; k++; } else s += x; return s; };
          for (int pos = -2; pos < (int)at.size(); pos++) for (auto c : cs) { if (pos == -1) continue; if (!mc::thorough && pos >= 0 && (pos + (int)strlen(c)) % 2) continue; if (!mc::next()) continue; if (!have) { mc::desc_s(fill(-1, "")); base = stl(fill(-1, "")); have = true; } string s = fill(pos, c); mc::desc_s(s); mc::sample(s); string g = stl(s); mc::trans(); mc::state(mc::hash(g)); if (g != base) mc::fail("solid", "the colour changes the STL output (%zu bytes, %zu without colour)", g.size(), base.size()); } } }
}
#endif
