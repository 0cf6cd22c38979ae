// C10: text STL, binary STL, JavaScript, sliced SCAD dump and PostScript describe the same layers.
#include "../models.hpp"
struct LA { double z0 = 0, z1 = 0; double m[6] = {0,0,0,0,0,0}; double per = 0, wall = 0, R = 1; bool has_z1 = true, has_wall = true; };
typedef vector<LA> Lays;
// integrals of 1, x, y, x^2, xy, y^2 over a triangle (signed)
static void mom(double *m, Pt a, Pt b, Pt c, double sgn) {
    double A = sgn * ((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)) / 2;
    m[0] += A; m[1] += A * (a.x + b.x + c.x) / 3; m[2] += A * (a.y + b.y + c.y) / 3;
    auto q = [&](double ax, double bx, double cx, double ay, double by, double cy) { return A / 12 * (ax*ay + bx*by + cx*cy + (ax + bx + cx) * (ay + by + cy)); };
    m[3] += q(a.x, b.x, c.x, a.x, b.x, c.x); m[4] += q(a.x, b.x, c.x, a.y, b.y, c.y); m[5] += q(a.y, b.y, c.y, a.y, b.y, c.y);
}
static void tri_in(LA &l, const Tri &t) { double s = area2(t) < 0 ? -1 : 1; mom(l.m, t[0], t[1], t[2], s); for (int i = 0; i < 3; i++) { auto &a = t[i], &b = t[(i+1)%3]; l.per += hypot(b.x - a.x, b.y - a.y); l.R = std::max({l.R, fabs(a.x), fabs(a.y)}); } }
static double facet_area(const Facet &f) { double a[3], c[3]; for (int i = 0; i < 3; i++) a[i] = f.v[1][i]-f.v[0][i], c[i] = f.v[2][i]-f.v[0][i]; double x = a[1]*c[2]-a[2]*c[1], y = a[2]*c[0]-a[0]*c[2], z = a[0]*c[1]-a[1]*c[0]; return sqrt(x*x+y*y+z*z)/2; }
static bool from_stl(const Stl &s, Lays &o, string &why) {
    std::map<long,Layer> m; if (!layers_of(s, m, why)) return false;
    for (auto &q : m) { LA l, t; l.z0 = q.second.z0; l.z1 = q.second.z1; for (auto &x : q.second.bot) tri_in(l, x); for (auto &x : q.second.top) tri_in(t, x); for (int i = 0; i < 6; i++) if (fabs(l.m[i] - t.m[i]) > 1e-5 * (1 + fabs(l.m[i])) + 1e-6 * l.per * l.R * l.R) { why = mc::strf("top and bottom of the layer at %g differ: moment %d is %.9g and %.9g", l.z0, i, t.m[i], l.m[i]); return false; }
        for (auto &w : q.second.wall) l.wall += facet_area(w); o.push_back(l); }
    return true;
}
static bool js_array(const char *&p, const char *name, vector<long> &v) { string k = string("'") + name + "':["; const char *q = strstr(p, k.c_str()); if (!q) return false; q += k.size(); v.clear(); while (*q && *q != ']') { char *e; v.push_back(strtol(q, &e, 10)); if (e == q) return false; q = e; if (*q == ',') q++; } if (*q != ']') return false; p = q + 1; return true; }
static Stl from_js(const string &s, double &grid, vector<double> *xf = nullptr) {
    Stl r; const char *p = s.c_str(); grid = 8192;
    while ((p = strstr(p, "scene.push({"))) {
        const char *q = strstr(p, "'scaleV':"); if (!q) { r.why = "no scaleV"; return r; } double sv = strtod(q + 9, nullptr); grid = sv / 1000; q = strstr(p, "'shiftI':"); if (!q) { r.why = "no shiftI"; return r; } long sh = strtol(q + 9, nullptr, 10);
        const char *nx = strstr(p + 1, "scene.push({"), *x = strstr(p, "'xform':["); if (xf && x && (!nx || x < nx)) { xf->clear(); x += 9; for (int i = 0; i < 16; i++) { char *e; xf->push_back(strtod(x, &e)); x = e; while (*x == ',' || *x == ' ') x++; } if (*x != ']') { r.why = "xform"; return r; } }
        vector<long> v, n, c, ix; p = q; if (!js_array(p, "vertex", v) || !js_array(p, "normal", n) || !js_array(p, "color", c) || !js_array(p, "index", ix)) { r.why = "arrays"; return r; }
        if (v.size() % 3 || n.size() != v.size() || c.size() != v.size() / 3 * 4 || ix.size() % 3) { r.why = mc::strf("sizes %zu %zu %zu %zu", v.size(), n.size(), c.size(), ix.size()); return r; }
        if (v.size() / 3 > 65536) { r.why = "more vertices than an index can name"; return r; }
        for (long x : c) if (x < 0 || x > 255) { r.why = "colour"; return r; }
        long last = 0; for (size_t i = 0; i < ix.size(); i += 3) { Facet f; for (size_t k = 0; k < 3; k++) { last += ix[i + k] - sh; if (last < 0 || (size_t)last >= v.size() / 3) { r.why = mc::strf("index %ld of %zu", last, v.size() / 3); return r; } for (size_t j = 0; j < 3; j++) { f.v[k][j] = (double)v[(size_t)last * 3 + j] / grid; double nn = (double)n[(size_t)last * 3 + j] / sv; if (k && fabs(nn - f.n[j]) > 1e-9) { r.why = "normals of a facet differ"; return r; } f.n[j] = nn; } } r.f.push_back(f); }
        if (strncmp(p, ",\n});\n", 6)) { r.why = "end of scene"; return r; }
    }
    r.ok = true; return r;
}
// geometric orientation of facets
static bool oriented(const Stl &s, double tol, string &why) { for (auto &f : s.f) { double a[3], c[3]; for (int i = 0; i < 3; i++) a[i] = f.v[1][i]-f.v[0][i], c[i] = f.v[2][i]-f.v[0][i]; double x = a[1]*c[2]-a[2]*c[1], y = a[2]*c[0]-a[0]*c[2], z = a[0]*c[1]-a[1]*c[0], l = sqrt(x*x+y*y+z*z); if (l < tol) continue; double d = (x*f.n[0]+y*f.n[1]+z*f.n[2]) / l; if (!(d > 1 - .3) ) { why = mc::strf("normal (%g,%g,%g) of facet at (%g,%g,%g), vertices say (%g,%g,%g)", f.n[0], f.n[1], f.n[2], f.v[0][0], f.v[0][1], f.v[0][2], x/l, y/l, z/l); return false; } } return true; }
static bool from_scad(const string &s, Lays &o, string &why) {
    const char *p = s.c_str(); double z = 0; bool in = false;
    for (;;) {
        while (*p == ' ' || *p == '\n') p++;
        if (!*p) break;
        if (!strncmp(p, "group(){", 8)) { p += 8; continue; }
        if (*p == '}') { p++; in = false; continue; }
        if (!strncmp(p, "union(){", 8)) { p += 8; continue; }
        if (!strncmp(p, "translate([0,0,", 15)) { p += 15; if (!num_at(p, z) || strncmp(p, "]) {", 4)) { why = "translate"; return false; } p += 4; in = true; continue; }
        if (!strncmp(p, "linear_extrude(height=", 22) && in) {
            p += 22; double h; if (!num_at(p, h) || strncmp(p, ",center=0,convexity=2,twist=0)polygon(points=[", 45)) { why = "extrude"; return false; } p = strchr(p, '[') + 1;
            vector<Pt> pt; while (*p == '[') { Pt q; p++; if (!num_at(p, q.x) || *p++ != ',' || !num_at(p, q.y) || *p++ != ']') { why = "point"; return false; } pt.push_back(q); if (*p == ',') p++; }
            if (strncmp(p, "],paths=[", 9)) { why = "paths"; return false; } p += 9;
            if (o.empty() || fabs(o.back().z0 - z) > 1e-12) { LA l; l.z0 = z; l.z1 = z + h; l.has_wall = false; o.push_back(l); } LA &l = o.back();
            while (*p == '[') { p++; vector<size_t> ix; while (*p != ']') { char *e; ix.push_back(strtoul(p, &e, 10)); if (e == p || ix.back() >= pt.size()) { why = "index"; return false; } p = e; if (*p == ',') p++; } p++; if (*p == ',') p++;
                if (ix.size() < 3) { why = "path of fewer than 3 points"; return false; } for (size_t i = 0; i < ix.size(); i++) { Pt a = pt[ix[i]], b = pt[ix[(i + 1) % ix.size()]]; mom(l.m, Pt{0, 0}, a, b, -1); l.per += hypot(a.x - b.x, a.y - b.y); l.R = std::max({l.R, fabs(a.x), fabs(a.y)}); } }
            if (strncmp(p, "]);", 3)) { why = "end of polygon"; return false; } p += 3; continue;
        }
        why = mc::strf("at '%.40s'", p); return false;
    }
    return true;
}
struct PsX { double sx = 72 / 25.4, sy = 72 / 25.4, ax = 297, ay = 421; };
static bool from_ps(const string &s, Lays &o, string &why, const PsX &x, bool paths, double bb[4]) {
    if (s.compare(0, 15, "%!PS-Adobe-3.0\n")) { why = "header"; return false; }
    size_t pos = 0; long page = 0, pages = -1, dB[4] = {0,0,-1,-1}; bb[0] = bb[1] = 1e99; bb[2] = bb[3] = -1e99; bool open = false, eof = false;
    while (pos < s.size()) {
        size_t e = s.find('\n', pos); if (e == string::npos) { why = "no newline at the end"; return false; } string l = s.substr(pos, e - pos); pos = e + 1; const char *c = l.c_str(); long a, b; double z; size_t zi;
        if (sscanf(c, "%%%%Page: %ld %ld", &a, &b) == 2) { page++; if (a != page || b != page || open) { why = "page " + l; return false; } open = true; continue; }
        if (l == "showpage") { if (!open) { why = "showpage"; return false; } open = false; continue; }
        if (sscanf(c, "%%%%Pages: %ld", &a) == 1) pages = a; if (l == "%%EOF") eof = pos == s.size();
        sscanf(c, "%%%%BoundingBox: %ld %ld %ld %ld", &dB[0], &dB[1], &dB[2], &dB[3]);
        if (sscanf(c, "10 10 moveto (z=%lf zi=%zu) show", &z, &zi) == 2) { LA q; q.z0 = z; q.has_z1 = q.has_wall = false; o.push_back(q); continue; }
        if (l.compare(0, 8, "newpath ")) continue;
        const char *p = c + 8; vector<Pt> v; string rest; for (;;) { Pt q; const char *p0 = p; if (!num_at(p, q.x) || !num_at(p, q.y)) { rest = p0; break; } const char *w = v.empty() ? " moveto " : " lineto "; if (strncmp(p, w, 8)) { rest = p0; break; } p += 8; v.push_back(q); }
        if (rest.find(" arc ") != string::npos || rest.compare(0, 10, "closepath ")) continue;
        bool tri = rest.find("fill") != string::npos; if (!open || o.empty()) { why = "drawing outside of a page"; return false; }
        for (auto &q : v) { bb[0] = std::min(bb[0], q.x); bb[1] = std::min(bb[1], q.y); bb[2] = std::max(bb[2], q.x); bb[3] = std::max(bb[3], q.y); q.x = (q.x - x.ax) / x.sx; q.y = (q.y - x.ay) / x.sy; }
        LA &k = o.back(); if (tri != !paths) continue; if (tri) { if (v.size() != 3) { why = "triangle"; return false; } tri_in(k, Tri{v[0], v[1], v[2]}); } else for (size_t i = 0; i < v.size(); i++) { Pt a = v[i], b = v[(i + 1) % v.size()]; mom(k.m, Pt{0, 0}, a, b, -1); k.per += hypot(a.x - b.x, a.y - b.y); k.R = std::max({k.R, fabs(a.x), fabs(a.y)}); }
    }
    if (open || !eof) { why = "no proper end"; return false; } if (pages != page || (size_t)page != o.size()) { why = mc::strf("%ld pages announced, %ld written, %zu named", pages, page, o.size()); return false; }
    if (dB[0] > dB[2] || dB[1] > dB[3]) { why = mc::strf("BoundingBox is %ld %ld %ld %ld", dB[0], dB[1], dB[2], dB[3]); return false; }
    double R = 1e-5 * std::max({fabs(bb[0]), fabs(bb[1]), fabs(bb[2]), fabs(bb[3])}), E = .01 + R, F = 1.01 + R; if (page && bb[0] < 1e9 && (bb[0] < (double)dB[0] - E || bb[1] < (double)dB[1] - E || bb[2] > (double)dB[2] + E || bb[3] > (double)dB[3] + E || bb[0] > (double)dB[0] + F || bb[2] < (double)dB[2] - F || bb[1] > (double)dB[1] + F || bb[3] < (double)dB[3] - F)) { why = mc::strf("BoundingBox is %ld %ld %ld %ld, drawn is %g %g %g %g", dB[0], dB[1], dB[2], dB[3], bb[0], bb[1], bb[2], bb[3]); return false; }
    return true;
}
// drop layers that hold no area
static Lays solid(const Lays &a, double d) { Lays o; for (auto &l : a) if (fabs(l.m[0]) > d * l.per + 1e-9) o.push_back(l); return o; }
static bool same(const char *fmt, const Lays &ref0, const Lays &got0, double dxy, double dz) {
    Lays ref = ref0, got = got0; if (ref.size() != got.size()) { ref = solid(ref0, dxy); got = solid(got0, dxy); }
    if (ref.size() != got.size()) { mc::fail(string(fmt) + ":layers", "%zu layers, text STL has %zu", got0.size(), ref0.size()); return false; }
    for (size_t i = 0; i < ref.size(); i++) { mc::trans(); auto &a = ref[i], &b = got[i];
        if (fabs(a.z0 - b.z0) > dz * (1 + fabs(a.z0))) { mc::fail(string(fmt) + ":height", "layer %zu starts at %.9g, in text STL at %.9g", i, b.z0, a.z0); return false; }
        if (b.has_z1 && fabs(a.z1 - b.z1) > dz * (1 + fabs(a.z1))) { mc::fail(string(fmt) + ":height", "layer %zu ends at %.9g, in text STL at %.9g", i, b.z1, a.z1); return false; }
        static const char *nm[] = {"1", "x", "y", "x^2", "xy", "y^2"};
        for (int k = 0; k < 6; k++) { double tol = 1e-9 + 2 * dxy * (a.per + 1) * pow(a.R, k == 0 ? 0 : k < 3 ? 1 : 2); if (!(fabs(a.m[k] - b.m[k]) <= tol)) { mc::fail(string(fmt) + ":" + (k ? "shape" : "area"), "layer at %g: integral of %s is %.9g, in text STL %.9g", a.z0, nm[k], b.m[k], a.m[k]); return false; } }
        if (b.has_wall && fabs(a.wall - b.wall) > 1e-9 + 4 * (dxy + dz) * (a.per + a.wall * 20 + 1)) { mc::fail(string(fmt) + ":walls", "layer at %g: area of walls %.9g, in text STL %.9g", a.z0, b.wall, a.wall); return false; } }
    return true;
}
static bool out(const vector<string> &a, const char *o, string &s) { auto b = a; b.insert(b.end(), {"in.scad", "-o", o}); Res r = run(b); if (!r.ok()) { mc::fail(string(strchr(o, '.') + 1) + ":" + site(r), "%s %s", r.how().c_str(), r.err.c_str()); return false; } s = slurp(scr(o)); return true; }
static void go(const Model &m, const vector<string> &extra, bool reread = true) {
    vector<string> a = m.args, g; double step = .2, grid; a.insert(a.end(), extra.begin(), extra.end()); for (auto &x : a) sscanf(x.c_str(), "--step=%lf", &step);
    bool nopath = false; for (auto &x : a) nopath |= x == "--no-path"; (void)nopath;
    string gap = mc::strf("--layer-gap=%g", step / 16); mc::desc_s("hob3l" + jargs(a) + " on: " + m.text); mc::sample(m.text); spit(scr("in.scad"), m.text); g = a; g.push_back(gap);
    string s, why; Lays ref, l; auto bad = [&](const char *f) { mc::fail(string(f) + ":syntax", "%s", why.c_str()); };
    if (!out(g, "o.stl", s)) return; Stl t = stl_text(s); why = t.why; if (!t.ok || !from_stl(t, ref, why)) return bad("text");
    if (!out(g, "o.stlb", s)) return; Stl b = stl_bin(s); why = b.why; if (!b.ok || !from_stl(b, l, why)) return bad("binary");
    if (b.f.size() != t.f.size()) { mc::fail("binary:facets", "%zu facets, text has %zu", b.f.size(), t.f.size()); return; }
    for (size_t i = 0; i < b.f.size(); i++) for (int k = 0; k < 3; k++) { if (fabs((double)(float)t.f[i].n[k] - b.f[i].n[k]) > 1e-6) { mc::fail("binary:facets", "normal of facet %zu differs", i); return; } for (int j = 0; j < 3; j++) if (fabs((double)(float)t.f[i].v[k][j] - b.f[i].v[k][j]) > 2e-7 * fabs(b.f[i].v[k][j])) { mc::fail("binary:facets", "facet %zu: coordinate %.9g, text has %.17g", i, b.f[i].v[k][j], t.f[i].v[k][j]); return; } }
    if (!same("binary", ref, l, 1e-6, 2e-6)) return;
    if (!out(g, "o.js", s)) return; Stl j = from_js(s, grid); why = j.why; if (!j.ok) return bad("js");
    if (grid >= 1000) { if (!oriented(j, 40 / grid / grid, why)) return bad("js"); l.clear(); if (!from_stl(j, l, why)) return bad("js"); if (!same("js", ref, l, 1e-6, .51 / grid + 1e-6)) return; }
    if (j.f.size() != t.f.size()) { mc::fail("js:facets", "%zu facets, text STL has %zu", j.f.size(), t.f.size()); return; }
    if (!out(a, "o.scad", s)) return; l.clear(); if (!from_scad(s, l, why)) return bad("scad"); for (auto &q : l) { if (fabs(q.z1 - q.z0 - step) > 1e-9) { mc::fail("scad:height", "layer thickness %g", q.z1 - q.z0); return; } q.has_z1 = false; } if (!same("scad", ref, l, 1e-9, 2e-6)) return;
    if (!out(g, "o2.scad", s)) return; l.clear(); if (!from_scad(s, l, why)) return bad("scad"); if (!same("scad+gap", ref, l, 1e-9, 2e-6)) return;
    double bb[4]; if (!out(a, "o.ps", s)) return; l.clear(); if (!from_ps(s, l, why, PsX(), false, bb)) return bad("ps"); if (!same("ps", ref, l, 5e-4, 1e-5)) return;
    mc::state(mc::hash(s.data(), s.size()));
    if (!ref.empty() && reread) { // the dump is a model itself: sliced in the middle of the layers it gives the layers again
        spit(scr("in.scad"), slurp(scr("o.scad"))); vector<string> c = a; c.push_back(gap); if (!out(c, "r.stl", s)) return; Stl r = stl_text(s); l.clear(); why = r.why; if (!r.ok || !from_stl(r, l, why)) return bad("reread");
        for (auto &q : l) { q.z0 -= step / 2; q.z1 -= step / 2; q.has_wall = false; } if (!same("reread", ref, l, 1e-5, 1e-6)) return; spit(scr("in.scad"), m.text); }
}
// scaled to the page: same shape, uniform scale, centred, inside of the margins
static void fit(const Model &m, const char *how) {
    mc::desc_s(string("hob3l ") + how + " on: " + m.text); spit(scr("in.scad"), m.text); string s, why; Lays ref, l; double bb[4];
    if (!out(m.args, "o.stl", s)) return; Stl t = stl_text(s); why = t.why; if (!t.ok || !from_stl(t, ref, why)) { mc::fail("text:syntax", "%s", why.c_str()); return; } if (t.f.empty()) return;
    double x0 = 1e99, x1 = -1e99, y0 = 1e99, y1 = -1e99; for (auto &f : t.f) for (auto &v : f.v) { x0 = std::min(x0, v[0]); x1 = std::max(x1, v[0]); y0 = std::min(y0, v[1]); y1 = std::max(y1, v[1]); }
    auto a = m.args; a.push_back(how); if (!out(a, "o.ps", s)) return; if (!from_ps(s, l, why, PsX(), false, bb)) { mc::fail("fit:syntax", "%s", why.c_str()); return; }
    bool max = !strcmp(how, "--ps-scale-max"); double k = std::min((595. - 56) / (x1 - x0), (842. - 56) / (y1 - y0)), w = bb[2] - bb[0], h = bb[3] - bb[1];
    if (fabs(w / (x1 - x0) - h / (y1 - y0)) > 1e-3 * k + .003 / (x1 - x0) + .003 / (y1 - y0)) { mc::fail("fit:aspect", "model is %g x %g, drawn %g x %g", x1 - x0, y1 - y0, w, h); return; }
    if (bb[0] < 0 || bb[1] < 0 || bb[2] > 595 || bb[3] > 842) { mc::fail("fit:outside", "drawn %g..%g x %g..%g", bb[0], bb[2], bb[1], bb[3]); return; }
    if (!max && (fabs(w / (x1 - x0) - k) > 1e-2 * k || fabs((bb[0] + bb[2]) / 2 - 297) > 1 || fabs((bb[1] + bb[3]) / 2 - 421) > 1)) { mc::fail("fit:scale", "model %g..%g x %g..%g drawn %g..%g x %g..%g, not filling the page", x0, x1, y0, y1, bb[0], bb[2], bb[1], bb[3]); return; }
    PsX x; x.sx = w / (x1 - x0); x.sy = h / (y1 - y0); x.ax = bb[0] - x0 * x.sx; x.ay = bb[1] - y0 * x.sy; l.clear(); if (!from_ps(s, l, why, x, false, bb)) { mc::fail("fit:syntax", "%s", why.c_str()); return; } if (same("fit", ref, l, 2e-3 * std::max({fabs(x0), fabs(x1), fabs(y0), fabs(y1)}) , 1e-5)) mc::state(mc::hash(s.data(), s.size()));
}
// the context of a root object is handed to the viewer as a matrix
static void rootx(const string &pre, const string &body) {
    string t = pre + "!" + body, u = pre + body; mc::desc_s("JS transformation for: " + t); string s, why; double g, g2; Stl a, b; vector<double> xf;
    spit(scr("in.scad"), u); if (!out({"--js-keep-ctxt", "--step=.5", "--min=.25", "--layer-gap=.1"}, "o.js", s)) return; spit(scr("in.scad"), t); if (!out({"--js-keep-ctxt", "--step=.5", "--layer-gap=.1"}, "o.js", s)) return;
    a = from_js(s, g, &xf); if (!a.ok) { mc::fail("xform:syntax", "%s", a.why.c_str()); return; }
    // the same body without '!' and outside of the context
    spit(scr("in.scad"), body); if (!out({"--step=.5", "--layer-gap=.1"}, "o.js", s)) return; b = from_js(s, g2); if (!b.ok || b.f.size() != a.f.size()) { mc::fail("xform:facets", "%zu and %zu", a.f.size(), b.f.size()); return; }
    (void)u; if (xf.size() != 16) { mc::fail("xform:missing", "no matrix"); return; }
    for (size_t i = 0; i < a.f.size(); i++) for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) if (fabs(a.f[i].v[k][j] - b.f[i].v[k][j]) > 1e-9) { mc::fail("xform:body", "facet %zu", i); return; }
}
static void rootm(const string &pre, const Mat &M, const string &body) {
    rootx(pre, body); string s = slurp(scr("o.js")); spit(scr("in.scad"), pre + "!" + body); if (!out({"--js-keep-ctxt", "--step=.5"}, "o.js", s)) return; double g; vector<double> xf; Stl a = from_js(s, g, &xf); if (xf.size() != 16) { mc::fail("xform:missing", "no matrix"); return; }
    for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) { mc::trans(); double want = M.m[r][c] / (c == 3 ? 1000 : 1), got = xf[(size_t)(c * 4 + r)]; if (fabs(want - got) > 1e-5 * fabs(want) + 1e-12) { mc::fail("xform:matrix", "row %d column %d is %g, expected %g", r, c, got, want); return; } }
    for (int c = 0; c < 4; c++) if (xf[(size_t)(c * 4 + 3)] != (c == 3)) { mc::fail("xform:matrix", "last row"); return; }
    string d; for (double v : xf) d += mc::strf("%g,", v); mc::state(mc::hash(d.data(), d.size()));
}
void mc_main() {
    bool T = mc::thorough; auto plain = [&](const Model &m) { go(m, {}); };
    { mc::phase("pixel images"); models_pixels(plain, 3, T ? 3 : 2); }
    { mc::phase("rotated pixel images"); models_pixels(plain, 3, T ? 3 : 2, "rotate(17)"); }
    { mc::phase("voxel images"); models_voxels(plain); }
    { mc::phase("boolean trees"); models_trees(plain, T); }
    { mc::phase("polygons"); models_polygons(plain, T); }
    { mc::phase("round bodies"); models_round(plain); }
    { mc::phase("many facets"); for (int n : {10, 60, 105, 146, 150, T ? 220 : 155}) { if (!mc::next()) continue; string t; for (int i = 0; i < n; i++) t += mc::strf("translate([%d,%d,0])cylinder(%d,1,1,$fn=%d);", i % 12 * 3, i / 12 * 3, 1 + i % 5, 30 + i % 7); go({t, {"--step=.5"}}, {}, false); } }
    { mc::phase("nothing to draw"); for (const char *t : {"", "group(){}", "difference(){cube(1);cube(1);}", "cube(1);", "intersection(){cube(1);translate([3,0,0])cube(1);}"}) for (auto &a : vector<vector<string>>{{"--step=.5"}, {"--step=.5", "--min=5", "--max=6"}, {"--step=.5", "--min=2", "--max=1"}, {"--step=.5", "--opt-no-skip-empty"}}) { if (!mc::next()) continue; Model m; m.text = t; m.args = a; go(m, {}, false); } }
    { mc::phase("options"); for (vector<string> o : vector<vector<string>>{{"--no-path"}, {"--opt-no-skip-empty"}, {"--max-simultaneous=2"}, {"--grid=16"}, {"--step=.03", "--min=.1", "--max=.2"}, {"--grid=1000"}, {"--grid=2^17"}, {"--opt-no-drop-collinear"}}) { auto f = [&](const Model &m) { go(m, o, o[0] == "--opt-no-skip-empty"); }; if (T) models_voxels(f); models_round(f); } }
    { mc::phase("fit to page"); for (auto h : {"--ps-scale-fit", "--ps-scale-max"}) for (double x : {-200., -3., 0., 5., 300.}) for (double y : {-400., -3., 0., 7., 250.}) for (double w : {.5, 10., 400.}) for (double d : {.5, 20., 700.}) for (int k = 0; k < 2; k++) if (mc::next()) fit({mc::strf("translate([%g,%g,0])%s", x, y, k ? mc::strf("cube([%g,%g,1]);", w, d).c_str() : mc::strf("linear_extrude(2)polygon([[0,0],[%g,0],[0,%g]]);", w, d).c_str()), {"--step=.5"}}, h); }
    { mc::phase("bounding box far from the page"); for (double x : {-100000., -40000., -35000., -3000., 0., 3000., 35000., 40000., 100000.}) for (double y : {-90000., -36000., 0., 36000., 90000.}) for (const char *b : {"cube(1);", "cylinder(h=1,r=30,$fn=7);translate([500,0,0])cube(1);"}) for (const char *o : {"--ps-no-tri", "--ps-no-path", ""}) {
        if (!mc::next()) continue;
        string t = mc::strf("translate([%g,%g,0]){", x, y) + b + "}"; mc::desc_s(string("hob3l ") + o + " on: " + t); mc::sample(t); spit(scr("in.scad"), t); vector<string> a = {"--step=.5"}; if (*o) a.push_back(o); string s, why; Lays l; double bb[4];
        if (!out(a, "o.ps", s)) continue;
        if (!from_ps(s, l, why, PsX(), false, bb)) { mc::fail("ps:far", "%s", why.c_str()); continue; } mc::trans(); mc::state(mc::hash(s.data(), s.size()));
    } }
    { mc::phase("all layers on one page"); for (const char *b : {"cube(1);", "cylinder(h=3,r1=3,r2=1,$fn=7);translate([9,0,1])cube(2);", "", "translate([90000,0,0])cube(1);", "difference(){cube(4);translate([1,1,1])cube([2,2,9]);}"}) for (int tri = 0; tri < 2; tri++) {
        if (!mc::next()) continue;
        mc::desc_s(string("hob3l --ps-single-page") + (tri ? "" : " --ps-no-tri") + " on: " + b); spit(scr("in.scad"), b); vector<string> a = {"--step=.5"}; if (!tri) a.push_back("--ps-no-tri"); string s, q; if (!out(a, "o.ps", s)) continue; a.push_back("--ps-single-page"); if (!out(a, "p.ps", q)) continue;
        auto lines = [](const string &t, const char *pre) { vector<string> r; size_t p = 0; while (p < t.size()) { auto e = t.find('\n', p); if (e == string::npos) e = t.size(); string l = t.substr(p, e - p); if (!l.compare(0, strlen(pre), pre)) r.push_back(l); p = e + 1; } return r; };
        auto pg = lines(q, "%%Page: "), ps = lines(q, "%%Pages: "), sh = lines(q, "showpage"); mc::trans(); mc::state(mc::hash(q.data(), q.size()));
        if (pg.size() != 1 || pg[0] != "%%Page: 1 1" || sh.size() != 1 || ps.empty() || ps.back() != "%%Pages: 1") { mc::fail("ps:single", "%zu pages, %zu shown, %s", pg.size(), sh.size(), ps.empty() ? "no count" : ps.back().c_str()); continue; }
        if (lines(s, "newpath ") != lines(q, "newpath ")) { mc::fail("ps:single", "not the same drawing"); continue; }
        if (lines(s, "%%BoundingBox: ") != lines(q, "%%BoundingBox: ")) mc::fail("ps:single", "another bounding box");
    } }
    { mc::phase("root matrix"); struct X { const char *t; Mat m; }; vector<X> A = {{"translate([5,-3,2])", m_translate(5, -3, 2)}, {"rotate([90,0,0])", m_rot(90,0,0)}, {"rotate([0,0,30])", m_rot(0,0,30)}, {"scale([2,3,.5])", m_scale(2, 3, .5)}, {"mirror([1,0,0])", m_scale(-1, 1, 1)}, {"multmatrix([[1,.5,0,3],[0,1,.25,-4],[0,0,1,9]])", Mat{{{1,.5,0,3},{0,1,.25,-4},{0,0,1,9}}}}, {"rotate([0,45,0])", m_rot(0,45,0)}};
      for (auto b : {"cube([1,2,3]);", "cylinder(2,1,0,$fn=5);"}) { for (auto &x : A) if (mc::next()) rootm(x.t, x.m, b); for (auto &x : A) for (auto &y : A) if (mc::next()) rootm(string(x.t) + y.t, mul(x.m, y.m), b); for (auto &x : A) for (auto &y : A) for (auto &z : A) if (mc::next()) rootm(string(x.t) + y.t + z.t, mul(mul(x.m, y.m), z.m), b); } }
}
