// C18: SVG import yields the even-odd area of the drawn shapes.
#include "../scad.hpp"
typedef vector<Pt> Ring; typedef vector<Ring> Shape;
struct M2 { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; }; // x' = a x + c y + e, y' = b x + d y + f
static M2 mul2(const M2 &p, const M2 &q) { return {p.a*q.a + p.c*q.b, p.b*q.a + p.d*q.b, p.a*q.c + p.c*q.d, p.b*q.c + p.d*q.d, p.a*q.e + p.c*q.f + p.e, p.b*q.e + p.d*q.f + p.f}; }
static Pt ap(const M2 &m, Pt p) { return {m.a*p.x + m.c*p.y + m.e, m.b*p.x + m.d*p.y + m.f}; }
static M2 xl(double x, double y) { return {1,0,0,1,x,y}; }
static M2 sc(double x, double y) { return {x,0,0,y,0,0}; }
static Shape ap(const M2 &m, Shape s) { for (auto &r : s) for (auto &p : r) p = ap(m, p); return s; }
static const M2 FLIP = {1,0,0,-1,0,0};
// ---- judge: the imported area at grid points away from the outline; no corner off the outline --------
static double dist2(const Ring &r, double x, double y) { double b = 1e18; for (size_t i = 0, n = r.size(); i < n; i++) { Pt p = r[i], q = r[(i + 1) % n]; double dx = q.x - p.x, dy = q.y - p.y, l = dx*dx + dy*dy, t = l > 0 ? ((x - p.x)*dx + (y - p.y)*dy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; double u = p.x + t*dx - x, v = p.y + t*dy - y; b = std::min(b, u*u + v*v); } return b; }
static void judge_scad(const string &scad, const vector<Shape> &want, double tol, const char *pre = "", int ng = 13) {
    mc::trans(); static const vector<string> args = {"-q", "--min=.5", "--max=.9", "--step=1"}; spit(scr("in.scad"), scad); vector<string> a = args; for (auto x : {"in.scad", "-o", "out.stl"}) a.push_back(x); unlink(scr("out.stl").c_str()); Res r = run(a);
    if (!r.ok()) { mc::fail(string(pre) + site(r), "%s\n%s", r.how().c_str(), r.err.substr(0, 1500).c_str()); return; }
    Stl s = stl_text(slurp(scr("out.stl"))); if (!s.ok) { mc::fail(string(pre) + "stl-syntax", "%s", s.why.c_str()); return; }
    std::map<long,Layer> ls; string why; if (!layers_of(s, ls, why)) { mc::fail(string(pre) + "stl-structure", "%s", why.c_str()); return; }
    if (ls.size() > 1) { mc::fail(string(pre) + "layers", "%zu layers instead of one", ls.size()); return; } static const vector<Tri> none; auto &t = ls.empty() ? none : ls.begin()->second.bot;
    double x0 = 1e18, y0 = 1e18, x1 = -1e18, y1 = -1e18; for (auto &w : want) for (auto &g : w) for (auto &p : g) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } 
    for (auto &q : t) for (auto &p : q) { double d = 1e18; for (auto &w : want) for (auto &g : w) d = std::min(d, dist2(g, p.x, p.y)); if (d > tol * tol) { mc::fail(string(pre) + "corner", "the import has a corner at (%.6g,%.6g), which is %.3g off every outline", p.x, p.y, sqrt(d)); return; } }
    if (x0 > x1) return; double ex = (x1 - x0) * .06 + tol, ey = (y1 - y0) * .06 + tol; unsigned long h = 0;
    for (int i = 0; i < ng; i++) for (int j = 0; j < ng; j++) { double x = x0 - ex + (x1 - x0 + 2*ex) * (i + .137 * (j % 4) + .11) / (ng - .2), y = y0 - ey + (y1 - y0 + 2*ey) * (j + .153 * (i % 4) + .13) / (ng - .2); bool in = false, near = false; for (auto &w : want) { in = in || evenodd(w, x, y); for (auto &g : w) near = near || dist2(g, x, y) < tol * tol; } if (near) continue; h = h * 3 + (in ? 2 : 1); int c = cover(t, x, y); if (c != in) { mc::fail(string(pre) + (in ? "missing" : c == 1 ? "surplus" : "overlap"), "at (%.6g,%.6g): covered by %d triangles, but is %s the drawing", x, y, c, in ? "inside" : "outside of"); return; } }
    mc::state(h ^ mc::hash(mc::strf("%.4g %.4g %.4g %.4g", x0, y0, x1, y1)));
}
static const char *NS = "xmlns=\"http://www.w3.org/2000/svg\"";
static void judge(const string &svg, const vector<Shape> &want, double tol = .02, const string &iargs = "", const char *pre = "") { spit(scr("f.svg"), svg); string s = "linear_extrude(1)import(\"f.svg\"" + iargs + ");"; mc::desc_s(s + " with f.svg: " + svg); mc::sample(svg); judge_scad(s, want, tol, pre); }
// the drawing in a document without viewBox: one unit is 1 mm, y is upside down
static void plain(const string &body, const vector<Shape> &want, double tol = .02, const char *pre = "") { vector<Shape> w; for (auto &s : want) w.push_back(ap(FLIP, s)); judge("<svg " + string(NS) + ">" + body + "</svg>", w, tol, "", pre); }
// ---- path data -------------------------------------------------------------------------------------
struct Cmd { char c; vector<double> a; };
static int argc_of(char c) { switch (toupper(c)) { case 'M': case 'L': case 'T': return 2; case 'H': case 'V': return 1; case 'C': return 6; case 'S': case 'Q': return 4; case 'A': return 7; } return 0; }
static void arc_to(Ring &r, Pt p, double rx, double ry, double ph, bool fa, bool fs, Pt q) {
    if (p.x == q.x && p.y == q.y) return; rx = fabs(rx); ry = fabs(ry); if (rx == 0 || ry == 0) { r.push_back(q); return; }
    double c = cosd(ph), s = sind(ph); auto to = [&](Pt z) { return Pt{(c*z.x + s*z.y) / rx, (-s*z.x + c*z.y) / ry}; }; Pt P = to(p), Q = to(q); double dx = Q.x - P.x, dy = Q.y - P.y, l = sqrt(dx*dx + dy*dy), h2 = 1 - l*l/4, k = 1; if (h2 < 0) { k = l / 2; h2 = 0; } // k: radii are scaled up by k
    double R = k, h = sqrt(h2), best = 0; Pt C{}; bool have = false;
    for (int sg = -1; sg <= 1; sg += 2) { Pt z = {(P.x + Q.x)/2 - sg*h*dy/l, (P.y + Q.y)/2 + sg*h*dx/l}; double a = atan2(P.y - z.y, P.x - z.x), b = atan2(Q.y - z.y, Q.x - z.x), d = b - a; if (fs) { while (d <= 1e-9) d += 2*M_PI; while (d > 2*M_PI) d -= 2*M_PI; } else { while (d >= -1e-9) d -= 2*M_PI; while (d < -2*M_PI) d += 2*M_PI; } if (!have || (fabs(d) > M_PI) == fa) { best = d; C = z; have = true; } }
    double a0 = atan2(P.y - C.y, P.x - C.x); int n = 300; for (int i = 1; i < n; i++) { double a = a0 + best * i / n, u = (C.x + R * cos(a)) * rx, v = (C.y + R * sin(a)) * ry; r.push_back({c*u - s*v, s*u + c*v}); } r.push_back(q);
}
static Shape interpret(const vector<Cmd> &cs) {
    Shape out; Ring ring; Pt cur{0,0}, init{0,0}, ctrl{0,0}; char prev = 0; auto flush = [&] { if (ring.size() > 1) out.push_back(ring); ring.clear(); }; auto start = [&] { if (ring.empty()) { ring.push_back(cur); init = cur; } };
    for (auto &k : cs) { bool rel = islower(k.c); char C = (char)toupper(k.c); int n = argc_of(C); if (!n) { flush(); cur = init; prev = 'Z'; continue; }
        for (size_t o = 0; o + (size_t)n <= k.a.size(); o += (size_t)n) { const double *v = &k.a[o]; auto P = [&](int i) { return rel ? Pt{cur.x + v[i], cur.y + v[i+1]} : Pt{v[i], v[i+1]}; }; char D = C == 'M' && o ? 'L' : C; Pt q = cur, c1{}, c2{};
            switch (D) { case 'M': q = P(0); flush(); init = q; break; case 'L': q = P(0); start(); ring.push_back(q); break; case 'H': q.x = v[0] + (rel ? cur.x : 0); start(); ring.push_back(q); break; case 'V': q.y = v[0] + (rel ? cur.y : 0); start(); ring.push_back(q); break;
                case 'C': case 'S': if (D == 'C') { c1 = P(0); c2 = P(2); q = P(4); } else { c1 = prev == 'C' ? Pt{2*cur.x - ctrl.x, 2*cur.y - ctrl.y} : cur; c2 = P(0); q = P(2); } start(); for (int i = 1; i <= 120; i++) { double t = i / 120., u = 1 - t; ring.push_back({u*u*u*cur.x + 3*u*u*t*c1.x + 3*u*t*t*c2.x + t*t*t*q.x, u*u*u*cur.y + 3*u*u*t*c1.y + 3*u*t*t*c2.y + t*t*t*q.y}); } ctrl = c2; break;
                case 'Q': case 'T': if (D == 'Q') { c1 = P(0); q = P(2); } else { c1 = prev == 'Q' ? Pt{2*cur.x - ctrl.x, 2*cur.y - ctrl.y} : cur; q = P(0); } start(); for (int i = 1; i <= 120; i++) { double t = i / 120., u = 1 - t; ring.push_back({u*u*cur.x + 2*u*t*c1.x + t*t*q.x, u*u*cur.y + 2*u*t*c1.y + t*t*q.y}); } ctrl = c1; break;
                case 'A': q = P(5); start(); arc_to(ring, cur, v[0], v[1], v[2], v[3] != 0, v[4] != 0, q); break; }
            cur = q; prev = D == 'S' ? 'C' : D == 'T' ? 'Q' : D; } }
    flush(); return out;
}
// styles: 0 spaces, 1 commas, 2 as short as possible, 3 repeated letters left out, 4 white space of every kind, 5 all of it short and implicit, 6 the same with a sign at every number
static string dots(double d) { string s = nm(d); if (s.compare(0, 2, "0.") == 0) return s.substr(1); if (s.compare(0, 3, "-0.") == 0) return "-" + s.substr(2); return s; }
static string fmt(const vector<Cmd> &cs, int style) {
    string o; char prev = 0; for (auto &k : cs) { bool imp = (style == 3 || style >= 5) && prev && argc_of(k.c) && (prev == k.c ? toupper(k.c) != 'M' : (prev == 'M' && k.c == 'L') || (prev == 'm' && k.c == 'l')); if (!imp) { if (!o.empty() && (style == 0 || style == 3)) o += " "; if (style == 4) o += "\n\t "; o += k.c; }
        for (size_t i = 0; i < k.a.size(); i++) { string n = style == 2 || style >= 5 ? dots(k.a[i]) : nm(k.a[i]); if (style == 6 && n[0] != '-' && !(toupper(k.c) == 'A' && (i % 7 == 3 + 0 || i % 7 == 4))) n = "+" + n; bool first = i == 0 && !imp; if (style == 0 || style == 3) o += " "; else if (style == 1) o += first ? "" : ","; else if (style == 4) o += first ? " \r\n" : i % 2 ? " , " : "\t"; else if (!first) { bool dot = false; size_t p = o.size(); while (p && (isdigit(o[p-1]) || o[p-1] == '.')) if (o[--p] == '.') dot = true; bool flag = toupper(k.c) == 'A' && (i % 7 == 4 || i % 7 == 5) ; if (flag) {} else if (n[0] != '-' && n[0] != '+' && !(n[0] == '.' && dot)) o += " "; } o += n; }
        prev = k.c; }
    return o;
}
static string path(const string &d, const string &more = "") { return "<path d=\"" + d + "\"" + more + "/>"; }
static void paths() {
    static const vector<Cmd> A = {{'L', {9,2}}, {'l', {3,4}}, {'l', {-4,-.5}}, {'H', {8}}, {'h', {-3.5}}, {'V', {9}}, {'v', {.5}}, {'v', {-4}}, {'Z', {}}, {'z', {}}, {'M', {6,1}}, {'m', {2,.5}}, {'C', {3,9,8,8,9,3}}, {'c', {2,-1,4,3,1,5}}, {'S', {9,8,4,9}}, {'s', {-3,1,-5,-2}}, {'Q', {8,9,9,4}}, {'q', {-.5,3,-4,2.5}}, {'T', {1,8}}, {'t', {4,-3}}, {'A', {3,2,30,0,1,7,7}}, {'a', {2.5,4,-20,1,0,3,-2}}, {'a', {1,1,0,0,0,-5,1}}, {'A', {0,4,0,1,1,1,9}}, {'l', {0,0}}};
    int n = (int)A.size(); static const Cmd start = {'M', {2,3}}; auto emit = [&](const vector<int> &ix, int style, const char *end) { if (!mc::next()) return; vector<Cmd> c = {start}; for (int i : ix) c.push_back(A[(size_t)i]); string d = fmt(c, style) + end; plain(path(d), {interpret(c)}, .03); };
    mc::phase("path data: every command, pair and triple of commands"); for (int st = 0; st < 7; st++) { emit({}, st, ""); for (int a = 0; a < n; a++) { emit({a}, st, ""); emit({a}, st, "Z"); for (int b = 0; b < n; b++) { emit({a, b}, st, st % 2 ? "z" : ""); } } }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) { if (!mc::thorough && (a * 7 + b * 3 + c) % 3) continue; emit({a, b, c}, (a + b + c) % 7, ""); }
    if (mc::thorough) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) if ((a + 2 * b + 5 * c + 11 * d) % 8 == 0) emit({a, b, c, d}, (a + b + c + d) % 7, "");
    mc::phase("path data: relative and other first moves, repeated moves, several figures"); static const vector<vector<Cmd>> P = {{{'m', {2,1}}, {'l', {5,0}}, {'l', {0,5}}}, {{'m', {2,1,5,0,0,5}}}, {{'M', {2,1,7,1,7,6}}}, {{'M', {2,1,7,1,7,6}}, {'z', {}}, {'m', {1,2,5,0,0,5}}}, {{'M', {0,0}}, {'h', {10}}, {'v', {10}}, {'h', {-10}}, {'z', {}}, {'M', {2,2}}, {'h', {6}}, {'v', {6}}, {'h', {-6}}}, {{'M', {0,0}}, {'h', {10}}, {'v', {10}}, {'h', {-10}}, {'z', {}}, {'m', {2,2}}, {'v', {6}}, {'h', {6}}, {'v', {-6}}, {'z', {}}, {'m', {1,1}}, {'h', {3}}, {'v', {3}}}, {{'M', {1,1}}, {'M', {3,4}}, {'l', {5,1,-2,5}}}, {{'M', {1,1}}, {'m', {3,4}}, {'l', {5,1,-2,5}}}, {{'M', {5,5}}, {'Z', {}}, {'l', {4,0,0,4}}}, {{'M', {5,5}}, {'z', {}}, {'z', {}}, {'l', {4,0,0,4}}, {'z', {}}, {'l', {-4,0,0,-4}}}, {{'M', {5,5}}, {'l', {4,0,0,4}}, {'z', {}}, {'l', {-4,0,0,-4}}, {'z', {}}, {'H', {1}}, {'V', {9}}}, {{'M', {1,1}}, {'l', {6,0}}, {'M', {2,2}}, {'l', {5,0,0,5}}}, {{'M', {0,0}}, {'L', {5,0,5,5,0,5}}, {'z', {}}, {'M', {5,5}}, {'L', {9,5,9,9,5,9}}, {'z', {}}}, {{'M', {0,0}}, {'L', {10,10,10,0,0,10}}}, {{'M', {5,0}}, {'L', {8,9,0,3,10,3,2,9}}, {'z', {}}}, {{'M', {0,0}}, {'h', {4}}, {'h', {4}}, {'v', {4}}, {'v', {4}}, {'h', {-8}}, {'v', {-4}}}, {{'M', {1,1}}, {'h', {5,-5,5}}, {'v', {5}}}, {{'M', {1,1}}, {'v', {5,-2,1}}, {'h', {5}}}, {{'M', {0,5}}, {'c', {0,-5,5,-5,5,0}}, {'s', {5,5,5,0}}, {'s', {-3,9,-5,4}}}, {{'M', {0,5}}, {'C', {0,0,5,0,5,5,5,9,9,9,9,5}}}, {{'M', {0,5}}, {'q', {2,-5,5,0}}, {'t', {5,0}}, {'t', {-3,6}}}, {{'M', {0,5}}, {'q', {2,-5,5,0,2,5,5,0}}}, {{'M', {0,5}}, {'T', {3,1,9,5,4,9}}}, {{'M', {0,5}}, {'Q', {2,0,5,5}}, {'L', {5,5}}, {'T', {9,9}}}, {{'M', {0,5}}, {'C', {0,0,5,0,5,5}}, {'l', {0,0}}, {'S', {9,9,2,9}}}, {{'M', {0,5}}, {'C', {0,0,5,0,5,5}}, {'a', {3,3,0,0,0,0,0}}, {'S', {9,9,2,9}}}, {{'M', {0,5}}, {'C', {0,0,5,0,5,5}}, {'Q', {5,9,2,9}}, {'S', {0,9,0,7}}, {'T', {1,2}}}};
    for (auto &p : P) for (int st = 0; st < 7; st++) if (mc::next()) plain(path(fmt(p, st)), {interpret(p)}, .03);
    mc::phase("arcs"); for (double rx : {1., 3., 5., 8.}) for (double ry : {2., 5.}) for (double ph : {0., 30., 90., -45., 200., 390.}) for (int fl = 0; fl < 4; fl++) for (int k = 0; k < 6; k++) for (int rel = 0; rel < 2; rel++) { if (!mc::thorough && rel && (k % 2)) continue; if (!mc::next()) continue; static const double E[6][2] = {{6,0},{0,6},{4,3},{-5,2},{10,0},{1,-1}}; vector<Cmd> c = {{'M', {4,4}}, {rel ? 'a' : 'A', {rx, ry, ph, (double)(fl >> 1), (double)(fl & 1), E[k][0] + (rel ? 0 : 4), E[k][1] + (rel ? 0 : 4)}}, {'l', {.5,.25}}}; plain(path(fmt(c, (k + fl) % 6)), {interpret(c)}, .03); }
    for (double s : {-1., 1.}) for (int fl = 0; fl < 4; fl++) for (int st = 0; st < 7; st++) if (mc::next()) { vector<Cmd> c = {{'M', {4,4}}, {'a', {s * 3, -s * 4, 10, (double)(fl >> 1), (double)(fl & 1), 3, 2, 2, 2, 0, (double)(fl & 1), 0, -2, 3}}}; plain(path(fmt(c, st)), {interpret(c)}, .03); }
    mc::phase("path data: spelling of numbers"); { struct N { const char *s; double v; }; static const N num[] = {{"5", 5}, {"5.", 5}, {"5.0", 5}, {"+5", 5}, {".5e1", 5}, {"5e0", 5}, {"50e-1", 5}, {"50E-1", 5}, {".05e+2", 5}, {"0.5E+1", 5}, {"005", 5}, {"5e-0", 5}, {"500e-2", 5}, {"+.5e1", 5}, {"5.00e+00", 5}, {".5", .5}, {"-.5", -.5}, {"-5", -5}, {"-50e-1", -5}, {"1e1", 10}}; for (auto &a : num) for (auto &b : num) { if (!mc::next()) continue; plain(path("M" + string(a.s) + " 1L" + b.s + "," + b.s + " 12 -3"), {{{{a.v, 1}, {b.v, b.v}, {12, -3}}}}); }
      for (auto &a : num) for (auto at : {"x", "y", "width", "height"}) if (mc::next()) { double v[4] = {1, 2, 3, 4}; string s; const char *n4[] = {"x", "y", "width", "height"}; for (int i = 0; i < 4; i++) { bool me = !strcmp(at, n4[i]); if (me) v[i] = a.v; s += string(" ") + n4[i] + "=\"" + (me ? string(a.s) : nm(v[i])) + "\""; } Shape w; if (v[2] > 0 && v[3] > 0) w = {{{v[0], v[1]}, {v[0] + v[2], v[1]}, {v[0] + v[2], v[1] + v[3]}, {v[0], v[1] + v[3]}}}; plain("<rect" + s + "/>", {w}); } }
    mc::phase("path data: errors"); { static const char *junk[] = {"L 1", "L", "Q 1 1 2", "C 1 2 3 4 5", "A 1 1 0 0 1 3", "A 1 1 0 2 1 3 3", "A 1 1 0 x 1 3 3", "H", "V x", "X 1 2", "L 1 x", "L . 1", "L 1e 2 x", "#", "L 1,,2", "&#xe9;", "L -", "L --1 2", "L 0x10 3"}; vector<Cmd> good = {{'M', {1,1}}, {'h', {6}}, {'v', {7}}}; for (auto j : junk) for (int k = 0; k < 3; k++) if (mc::next()) { vector<Cmd> g(good.begin(), good.begin() + 1 + k); plain(path(fmt(g, 0) + " " + j + " L 9 9 L 20 1 Z"), {interpret(g)}, .02, "error:"); } for (const char *d : {"", " ", "M", "M 1", "M 1 2", "Z", "M 1 2 Z", "M 1 2 L 1 2", "M 1 2 L 1 2 Z", "m 0 0 z m 1 1 z", "M1 2H1", "M1 2V2Z", "M 1 2 A 1 1 0 0 0 1 2", "M 1 2 L 3 4", "M 1 2 L 3 4 Z", "M 1 2 L 3 4 L 5 6", "M 1 2 L 3 4 L 1 2 Z", "M1 2C1 2 1 2 1 2", "M1 2Q1 2 1 2Z", "x", "1 2", ","}) if (mc::next()) plain(path(d), {{{{1,2},{3,4},{5,6}}}}, .02, "empty:"); }
}
static Ring rectr(double x, double y, double w, double h) { return {{x,y},{x+w,y},{x+w,y+h},{x,y+h}}; }
static Shape rect(double x, double y, double w, double h, double rx = 0, double ry = 0) { if (!(w > 0 && h > 0)) return {}; if (rx <= 0 || ry <= 0) return {rectr(x, y, w, h)}; rx = std::min(rx, w / 2); ry = std::min(ry, h / 2); Ring r; for (int q = 0; q < 4; q++) { double cx = q == 0 || q == 3 ? x + w - rx : x + rx, cy = q < 2 ? y + h - ry : y + ry; for (int i = 0; i <= 60; i++) { double a = M_PI / 2 * (q + i / 60.); r.push_back({cx + rx * cos(a), cy + ry * sin(a)}); } } return {r}; }
static Shape ell(double cx, double cy, double rx, double ry) { if (!(rx > 0 && ry > 0)) return {}; Ring r; for (int i = 0; i < 400; i++) r.push_back({cx + rx * cos(2 * M_PI * i / 400), cy + ry * sin(2 * M_PI * i / 400)}); return {r}; }
static string attr(const char *n, const string &v) { return v == "-" ? "" : string(" ") + n + "=\"" + v + "\""; }
static void shapes() {
    mc::phase("basic shapes"); auto num = [](const string &s) { return s == "-" || s == "auto" ? 0. : strtod(s.c_str(), 0); };
    for (auto x : {"-", "0", "3", "-2.5"}) for (auto y : {"-", "0", "4"}) for (auto w : {"-", "0", "5", "-1"}) for (auto h : {"7", "-", "0"}) for (auto rx : {"-", "auto", "0", "1", "2", "9"}) for (auto ry : {"-", "auto", "0", "1.5", "9"}) { if (!(*w == '5' && *h == '7') && (*rx != '-' || *ry != '-')) continue; if (!mc::next()) continue; double a = num(rx), b = num(ry); bool ax = !isdigit(*rx), ay = !isdigit(*ry); if (ax) a = b; else if (ay) b = a; plain("<rect" + attr("x", x) + attr("y", y) + attr("width", w) + attr("height", h) + attr("rx", rx) + attr("ry", ry) + "/>", {rect(num(x), num(y), num(w), num(h), a, b)}); }
    for (auto x : {"-", "0", "3", "-2.5"}) for (auto y : {"-", "0", "4"}) { for (auto r : {"-", "0", "2", "-1"}) if (mc::next()) plain("<circle" + attr("cx", x) + attr("cy", y) + attr("r", r) + "/>", {ell(num(x), num(y), num(r), num(r))}); for (auto rx : {"-", "auto", "0", "2", "-1"}) for (auto ry : {"-", "auto", "0", "3"}) if (mc::next()) { double a = num(rx), b = num(ry); if (!strchr("-a", *rx) || rx[1] == '1') { if (strchr("-a", *ry)) b = a; } else a = b; plain("<ellipse" + attr("cx", x) + attr("cy", y) + attr("rx", rx) + attr("ry", ry) + "/>", {ell(num(x), num(y), a, b)}); } }
    for (auto el : {"polygon", "polyline"}) for (auto pt : {"0,0 5,0 5,5", "0 0 5 0 5 5", "0,0,5,0,5,5,1,4", " 0,0\n5,0\t5,5 ", "1-1 5-.5.5 6", "0,0 9,9 9,0 0,9", "5,0 8,9 0,3 10,3 2,9", "0,0 5,0 5,5 0,5 0,0 2,2 2,3 3,3 2,2", "", "1", "1 2", "1 2 3 4", "1 2 1 2 1 2", "0,0 4,0 8,0", "0,0 5,0 5,5 9", "0,0 5,0 5,5 x 3 4", "0,0 5,0 5,5 1 x", "1 2 3"}) if (mc::next()) { vector<double> v; const char *p = pt; for (;;) { while (*p && (isspace(*p) || *p == ',')) p++; char *e; double d = strtod(p, &e); if (e == p) break; v.push_back(d); p = e; } Ring r; for (size_t i = 0; i + 1 < v.size(); i += 2) r.push_back({v[i], v[i+1]}); string s = string("<") + el + " points=\"" + pt + "\"/>"; if (!strcmp(pt, "1-1 5-.5.5 6")) r = {{1,-1},{5,-.5},{.5,6}}; plain(s, {{r}}); }
    for (auto l : {"<line x1=\"1\" y1=\"2\" x2=\"5\" y2=\"6\"/>", "<line/>", "<line x1=\"1\" y1=\"2\" x2=\"1\" y2=\"2\"/>", "<line x1=\"1\"/>", "<path/>", "<polygon/>", "<polyline/>", "<rect/>", "<circle/>", "<ellipse/>", "<g/>", "<svg/>", "", "text", "<text>x</text>"}) if (mc::next()) plain(string(l) + "<rect width=\"3\" height=\"2\"/>", {rect(0,0,3,2), {{{1,2},{5,6}}}}, .02, "empty:");
    mc::phase("several shapes are united, each by itself even-odd"); static const vector<std::pair<string,Shape>> S = {{"<rect x=\"1\" y=\"1\" width=\"6\" height=\"4\"/>", rect(1,1,6,4)}, {"<rect x=\"3\" y=\"0\" width=\"3\" height=\"7\"/>", rect(3,0,3,7)}, {"<circle cx=\"6\" cy=\"5\" r=\"2.5\"/>", ell(6,5,2.5,2.5)}, {"<path d=\"M0 0H8V8H0ZM2 2H6V6H2Z\"/>", {rectr(0,0,8,8), rectr(2,2,4,4)}}, {"<polygon points=\"5,0 8,9 0,3 10,3 2,9\"/>", {{{5,0},{8,9},{0,3},{10,3},{2,9}}}}, {"<ellipse cx=\"2\" cy=\"7\" rx=\"4\" ry=\"1\"/>", ell(2,7,4,1)}, {"<path d=\"M0 0H4V4H0ZM4 4H8V8H4Z\"/>", {rectr(0,0,4,4), rectr(4,4,4,4)}}};
    for (auto &a : S) for (auto &b : S) { if (mc::next()) plain(a.first + b.first, {a.second, b.second}); for (auto &c : S) { if (mc::next()) plain(a.first + "<g>" + b.first + "</g>\n" + c.first, {a.second, b.second, c.second}); } }
}
// ---- transformations -----------------------------------------------------------------------------
struct T { string s; M2 m; };
static M2 rot(double a) { return {cosd(a), sind(a), -sind(a), cosd(a), 0, 0}; }
static const vector<T> &xfs() { static const vector<T> v = {{"translate(3)", xl(3,0)}, {"translate(3,-2)", xl(3,-2)}, {"translate( 1 , 4 )", xl(1,4)}, {"translate(-1 2)", xl(-1,2)}, {"scale(2)", sc(2,2)}, {"scale(1.5,-.5)", sc(1.5,-.5)}, {"scale(-1 1)", sc(-1,1)}, {"rotate(90)", rot(90)}, {"rotate(-30)", rot(-30)}, {"rotate(45,5,5)", mul2(xl(5,5), mul2(rot(45), xl(-5,-5)))}, {"rotate(120 1 -2)", mul2(xl(1,-2), mul2(rot(120), xl(-1,2)))}, {"skewX(30)", {1,0,tan(M_PI/6),1,0,0}}, {"skewY(-20)", {1,tan(-M_PI/9),0,1,0,0}}, {"matrix(1 2 3 -4 5 6)", {1,2,3,-4,5,6}}, {"matrix(.5,0,0,.5,-1,0)", {.5,0,0,.5,-1,0}}, {"rotate(1e1)", rot(10)}, {"translate (2e0,3)", xl(2,3)}, {"rotate(360)", M2{}}, {"translate(0)", M2{}}}; return v; }
static void transforms() {
    const Shape base = {{{1,1},{5,1},{5,2},{2,2},{2,4},{1,4}}}; string el = "<path d=\"M1 1H5V2H2V4H1Z\""; auto &X = xfs();
    mc::phase("transformations: every one and every pair in every place"); auto at = [&](int place, const string &t, const string &u) { string a = t.empty() ? "" : " transform=\"" + t + "\"", b = u.empty() ? "" : " transform=\"" + u + "\""; return place == 0 ? el + (t + u == "" ? "" : " transform=\"" + t + u + "\"") + "/>" : place == 1 ? "<g" + a + ">" + el + b + "/></g>" : place == 2 ? "<g" + a + "><g" + b + ">" + el + "/></g></g>" : place == 3 ? "<svg" + a + ">" + el + b + "/></svg>" : "<foo" + a + "><g>" + el + b + "/></g></foo>"; };
    for (auto &a : X) for (int p = 0; p < 5; p++) { if (mc::next()) plain(at(p, a.s, ""), {ap(a.m, base)}); if (mc::next()) { judge("<svg " + string(NS) + " transform=\"" + a.s + "\">" + at(p, "", "") + "</svg>", {ap(mul2(FLIP, a.m), base)}); } }
    for (auto &a : X) for (auto &b : X) for (int p = 0; p < 5; p++) for (const char *sep : {" ", "", ",", " , \n"}) { if (p && *sep != ' ') continue; if (mc::next()) plain(at(p, a.s + (p ? "" : sep), b.s), {ap(mul2(a.m, b.m), base)}, .03); }
    for (auto &a : X) for (auto &b : X) for (auto &c : X) { if (!mc::thorough && (&a - &X[0] + 3 * (&b - &X[0]) + 5 * (&c - &X[0])) % 5) continue; M2 m = mul2(a.m, mul2(b.m, c.m)); Shape w = ap(m, base); double big = 0; for (auto &p : w[0]) big = std::max({big, fabs(p.x), fabs(p.y)}); if (big > 400) continue; if (mc::next()) plain("<g transform=\"" + a.s + "\"><g transform=\"" + b.s + "\">" + el + " transform=\"" + c.s + "\"/></g>" + el + "/></g>", {w, ap(a.m, base)}, .03); }
    for (auto s : {"scale(0)", "scale(1,0)", "matrix(0 0 0 0 0 0)", "matrix(1 1 1 1 0 0)", "matrix(0 0 0 0 3 3)", "scale(0) rotate(30)", "rotate(30)scale(0,1)"}) for (int p = 0; p < 5; p++) if (mc::next()) { M2 z; string q = s; if (q == "scale(1,0)") z = sc(1,0); else if (q == "matrix(1 1 1 1 0 0)") z = {1,1,1,1,0,0}; else if (q == "matrix(0 0 0 0 3 3)") z = {0,0,0,0,3,3}; else if (q[0] == 'r') z = mul2(rot(30), sc(0,1)); else z = sc(0,0); Shape w = ap(z, base); plain(at(p, s, "") + "<rect x=\"10\" width=\"2\" height=\"3\"/>", {w, rect(10,0,2,3)}, .02, "singular:"); }
    mc::phase("transformations: invalid ones"); for (auto s : {"", " ", "translate", "translate(", "translate()", "translate(1", "translate(1,2,3)", "t(5)", "s(2)", "tran(5,5)", "skew(30)", "sc(3)", "matr(2 0 0 2 0 0)", "rot(30)", "foo(3)", "(3)", "123", "matrix(1 2 3 4 5 6 7)", "rotate(1,2,3,4)", "skewX(1,2)", ")", "&#xe9;(1)", "scale(x)", "scalex(2)", "translatex(2)", "rotate3(3)", "TRANSLATE(3)", "skewx(30)"}) if (mc::next()) { plain(el + " transform=\"" + s + "\"/>", {base}, .02, "invalid:"); }
    mc::phase("transformations outside of the import"); struct O { const char *s; M2 m; }; static const O out[] = {{"translate([3,-2])", xl(3,-2)}, {"rotate(30)", rot(30)}, {"scale([2,.5])", sc(2,.5)}, {"mirror([1,0])", sc(-1,1)}, {"multmatrix([[1,.5,0,2],[0,1,0,3],[0,0,1,0],[0,0,0,1]])", {1,0,.5,1,2,3}}}; for (auto &o : out) for (auto &b : X) for (auto &o2 : out) if (mc::next()) { string svg = "<svg " + string(NS) + ">" + at(0, b.s, "") + "</svg>"; spit(scr("f.svg"), svg); string s = "linear_extrude(1)" + string(o.s) + o2.s + "import(\"f.svg\");"; mc::desc_s(s + " with f.svg: " + svg); judge_scad(s, {ap(mul2(mul2(o.m, o2.m), mul2(FLIP, b.m)), base)}, .03); }
}
// ---- viewports -------------------------------------------------------------------------------------
static bool par(const string &p, double vx, double vy, double vw, double vh, double ew, double eh, M2 &m) { double sx = ew / vw, sy = eh / vh, ax = .5, ay = .5; bool none = p.find("none") != string::npos; if (!none) { sx = sy = p.find("slice") != string::npos ? std::max(sx, sy) : std::min(sx, sy); if (p.find("xMin") != string::npos) ax = 0; if (p.find("xMax") != string::npos) ax = 1; if (p.find("YMin") != string::npos) ay = 0; if (p.find("YMax") != string::npos) ay = 1; } else ax = ay = 0; m = {sx,0,0,sy, ax * (ew - vw*sx) - vx*sx, ay * (eh - vh*sy) - vy*sy}; return true; }
static const char *PAR[] = {"", "none", "xMinYMin", "xMidYMid", "xMaxYMax", "xMinYMax meet", "xMaxYMin slice", "xMidYMin meet", "xMidYMax slice", "xMidYMid slice", "xMinYMid", "defer xMaxYMid"};
static void viewports() {
    struct U { const char *u; double mm; }; static const U un[] = {{"", 0}, {"px", 25.4/96}, {"mm", 1}, {"cm", 10}, {"in", 25.4}, {"pt", 25.4/72}, {"pc", 25.4/6}};
    const Shape sh = {{{1,2},{9,2},{9,5},{4,5},{4,7},{1,7}}}; string el = "<path d=\"M1 2H9V5H4V7H1Z\"/>";
    mc::phase("top level: viewBox, size, unit, dpi, alignment, centering");
    for (int vb = 0; vb < 5; vb++) for (auto &u : un) for (int k = 0; k < 5; k++) for (auto pr : PAR) for (int dp = 0; dp < 3; dp++) for (int ce = 0; ce < 2; ce++) {
        static const double VB[5][4] = {{0,0,0,0}, {0,0,10,8}, {0,0,20,8}, {3,-2,10,8}, {-5,1,10,16}}; static const double SZ[5][2] = {{0,0}, {20,16}, {40,16}, {20,32}, {30,0}};
        bool has = vb > 0, size = SZ[k][0] > 0 && SZ[k][1] > 0; if (*pr && !(has && size)) continue; if (!size && *u.u && k == 0) continue; if (!size && (VB[vb][0] != 0 || VB[vb][1] != 0)) continue; if (!mc::thorough && *pr && dp && ce == 0) continue; if (!mc::next()) continue;
        double dpi = dp == 0 ? 72 : dp == 1 ? 96 : 25.4, unit = *u.u ? u.mm : 25.4 / dpi, w = SZ[k][0] * unit, h = SZ[k][1] * unit; double f = *u.u == 'c' || *u.u == 'i' ? .1 : 1; w *= f; h *= f; const double *V = VB[vb]; M2 m; 
        if (!has) m = FLIP; else { double W, H; M2 a; if (size) { par(pr, V[0], V[1], V[2], V[3], w, h, a); W = w; H = h; } else { double s = 25.4 / dpi; a = sc(s, s); W = V[2] * s; H = V[3] * s; } m = mul2(mul2(ce ? xl(-W/2, -H/2) : M2{}, mul2(xl(0, H), FLIP)), a); if (ce && size && fabs(W * V[3] - H * V[2]) > 1e-9 && !(string(pr).find("xMid") != string::npos && string(pr).find("YMid") != string::npos) && *pr && string(pr) != "none") continue; }
        string svg = "<svg " + string(NS) + (has ? mc::strf(" viewBox=\"%g %g %g %g\"", V[0], V[1], V[2], V[3]) : "") + (SZ[k][0] > 0 ? " width=\"" + nm(SZ[k][0] * f) + u.u + "\"" : "") + (SZ[k][1] > 0 ? " height=\"" + nm(SZ[k][1] * f) + u.u + "\"" : "") + (*pr ? " preserveAspectRatio=\"" + string(pr) + "\"" : "") + ">" + el + "</svg>";
        judge(svg, {ap(m, sh)}, .02, string(dp ? ",dpi=" + nm(dpi) : "") + (ce ? ",center=true" : ""), ce ? "center:" : ""); }
    mc::phase("nested svg elements"); for (int vb = 0; vb < 4; vb++) for (int k = 0; k < 5; k++) for (auto pr : PAR) for (int xy = 0; xy < 4; xy++) for (int outer = 0; outer < 3; outer++) { static const double VB[4][4] = {{0,0,0,0}, {0,0,10,8}, {3,-2,10,8}, {-5,1,20,8}}; static const double SZ[5][2] = {{0,0}, {20,16}, {40,16}, {20,32}, {0,12}}; if (*pr && !vb) continue; double W = SZ[k][0], H = SZ[k][1]; if (outer == 0 && vb && (W == 0 || H == 0)) continue; if (!mc::next()) continue; double x = xy & 1 ? 3 : 0, y = xy & 2 ? -4 : 0; M2 a; double ow = 30, oh = 20; if (W == 0) W = ow; if (H == 0) H = oh; if (vb) par(pr, VB[vb][0], VB[vb][1], VB[vb][2], VB[vb][3], W, H, a); 
        string in = "<svg" + (xy & 1 ? string(" x=\"3\"") : "") + (xy & 2 ? string(" y=\"-4\"") : "") + (vb ? mc::strf(" viewBox=\"%g,%g %g , %g\"", VB[vb][0], VB[vb][1], VB[vb][2], VB[vb][3]) : "") + (SZ[k][0] > 0 ? " width=\"" + nm(SZ[k][0]) + "\"" : "") + (SZ[k][1] > 0 ? " height=\"" + nm(SZ[k][1]) + "\"" : "") + (*pr ? " preserveAspectRatio=\"" + string(pr) + "\"" : "") + ">" + el + "</svg>";
        M2 i = mul2(xl(x, y), a), o; string svg; if (outer == 0) { svg = "<svg " + string(NS) + ">" + in + "</svg>"; o = FLIP; } else if (outer == 1) { svg = "<svg " + string(NS) + " viewBox=\"0 0 30 20\" width=\"30mm\" height=\"20mm\"><g>" + in + "</g></svg>"; o = mul2(xl(0,20), FLIP); } else { svg = "<svg " + string(NS) + " viewBox=\"0 0 30 20\"><g transform=\"translate(1,2)\">" + in + "</g></svg>"; o = mul2(sc(25.4/72, 25.4/72), mul2(mul2(xl(0,20), FLIP), xl(1,2))); } judge(svg, {ap(mul2(o, i), sh)}, .02); }
    mc::phase("units and percentages"); for (auto &u : un) for (auto &v : un) for (int where = 0; where < 4; where++) if (mc::next()) { auto px = [](const U &q) { return *q.u ? q.mm * 96 / 25.4 : 1.; }; double s = .25, a = 8 / px(u), b = 12 / px(v); string A = mc::strf("%.9g%s", a, u.u), B = mc::strf("%.9g%s", b, v.u); string e; Shape w; if (where == 0) { e = "<rect x=\"" + A + "\" y=\"" + B + "\" width=\"9\" height=\"7\"/>"; w = rect(8,12,9,7); } else if (where == 1) { e = "<rect width=\"" + A + "\" height=\"" + B + "\" rx=\"" + A + "\"/>"; w = rect(0,0,8,12,4,6); w = rect(0,0,8,12,std::min(8.,4.),std::min(8.,6.)); } else if (where == 2) { e = "<circle cx=\"" + A + "\" r=\"" + B + "\"/>"; w = ell(8,0,12,12); } else { e = "<ellipse cy=\"" + B + "\" rx=\"" + A + "\" ry=\"" + B + "\"/>"; w = ell(0,12,8,12); } (void)s; plain(e, {w}, .04); }
    for (int o = 0; o < 3; o++) for (int n = 0; n < 3; n++) for (int e = 0; e < 6; e++) if (mc::next()) { double W = 40, H = 20; M2 i; string pre, post; if (n == 1) { pre = "<svg x=\"10%\" y=\"10%\" width=\"50%\" height=\"50%\">"; post = "</svg>"; i = xl(W*.1, H*.1); W *= .5; H *= .5; } if (n == 2) { pre = "<svg width=\"50%\" height=\"50%\" viewBox=\"0 0 10 5\">"; post = "</svg>"; i = sc(W*.5/10, H*.5/5); W = 10; H = 5; }
        string s; Shape w; double d = sqrt((W*W + H*H) / 2); switch (e) { case 0: s = "<rect width=\"100%\" height=\"50%\"/>"; w = rect(0,0,W,H/2); break; case 1: s = "<rect x=\"25%\" y=\"50%\" width=\"50%\" height=\"25%\"/>"; w = rect(W/4,H/2,W/2,H/4); break; case 2: s = "<circle cx=\"50%\" cy=\"50%\" r=\"20%\"/>"; w = ell(W/2,H/2,d*.2,d*.2); break; case 3: s = "<ellipse cx=\"50%\" cy=\"50%\" rx=\"20%\" ry=\"40%\"/>"; w = ell(W/2,H/2,W*.2,H*.4); break; case 4: s = "<rect width=\"100%\" height=\"100%\" rx=\"10%\"/>"; w = rect(0,0,W,H,W*.1,W*.1); break; default: s = "<ellipse cx=\"10%\" rx=\"auto\" ry=\"10%\"/>"; w = ell(W*.1,0,H*.1,H*.1); }
        M2 om; string head; if (o == 0) { head = " viewBox=\"0 0 40 20\" width=\"40mm\" height=\"20mm\""; om = mul2(xl(0,20), FLIP); } else if (o == 1) { head = " viewBox=\"0 0 40 20\""; om = mul2(sc(25.4/72, 25.4/72), mul2(xl(0,20), FLIP)); } else { head = " viewBox=\"0 0 40 20\" width=\"100%\" height=\"100%\""; om = mul2(sc(25.4/72, 25.4/72), mul2(xl(0,20), FLIP)); }
        judge("<svg " + string(NS) + head + ">" + pre + s + post + "</svg>", {ap(mul2(om, i), w)}, .04); }
}
// ---- structure and layers ----------------------------------------------------------------------------
static void structure() {
    mc::phase("layers"); // every placement of ids over a tree of four elements, with and without transformations
    static const char *ID[] = {"", "a", "b"}; for (int k = 0; k < 81 * 4; k++) for (const char *lay : {"a", "b", "none", ""}) for (int kind = 0; kind < 2; kind++) { int xf = k / 81, q = k % 81; int id[4] = {q % 3, q / 3 % 3, q / 9 % 3, q / 27}; if (!mc::next()) continue; auto A = [&](int i) { return (id[i] ? string(" id=\"") + ID[id[i]] + "\"" : "") + ((xf >> (i % 2) & 1) ? " transform=\"translate(0,1)\"" : ""); }; auto on = [&](std::initializer_list<int> chain) { if (!*lay) return true; for (int i : chain) if (id[i] && !strcmp(ID[id[i]], lay)) return true; return false; }; double t0 = xf & 1, t1 = xf >> 1 & 1;
        string svg = "<svg " + string(NS) + "><" + (kind ? "svg" : "g") + A(0) + "><rect width=\"2\" height=\"2\"" + A(1) + "/><g" + A(2) + "><rect x=\"4\" width=\"2\" height=\"2\"" + A(3) + "/></g></" + (kind ? "svg" : "g") + "><rect x=\"8\" width=\"2\" height=\"2\"/></svg>"; vector<Shape> w; if (on({0,1})) w.push_back(ap(FLIP, rect(0, t0 + t1, 2, 2))); if (on({0,2,3})) w.push_back(ap(FLIP, rect(4, t0 + t0 + t1, 2, 2))); if (on({})) w.push_back(ap(FLIP, rect(8,0,2,2))); judge(svg, w, .02, string(",layer=\"") + lay + "\"", "layer:"); }
    for (int c = 1; c < 256; c++) for (int k = 0; k < 3; k++) { if ((c < 32 && c != 9 && c != 10 && c != 13) || (c == 'y' && k == 2)) continue; if (!mc::next()) continue; // every character in a name, as it is and as an escape, next to names that differ by it
        string u = c < 128 ? string(1, (char)c) : mc::strf("%c%c", 0xc0 | c >> 6, 0x80 | (c & 63)), e = k != 1 ? u : c == 9 ? "\\t" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == '"' || c == '\\' ? "\\" + u : ""; if (e.empty() || (k != 1 && (c == '"' || c == '\\'))) continue;
        judge("<svg " + string(NS) + "><rect id=\"xy\" width=\"9\" height=\"9\"/><rect id=\"x&#" + mc::strf("%d", c) + ";y\" width=\"1\" height=\"2\"/><rect id=\"x&#" + mc::strf("%d", c) + ";\" width=\"7\" height=\"7\"/><rect id=\"" + (c == 'x' ? "z" : "x") + "\" width=\"8\" height=\"8\"/></svg>", {ap(FLIP, k == 2 ? rect(0,0,7,7) : rect(0,0,1,2))}, .02, ",layer=\"x" + e + (k == 2 ? "\"" : "y\""), "layer:"); }
    if (mc::next()) judge("<svg " + string(NS) + " id=\"a\"><rect width=\"2\" height=\"2\"/></svg>", {ap(FLIP, rect(0,0,2,2))}, .02, ",layer=\"a\"", "layer:");
    mc::phase("elements"); static const char *rec[] = {"g", "foo", "a", "text", "svg", "clipPath", "gg", "rects", "G"}, *nor[] = {"title", "desc", "metadata", "style", "defs", "use", "symbol", "switch", "marker", "image", "foreignObject"}; string rc = "<rect width=\"3\" height=\"2\"/>", rc2 = "<rect x=\"5\" width=\"1\" height=\"4\"/>"; Shape A = rect(0,0,3,2), B = rect(5,0,1,4);
    for (auto e : rec) for (auto f : rec) if (mc::next()) plain("<" + string(e) + "><" + f + ">" + rc + "</" + f + "></" + e + ">" + rc2, {A, B}, .02, "elements:"); for (auto e : nor) for (auto f : rec) { if (mc::next()) plain("<" + string(e) + "><" + f + ">" + rc + "</" + f + "></" + e + ">" + rc2, {B}, .02, "elements:"); if (mc::next()) plain("<" + string(f) + "><" + e + ">" + rc + "</" + e + ">" + rc2 + "</" + f + ">", {B}, .02, "elements:"); }
    mc::phase("name spaces"); struct D { const char *s; bool a, b; }; static const D docs[] = {{"<svg>@A@B</svg>", true, true}, {"<svg xmlns=\"http://www.w3.org/2000/svg\">@A@B</svg>", true, true}, {"<?xml version=\"1.0\"?><s:svg xmlns:s=\"http://www.w3.org/2000/svg\"><s:rect width=\"3\" height=\"2\"/>@B</s:svg>", true, true}, {"<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:o=\"other\"><o:g>@A</o:g>@B</svg>", false, true}, {"<svg xmlns=\"http://www.w3.org/2000/svg\"><g xmlns=\"other\">@A</g>@B</svg>", false, true}, {"<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:i=\"ink\" i:version=\"1\" width=\"1\" version=\"1.1\"><i:view/>@A<g i:label=\"x\">@B</g></svg>", true, true}, {"\xef\xbb\xbf<svg xmlns=\"http://www.w3.org/2000/svg\">@A@B</svg>", true, true}, {"<?xml version='1.0' encoding=\"UTF-8\" standalone=\"no\"?>\n<!-- Created -->\n<!DOCTYPE svg>\n<svg xmlns=\"http://www.w3.org/2000/svg\" xml:space=\"preserve\">\n<!-- c -->@A\n@B <!-- d --></svg>\n", true, true}, {"<!-- c --><svg>@A@B</svg>", true, true}, {"\n<svg>@A@B</svg>", true, true}, {" \t\r\n<svg>@A@B</svg>", true, true}, {"\xef\xbb\xbf\n <!-- c -->\n<svg>@A@B</svg>", true, true}, {"<s:svg xmlns:s=\"http://www.w3.org/2000/svg\"><s:rect width=\"3\" height=\"2\"/>@B</s:svg>", true, true}, {"\n<long:svg\nxmlns:long=\"http://www.w3.org/2000/svg\" >@A<long:rect width=\"3\" height=\"2\"/>@B</long:svg>", true, true}, {"<!DOCTYPE svg><svg>@A@B</svg>", true, true}, {"<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:i=\"ink\"><rect i:x=\"9\" width=\"3\" height=\"2\" i:width=\"7\"/>@B</svg>", true, true}}; for (auto &d : docs) if (mc::next()) { string s = d.s; for (auto &pr : {std::make_pair(string("@A"), rc), std::make_pair(string("@B"), rc2)}) for (size_t p; (p = s.find(pr.first)) != string::npos;) s.replace(p, 2, pr.second); vector<Shape> w; if (d.a) w.push_back(ap(FLIP, A)); if (d.b) w.push_back(ap(FLIP, B)); judge(s, w, .02, "", "ns:"); }
    mc::phase("$fn"); for (int fn = 3; fn <= 40; fn++) for (int k = 0; k < 2; k++) if (mc::next()) { Ring r; for (int i = 0; i < fn; i++) r.push_back({4 + 3 * cosd(360. * i / fn), -2 - (k ? 3 : 5) * sind(360. * i / fn)}); judge("<svg " + string(NS) + ">" + (k ? "<circle cx=\"4\" cy=\"2\" r=\"3\"/>" : "<ellipse cx=\"4\" cy=\"2\" rx=\"3\" ry=\"5\"/>") + "</svg>", {{r}}, .002, ",$fn=" + std::to_string(fn), "fn:"); }
}
void mc_main() {
#ifndef ONLY
    paths(); shapes(); transforms(); viewports(); structure();
#endif
}
