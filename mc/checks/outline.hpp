// outlines of sections and their comparison
#pragma once
#include "../scad.hpp"
#include <map>
typedef std::pair<Pt,Pt> Ed;
static bool outline(const Layer &l, vector<Ed> &o, double &area, string &why) {
    area = 0; std::map<std::array<double,4>, int> m; for (auto &t : l.bot) { area += ((t[1].x - t[0].x) * (t[2].y - t[0].y) - (t[2].x - t[0].x) * (t[1].y - t[0].y)) / 2; for (int i = 0; i < 3; i++) { Pt a = t[(size_t)i], b = t[(size_t)(i + 1) % 3]; std::array<double,4> k = {a.x, a.y, b.x, b.y}, q = {b.x, b.y, a.x, a.y}; auto it = m.find(q); if (it != m.end()) { if (!--it->second) m.erase(it); } else m[k]++; } }
    area = fabs(area); for (auto &e : m) for (int i = 0; i < e.second; i++) o.push_back({{e.first[0], e.first[1]}, {e.first[2], e.first[3]}}); (void)why; return true;
}
static double dist(Pt p, const Ed &e) { double dx = e.second.x - e.first.x, dy = e.second.y - e.first.y, l = dx * dx + dy * dy, t = l > 0 ? ((p.x - e.first.x) * dx + (p.y - e.first.y) * dy) / l : 0; t = std::max(0., std::min(1., t)); return hypot(p.x - e.first.x - t * dx, p.y - e.first.y - t * dy); }
struct Sec { vector<Ed> o; double area = 0; };
// Membership near p differs at a point that is not close to an outline?  (Slivers as thin as the grid may come and go.)
static bool inside(const Sec &s, Pt p) { bool r = false; for (auto &e : s.o) if ((e.first.y > p.y) != (e.second.y > p.y) && p.x < e.first.x + (e.second.x - e.first.x) * (p.y - e.first.y) / (e.second.y - e.first.y)) r = !r; return r; }
static bool differ(const Sec &x, const Sec &y, Pt p, double tol) {
    for (double k : {.4, .8, 1.6}) for (int i = 0; i < 24; i++) { Pt q = {p.x + k * tol * cos(i * .2618 + .1), p.y + k * tol * sin(i * .2618 + .1)}; double m = 1e99; for (auto &e : x.o) m = std::min(m, dist(q, e)); for (auto &e : y.o) m = std::min(m, dist(q, e)); if (m > tol / 16 && inside(x, q) != inside(y, q)) return true; }
    return false;
}
// sections x (reference) and y, number i of a model
static bool same_section(const Sec &x, const Sec &y, double tol, const string &cls, size_t i) {
    mc::trans(); double per = 0; for (auto &e : x.o) per += hypot(e.first.x - e.second.x, e.first.y - e.second.y);
    if (x.o.empty() != y.o.empty() && std::max(x.area, y.area) > 2 * tol) { mc::fail(cls + ":missing", "section %zu: %s", i, x.o.empty() ? "not empty" : "empty"); return false; }
    if (fabs(x.area - y.area) > tol * (per + 1)) { mc::fail(cls + ":area", "section %zu: area %.9g, not %.9g", i, y.area, x.area); return false; }
    for (int d = 0; d < 2; d++) { const Sec &p = d ? y : x, &q = d ? x : y; for (auto &e : p.o) { double m = 1e99; for (auto &f : q.o) m = std::min(m, dist(e.first, f)); if (m > tol && differ(x, y, e.first, tol)) { mc::fail(cls + ":outline", "section %zu: corner (%.9g,%.9g) %s", i, e.first.x, e.first.y, d ? "should not be there" : "is missing"); return false; } } }
    mc::state(mc::hash(mc::strf("%zu %zu %.3f", x.o.size(), y.o.size(), x.area))); return true;
}
