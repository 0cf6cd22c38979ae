// convex polyhedra and boxes
#pragma once
struct Body { string text; std::function<bool(V)> in; vector<V> pts; };
// convex polyhedron
static Body poly(const vector<V> &p, const vector<vector<int>> &f) {
    struct H { V n; double d; }; vector<H> hs; V c = {0,0,0}; for (auto &q : p) { c.x += q.x / (double)p.size(); c.y += q.y / (double)p.size(); c.z += q.z / (double)p.size(); }
    for (auto &g : f) { V a = p[(size_t)g[0]], b = p[(size_t)g[1]], d = p[(size_t)g[2]]; V u = {b.x-a.x, b.y-a.y, b.z-a.z}, v = {d.x-a.x, d.y-a.y, d.z-a.z}; V n = {u.y*v.z-u.z*v.y, u.z*v.x-u.x*v.z, u.x*v.y-u.y*v.x}; double k = n.x*a.x + n.y*a.y + n.z*a.z; if (n.x*c.x + n.y*c.y + n.z*c.z > k) { n = {-n.x,-n.y,-n.z}; k = -k; } hs.push_back({n, k}); }
    string s = "polyhedron(points=["; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + v3(p[i].x, p[i].y, p[i].z); s += "],faces=["; for (size_t i = 0; i < f.size(); i++) { s += i ? ",[" : "["; for (size_t j = 0; j < f[i].size(); j++) s += (j ? "," : "") + std::to_string(f[i][j]); s += "]"; } s += "])";
    return {s, [=](V q) { for (auto &h : hs) if (h.n.x*q.x + h.n.y*q.y + h.n.z*q.z >= h.d) return false; return true; }, p};
}
static vector<V> box(double a, double b, double c, double d, double e, double f) { vector<V> v; for (int i = 0; i < 8; i++) v.push_back({i & 1 ? d : a, i & 2 ? e : b, i & 4 ? f : c}); return v; }
