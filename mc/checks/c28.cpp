// C28: included and imported files are found relative to the file that names them.
#include "../scad.hpp"
static const char *DIRS[] = {"", "a", "a/b", "c", "a/x y"};
static string at(int d, const string &f) { return DIRS[d][0] ? string(DIRS[d]) + "/" + f : f; }
static vector<string> parts(const string &s) { vector<string> v; string c; for (char x : s) if (x == '/') { v.push_back(c); c = ""; } else c += x; if (!c.empty()) v.push_back(c); return v; }
// path from directory a to a file in directory b
static string rel(int a, int b, const string &f, int form) {
    if (form == 3) return scr(at(b, f)); auto p = parts(DIRS[a]), q = parts(DIRS[b]); size_t i = 0; if (form != 2) while (i < p.size() && i < q.size() && p[i] == q[i]) i++;
    string sep = form == 4 ? "//" : "/", s = form == 1 ? "./" : form == 2 && p.empty() ? "a/../" : ""; for (size_t k = i; k < p.size(); k++) s += ".." + sep; for (; i < q.size(); i++) s += q[i] + sep; return s + (form == 4 ? "./" : "") + f;
}
static void dirs() { for (auto d : DIRS) if (*d) { string s = scr(d); if (mkdir(s.c_str(), 0700) && errno != EEXIST) mc::harness_error("mkdir %s", s.c_str()); } }
static Res last;
static bool out(const string &main, const char *opt, string &o) { unlink(scr("o.out").c_str()); vector<string> a = {"-q", "--step=.5"}; bool dump = !strncmp(opt, "--dump", 6); if (dump) a.push_back(opt); a.push_back(main); a.push_back("-o"); a.push_back(dump ? "o.out.scad" : "o.out.stl"); string f = scr(a.back()); unlink(f.c_str()); last = run(a); o = slurp(f); if (dump && o.empty()) o = last.so; return last.ok(); }
static std::map<string,string> memo;
static const string &ref(const string &text, const char *opt) { auto k = string(opt) + text; auto i = memo.find(k); if (i != memo.end()) return i->second; spit(scr("ref.scad"), text); string o; if (!out("ref.scad", opt, o)) o = last.rejected() ? "rejected" : "?" + last.how(); return memo[k] = o; }
static void same(const string &main, const string &inl, const char *opt) { const string &w = ref(inl, opt); string o; bool ok = out(main, opt, o); mc::trans(); mc::state(mc::hash(w)); if (w == "rejected" ? !last.rejected() : !ok) { mc::fail(ok ? "accepted" : site(last), "%s: %s; the inlined text: %s", last.how().c_str(), last.err.substr(0, 400).c_str(), w.substr(0, 100).c_str()); return; } if (w != "rejected" && o != w) mc::fail("different", "output differs from that of the inlined text\n--- got\n%s\n--- expected\n%s", o.substr(0, 400).c_str(), w.substr(0, 400).c_str()); }
static void stlbox(const string &f, double x, double y, double z) { string s = "solid b\n"; static const int q[6][4] = {{3,2,1,0},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; double P[8][3]; for (int i = 0; i < 8; i++) { int k = i % 4; P[i][0] = k == 1 || k == 2 ? x : 0; P[i][1] = k > 1 ? y : 0; P[i][2] = i > 3 ? z : 0; } for (auto &f4 : q) for (int t = 0; t < 2; t++) { s += "facet normal 0 0 0\nouter loop\n"; int id[3] = {f4[0], f4[t + 1], f4[t + 2]}; for (int i : id) s += mc::strf("vertex %g %g %g\n", P[i][0], P[i][1], P[i][2]); s += "endloop\nendfacet\n"; } spit(f, s + "endsolid b\n"); }
static void reject(const string &main, const string &why, const string &loc, const string &name) { string o; bool ok = out(main, "stl", o); mc::trans(); mc::state(mc::hash(why + loc + name)); if (ok || !last.rejected()) { mc::fail("accepted:" + why + (last.sig ? ":" + site(last) : ""), "must be rejected: %s %s", last.how().c_str(), last.err.substr(0, 300).c_str()); return; } if (last.err.compare(0, loc.size(), loc)) mc::fail("location:" + why, "expected a message starting '%s': %s", loc.c_str(), last.err.substr(0, 300).c_str()); else if (!name.empty() && last.err.find(name) == string::npos) mc::fail("message:" + why, "expected a message naming '%s': %s", name.c_str(), last.err.substr(0, 300).c_str()); }
void mc_main() {
    dirs(); const int ND = 5, NF = 5;
    { mc::phase("chains of includes: every directory, every form of path, decoys of the same name everywhere");
      for (int n = 1; n <= 3; n++) { int nd = 1; for (int i = 0; i <= n; i++) nd *= ND; int nf = 1; for (int i = 0; i < n; i++) nf *= NF; for (int d = 0; d < nd; d++) for (int f = 0; f < nf; f++) {
          if (!mc::thorough && n == 3 && (d + f) % 9) continue; if (!mc::next()) continue; int dir[4], form[3]; for (int i = 0, k = d; i <= n; i++, k /= ND) dir[i] = k % ND; for (int i = 0, k = f; i < n; i++, k /= NF) form[i] = k % NF;
          for (int q = 0; q < ND; q++) for (int l = 0; l <= 3; l++) spit(scr(at(q, mc::strf("l%d.scad", l))), mc::strf("sphere(%d);", q * 10 + l + 1)); string inl, post, desc;
          for (int l = 0; l <= n; l++) { string pre = mc::strf("cube(%d);\n", dir[l] * 10 + l + 1), suf = mc::strf("cylinder(%d);\n", dir[l] * 10 + l + 1), t = pre; inl += pre; if (l < n) { string p = rel(dir[l], dir[l + 1], mc::strf("l%d.scad", l + 1), form[l]); t += "include <" + p + ">\n"; desc += at(dir[l], mc::strf("l%d.scad", l)) + " includes <" + p + ">; "; } t += suf; post = suf + post; spit(scr(at(dir[l], mc::strf("l%d.scad", l))), t); }
          mc::desc_s(desc); mc::sample(desc); same((d + f) % 4 == 3 ? scr(at(dir[0], "l0.scad")) : (d + f) % 4 == 2 ? "./" + at(dir[0], "l0.scad") : at(dir[0], "l0.scad"), inl + post, "--dump-syn"); } } }
    { mc::phase("every position of an include, every content, two levels"); struct P { string t; bool body; }; static const vector<P> pos = {{"@", false}, {"cube(7);@", false}, {"@cube(7);", false}, {"@@", false}, {"group(){@}", false}, {"{@}", false}, {"difference(){cube(9);@}", false}, {"difference(){@cube(9);}", false}, {"intersection(){@cube(9);}", false}, {"union(){;@;}", false}, {"translate([1,2,3])@", true}, {"difference()@", true}, {"intersection()@cube(8);", true}, {"rotate([0,90,0])scale(2)@cube(5);", true}, {"#group()@", true}, {"union(){difference()@translate([5,0,0])@}", true}, {"color(\"red\")@", true}};
      static const vector<string> con = {"", ";", "cube(1);", "cube(2);sphere(3,$fn=6);", "translate([.5,.5,.5]){cube(1);}cube(2);", "// nothing\n", "{cube(2);}", "*cube(3);cube(4);", "cube(1)\n;\n", "cube(1);\r\ncube(2);\r\n", "cube(1);//x", "/*;*/cube(2);/**/", "difference(){cube(3);translate([1,1,1])cube(1);}", ";;cube(2);;", "cube(1)", "}", "cube(1);}", "{cube(1);", "union(){", "difference()", "cube(1);include", "cube(", "\"x\"", "5;", "use <x.scad>", "cube(1);*", "!cube(2);cube(1);"};
      auto fill = [](const P &p, const string &inc) { string s; for (char c : p.t) s += c == '@' ? inc : string(1, c); return s; };
      for (auto &p : pos) for (auto &c : con) for (int sp = 0; sp < 6; sp++) for (int k = 0; k < 2; k++) { bool good = &c - &con[0] < 14 || &c == &con.back(); if (!good && (sp || k)) continue; if (k && sp) continue; if (!good && (&c == &con[24])) { /* use is for the top level only */ }
          if (!mc::next()) continue; static const char *inc[] = {"include <a/i.scad>", "include<a/i.scad>", "include\n<a/i.scad>", "include/*<b>*/<a/i.scad>", "include //<b>\n\t<a/i.scad>", "include <a/i.scad>;"}; spit(scr("a/i.scad"), c); string t = fill(p, inc[sp]); spit(scr("m.scad"), t); mc::desc_s(t + " with a/i.scad: " + c); mc::sample(t);
          if (!good) { string o; bool ok = out("m.scad", "--dump-syn", o); mc::trans(); if (ok || !last.rejected()) mc::fail("accepted:" + c, "the included file is not a list of statements: %s", last.how().c_str()); continue; }
          if (c[0] == '!' && p.t.find('@') != p.t.rfind('@')) continue; same("m.scad", fill(p, p.body ? "{" + c + "\n}" : c + "\n"), k ? "stl" : "--dump-syn"); }
      for (auto &p : pos) for (auto &q : pos) for (size_t c = 0; c < 14; c++) for (int k = 0; k < 2; k++) { if (k && c > 4) continue; if (!mc::next()) continue; spit(scr("c/j.scad"), con[c]); spit(scr("a/i.scad"), fill(q, "include <../c/j.scad>")); string t = fill(p, "include <a/i.scad>"); spit(scr("m.scad"), t); string in = fill(q, q.body ? "{" + con[c] + "\n}" : con[c] + "\n"); mc::desc_s(t + " with a/i.scad: " + slurp(scr("a/i.scad")) + " with c/j.scad: " + con[c]); mc::sample(t); same("m.scad", fill(p, p.body ? "{" + in + "\n}" : in + "\n"), k ? "stl" : "--dump-syn"); } }
    { mc::phase("file names"); for (int c = 1; c < 256; c++) for (int k = 0; k < 3; k++) { if (c == '/' || c == '>' || c == '\n' || c == '\r') continue; if (k == 2 && c == '.') continue; if (!mc::next()) continue; string f = k == 0 ? string("p") + (char)c + "q.scad" : k == 1 ? string(1, (char)c) + "x" : string("y") + (char)c; spit(scr("a/" + f), "cube(3);"); string t = "include <a/" + f + ">sphere(2);"; spit(scr("m.scad"), t); mc::desc_s(mc::strf("byte %d: ", c) + t); same("m.scad", "cube(3);sphere(2);", "--dump-syn"); unlink(scr("a/" + f).c_str()); }
      for (int n = 1; n <= 250; n++) if (mc::next()) { string f((size_t)n, 'n'); spit(scr("c/" + f), "cube(3);"); spit(scr("m.scad"), "include <c/" + f + ">"); mc::desc_s(mc::strf("name of %d characters", n)); same("m.scad", "cube(3);", "--dump-syn"); unlink(scr("c/" + f).c_str()); } }
    { mc::phase("names of imported files: every byte, every escape"); auto esc = [](int c) { return c == '\\' ? "\\\\" : c == '"' ? "\\\"" : c == '\t' ? "\\t" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : ""; }; stlbox(scr("t.stl"), 2, 3, 1);
      for (int c = 1; c < 256; c++) for (int k = 0; k < 3; k++) for (int form = 0; form < 2; form++) { if (c == '/' || (k == 2 && c == '.')) continue; string e = form ? esc(c) : string(1, (char)c); if (e.empty() || (!form && (c == '"' || c == '\\'))) continue; if (!mc::next()) continue;
          auto put = [&](const string &x) { return "a/" + (k == 0 ? "p" + x + "q.stl" : k == 1 ? x + "x" : "y" + x); }; string f = put(string(1, (char)c)), t = "import(\"" + put(e) + "\");"; stlbox(scr(f), 2, 3, 1); spit(scr("m.scad"), t); mc::desc_s(mc::strf("byte %d: ", c) + t); mc::sample(t); same("m.scad", "import(\"t.stl\");", "stl"); unlink(scr(f).c_str()); }
      for (int c = 1; c < 256; c++) { if (strchr("tnr\"\\", c) || !mc::next()) continue; string f = string("a/p") + (char)c + "q"; for (auto x : {f, string("a/p\\") + (char)c + "q"}) if (c != '/') stlbox(scr(x), 2, 3, 1); spit(scr("m.scad"), string("import(\"a/p\\") + (char)c + "q\");"); mc::desc_s(mc::strf("escape of byte %d", c)); reject("m.scad", "escape", "m.scad:1:", ""); for (auto x : {f, string("a/p\\") + (char)c + "q"}) if (c != '/') unlink(scr(x).c_str()); } }
    { mc::phase("imports: every directory of every file, decoys everywhere"); for (int d = 0; d < ND; d++) { stlbox(scr(at(d, "t.stl")), d + 1, 1 + d * .5, 2); spit(scr(at(d, "v.svg")), mc::strf("<svg xmlns=\"http://www.w3.org/2000/svg\"><rect x=\"0\" y=\"0\" width=\"%d\" height=\"2\"/></svg>", d + 2)); }
      static const char *use[] = {"import(\"%\");", "translate([1,2,0])import(file=\"%\");", "linear_extrude(1)import(\"%\");", "difference(){cube([20,20,1.5]);rotate([0,0,30])linear_extrude(9)import(\"%\");}"};
      auto sub = [](string u, const string &f) { size_t p = u.find('%'); return u.replace(p, 1, f); };
      for (int m = 0; m < ND; m++) for (int a = 0; a < ND; a++) for (int b = 0; b < ND; b++) for (int form = 0; form < NF; form++) for (int u = 0; u < 4; u++) for (int lv = 0; lv < 3; lv++) { if (lv == 0 && a != b) continue; if (!mc::thorough && lv == 2 && (m + a + b + form + u) % 4) continue; if (!mc::next()) continue; const char *n = u < 2 ? "t.stl" : "v.svg"; // lv: depth of the file with the import
          int dirof = lv == 0 ? m : lv == 1 ? a : b, tgt = lv == 0 ? a : lv == 1 ? b : (m + a + b + 1) % ND; string stmt = sub(use[u], rel(dirof, tgt, n, form)); string t0 = lv == 0 ? stmt : "include <" + rel(m, a, "l1.scad", 0) + ">", t1 = lv == 1 ? stmt : "include <" + rel(a, b, "l2.scad", 0) + ">"; spit(scr(at(m, "l0.scad")), t0); if (lv > 0) spit(scr(at(a, "l1.scad")), t1); if (lv > 1) spit(scr(at(b, "l2.scad")), stmt);
          mc::desc_s(at(m, "l0.scad") + ": " + t0 + (lv ? "; " + at(a, "l1.scad") + ": " + t1 : "") + (lv > 1 ? "; " + at(b, "l2.scad") + ": " + stmt : "")); mc::sample(stmt); same(at(m, "l0.scad"), sub(use[u], scr(at(tgt, n))), "stl"); }
      for (int m = 0; m < ND; m++) for (int a = 0; a < ND; a++) for (int b = 0; b < ND; b++) { if (!mc::next()) continue; spit(scr(at(a, "l1.scad")), "import(\"t.stl\");translate([0,0,3])import(\"" + rel(a, b, "t.stl", 0) + "\");"); string t = "import(\"t.stl\");translate([9,0,0])include <" + rel(m, a, "l1.scad", 0) + ">import(\"t.stl\");"; spit(scr(at(m, "l0.scad")), t); mc::desc_s(at(m, "l0.scad") + ": " + t); auto im = [&](int d) { return "import(\"" + scr(at(d, "t.stl")) + "\");"; }; same(at(m, "l0.scad"), im(m) + "translate([9,0,0]){" + im(a) + "translate([0,0,3])" + im(b) + "}" + im(m), "stl"); } }
    { mc::phase("missing files and errors in included files"); for (int m = 0; m < ND; m++) for (int a = 0; a < ND; a++) for (int form = 0; form < NF; form++) for (int lv = 0; lv < 2; lv++) for (int kind = 0; kind < 9; kind++) { if (!mc::next()) continue;
          int holder = lv ? a : m; string p = rel(holder, (a + 1) % ND, "none.scad", form), fn = p[0] == '/' ? p : at(holder, p), bad; string name; string why; string o = lv ? at(a, "l1.scad") : at(m, "l0.scad"); switch (kind) { case 0: bad = "include <" + p + ">"; name = fn; why = "missing include"; break; case 1: bad = "import(\"" + p + "\");"; name = fn; why = "missing import"; break; case 2: bad = "linear_extrude(1)import(\"" + p + "\");"; name = fn; why = "missing import"; break; case 3: bad = "cube(1"; why = "syntax"; break; case 4: bad = "cube(0);"; why = "range"; break; case 5: bad = "include <" + rel(holder, (a + 1) % ND, "", form) + ">"; why = "directory"; break; case 6: bad = "nosuch(1);"; why = "functor"; break; case 7: bad = "include <>"; why = "empty path"; break; default: bad = "include nopath"; why = "no path"; break; }
          if (kind == 5 && bad == "include <>") continue;
          string body = "cube(1);\n/* c\n */ " + bad + (kind == 3 ? "" : "\n cube(2);"); spit(scr(at(m, "l0.scad")), lv ? "sphere(1);\ninclude <" + rel(m, a, "l1.scad", 0) + ">" : body); if (lv) spit(scr(at(a, "l1.scad")), body); if (lv) o = at(m, "").empty() && rel(m, a, "l1.scad", 0)[0] != '/' ? rel(m, a, "l1.scad", 0) : string(DIRS[m][0] ? string(DIRS[m]) + "/" : "") + rel(m, a, "l1.scad", 0);
          if (!name.empty() && p[0] != '/') { size_t sl = o.rfind('/'); name = (sl == string::npos ? "" : o.substr(0, sl + 1)) + p; }
          mc::desc_s(o + ": " + body); reject(at(m, "l0.scad"), why, o + ":3:", name); } }
    { mc::phase("cycles"); for (int n = 1; n <= 4; n++) for (int d = 0; d < ND; d++) for (int e = 0; e < ND; e++) for (const char *ctx : {"", "group()", "union(){"}) { if (!mc::next()) continue; for (int l = 0; l < n; l++) { int x = l % 2 ? e : d, y = (l + 1) % n % 2 ? e : d; spit(scr(at(x, mc::strf("l%d.scad", l))), "cube(1);" + string(ctx) + "include <" + rel(x, y, mc::strf("l%d.scad", (l + 1) % n), 0) + ">" + (strchr(ctx, '{') ? "}" : "")); } mc::desc_s(mc::strf("cycle of %d files in directories '%s' and '%s', %s", n, DIRS[d], DIRS[e], ctx)); reject(at(d, "l0.scad"), "cycle", "", ""); } }
    { mc::phase("many files, deep nesting"); spit(scr("a/i.scad"), "cube(1);"); spit(scr("e.scad"), ""); stlbox(scr("t.stl"), 1, 1, 1); auto rep = [](const string &s, int n) { string o; for (int i = 0; i < n; i++) o += s; return o; };
      for (int n : {1, 2, 100, 1000, 1020, 1021, 1022, 1030, 3000}) { if (mc::next()) { mc::desc_s(mc::strf("%d includes in a row", n)); spit(scr("m.scad"), rep("include <a/i.scad>\n", n)); same("m.scad", rep("cube(1);", n), "--dump-syn"); } if (mc::next()) { mc::desc_s(mc::strf("%d empty includes and a cube", n)); spit(scr("m.scad"), rep("include <e.scad>\n", n) + "cube(1);"); same("m.scad", "cube(1);", "stl"); } if (n <= 1100 && mc::next()) { mc::desc_s(mc::strf("%d imports", n)); spit(scr("m.scad"), rep("import(\"t.stl\");\n", n)); same("m.scad", rep("cube(1);", n), "--dump-none"); } }
      for (int n : {1, 2, 10, 100, 500, 900}) if (mc::next()) { const int ND = n < 500 ? 5 : 1; mc::desc_s(mc::strf("nested %d deep", n)); for (int i = 0; i < n; i++) spit(scr(at(i % ND, mc::strf("d%d.scad", i))), mc::strf("sphere(%d);", i + 1) + "include <" + rel(i % ND, (i + 1) % ND, mc::strf("d%d.scad", i + 1), 0) + ">"); spit(scr(at(n % ND, mc::strf("d%d.scad", n))), "cube(1);"); string w; for (int i = 0; i < n; i++) w += mc::strf("sphere(%d);", i + 1); same("d0.scad", w + "cube(1);", "--dump-syn"); for (int i = 0; i <= n; i++) unlink(scr(at(i % ND, mc::strf("d%d.scad", i))).c_str()); } }
}
