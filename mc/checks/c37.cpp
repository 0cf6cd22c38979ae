// C37: the viewer page. The page's own scripts run in node with stand-ins for the DOM and WebGL (js/page.js) and are
// compared, after every user action, with a model of the controls (js/model.js, js/actions.js).
#include "../cli.hpp"
#include <dirent.h>
static string SRC, HERE_;
// runs a program; returns its output (stdout), sets code
static string exec_(const vector<string> &a, int &code, double limit = 300, const vector<string> &env = {}, const string &cwd = "") {
    mc::beat(); fflush(stdout); fflush(stderr); string so = scr("x.out"), se = scr("x.err"); pid_t me = getpid(), pid = fork();
    if (pid < 0) mc::harness_error("fork failed");
    if (pid == 0) {
        int o = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); dup2(e, 2);
        if (!cwd.empty() && chdir(cwd.c_str())) _exit(96);
        for (auto &x : env) putenv((char *)x.c_str());
        struct itimerval it = {}; it.it_value.tv_sec = (long)limit; setitimer(ITIMER_REAL, &it, nullptr);
        if (getppid() != me) _exit(97);
        vector<char *> p; for (auto &x : a) p.push_back((char *)x.c_str()); p.push_back(nullptr);
        execvp(p[0], p.data()); _exit(98);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    code = WIFSIGNALED(st) ? 256 + WTERMSIG(st) : WEXITSTATUS(st);
    if (code == 96 || code == 97 || code == 98) mc::harness_error("cannot run %s", a[0].c_str());
    return slurp(so);
}
static void wipe(const string &d) { DIR *p = opendir(d.c_str()); if (!p) return; while (auto *e = readdir(p)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(p); }
static long num(const string &s, const char *k) { auto p = s.find(string("\"") + k + "\":"); return p == string::npos ? -1 : atol(s.c_str() + p + strlen(k) + 3); }
// value of the string starting at p[0] == '"'
static string jstr(const string &s, size_t p) { string r; for (size_t i = p + 1; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\') i++; r += s[i]; } return r; }
static string field(const string &s, const char *k, size_t from = 0) { auto p = s.find(string("\"") + k + "\":\"", from); return p == string::npos ? "" : jstr(s, p + strlen(k) + 3); }
static vector<double> arr(const string &s, const char *k, size_t &from) {
    vector<double> r; auto p = s.find(string("\"") + k + "\":[", from); if (p == string::npos) return r; const char *c = s.c_str() + p + strlen(k) + 4;
    while (*c && *c != ']') { char *e; double v = strtod(c, &e); if (e == c) break; r.push_back(v); c = *e == ',' ? e + 1 : e; } from = (size_t)(c - s.c_str()); return r; }
static string node(const vector<string> &a) {
    vector<string> v{"node", HERE_ + "/js/" + a[0]}; v.insert(v.end(), a.begin() + 1, a.end()); int code; string o = exec_(v, code);
    if (code || o.empty()) mc::harness_error("node %s: exit %d: %s", a[0].c_str(), code, slurp(scr("x.err")).substr(0, 400).c_str());
    return o;
}
static void install(const string &d) { mkdir(d.c_str(), 0700); mkdir((d + "/gl-matrix").c_str(), 0700); for (auto f : {"common.js", "mat4.js", "vec3.js"}) spit(d + "/gl-matrix/" + f, slurp(SRC + "/share/gl-matrix/" + f)); spit(d + "/view.html", slurp(SRC + "/share/js-hob3l.local.html")); }
static string ALL[] = {"plain", "worlds", "groups", "motion", "defaults"};
static std::map<string, string> SCN;
static void nav(const char *ph, const string &scn, const string &storage, int depth, const string &alpha) {
    mc::phase(ph); static string last; string d = scr("page");
    static std::map<string, int> cnt; string k = scn + alpha; auto prep = [&] { if (last != scn) { install(d); spit(d + "/js-hob3l.js", SCN[scn]); last = scn; } };
    if (!cnt.count(k)) { int c = (int)num(node({"nav.js", "-", scn, storage, "1", alpha, "-2"}), "n"); if (c < 5) mc::harness_error("no actions"); cnt[k] = c; }
    for (int f = -1; f < cnt[k]; f++) {
        if (!mc::next()) continue;
        prep(); string o = node({"nav.js", d, scn, storage, std::to_string(depth), alpha, std::to_string(f)});
        mc::trace((uint64_t)num(o, "runs")); mc::trans((uint64_t)num(o, "steps"));
        auto sp = o.find("\"hashes\":["); if (sp != string::npos) { const char *c = o.c_str() + sp + 10; while (*c && *c != ']') { char *e; auto v = strtoull(c, &e, 10); if (e == c) break; mc::state(v); c = *e == ',' ? e + 1 : e; } }
        auto p = o.find("\"fails\":[{"); if (p == string::npos) { mc::sample(mc::strf("scene %s, storage %s, alphabet %s, depth %d, first action %d: %ld sequences", scn.c_str(), storage.c_str(), alpha.c_str(), depth, f, num(o, "runs"))); continue; }
        string key = field(o, "key", p), msg = field(o, "msg", p); auto q = o.find("\"seq\":", p), e = o.find(']', q);
        mc::desc_s("scene " + scn + ", storage " + storage + ", actions " + o.substr(q + 6, e - q - 5)); mc::fail("viewer:" + key, "%s", msg.c_str());
    }
}
// the pages made by hob3l-js-copy-aux load the model of the given name
static void copyaux() {
    mc::phase("pages made by hob3l-js-copy-aux: names of files");
    vector<string> names{"m", "LOCAL", "REMOTE", "REMOTE --- x-->", "js-hob3l", "gl-matrix", "x.js", "x.tar", "\xc3\xa9\xe2\x82\xac", "a b  c", "..x", ".x", "n.js.js"};
    for (int c = 33; c < 127; c++) if (c != '/') { string s(1, (char)c); if (c != '-') names.push_back(s); names.push_back("a" + s + "b"); names.push_back("a" + s); }
    const string sp = "&@\\%#?\"':<>+ ;$`"; for (char a : sp) for (char b : sp) names.push_back(string("x") + a + b + "1");
    const string js = "anim=false;\nscene.push({'group':{},'scaleV':1000,'scaleC':255,'shiftI':0,'vertex':[0,0,1,5,0,1,0,5,1],'normal':[0,0,1000,0,0,1000,0,0,1000],'color':[255,0,0,255,0,255,0,255,0,0,255,255],'index':[0,1,1]});\n";
    for (auto &n : names) for (int v = 0; v < 2; v++) {
        if (!mc::next()) continue;
        string d = scr("aux"); wipe(d); mkdir(d.c_str(), 0700); string sub = v ? "/su b&" : ""; if (v) mkdir((d + sub).c_str(), 0700);
        mc::desc_s("hob3l-js-copy-aux '" + string(v ? "su b&/" : "") + n + ".js'"); if (v == 0 && n[0] == '-') continue;
        spit(d + sub + "/" + n + ".js", js); if (n != "other") spit(d + sub + "/other.js", "scene.push({});\n");
        int code; exec_({"sh", SRC + "/script/hob3l-js-copy-aux.in", string(v ? "su b&/" : "") + n + ".js"}, code, 60, {"pkgdatadir=" + SRC + "/share"}, d); mc::trace();
        if (code) { mc::fail("copy-aux:exit", "exit %d: %s", code, first_line(slurp(scr("x.err"))).c_str()); continue; }
        string l = d + sub + "/" + n + ".local.html", r = d + sub + "/" + n + ".html";
        if (!exists(l) || !exists(r)) { mc::fail("copy-aux:page", "no page was written"); continue; }
        string o = node({"load.js", l, r}); size_t nl = o.find('\n');
        for (int k = 0; k < 2; k++) {
            string x = k ? o.substr(nl + 1) : o.substr(0, nl), want = d + sub + "/" + n + (k ? ".js.gz" : ".js"); mc::trans();
            auto e = field(x, "error"); if (!e.empty()) { mc::fail("copy-aux:load", "the %s page fails: %s", k ? "remote" : "local", e.c_str()); break; }
            auto p = x.find("\"loaded\":["), q = p == string::npos ? p : x.find("],\"alerts\"", p); if (q == string::npos) { mc::fail("copy-aux:load", "the %s page loads nothing", k ? "remote" : "local"); break; }
            string ld = x.substr(p, q - p); auto s = ld.rfind("\",\""); string got = jstr(ld, s == string::npos ? 10 : s + 2);
            if (got != want) { mc::fail("copy-aux:which", "the %s page loads %s", k ? "remote" : "local", got.c_str()); break; }
            if (num(x, "cnt") != 3) { mc::fail("copy-aux:draw", "the %s page draws nothing", k ? "remote" : "local"); break; }
        }
        if (slurp(d + sub + "/" + n + ".js") != js) mc::fail("copy-aux:model", "the model was changed");
        mc::state(mc::hash(n)); mc::sample(n);
    }
    mc::phase("hob3l-js-copy-aux: wrong arguments");
    for (string a : {"", "none.js", "-x", "--foo", "-x.js"}) {
        if (!mc::next()) continue;
        string d = scr("aux"); wipe(d); mkdir(d.c_str(), 0700); mc::desc_s("hob3l-js-copy-aux '" + a + "'"); spit(d + "/-x.js", js);
        vector<string> av{"sh", SRC + "/script/hob3l-js-copy-aux.in"}; if (!a.empty()) av.push_back(a);
        int code; exec_(av, code, 60, {"pkgdatadir=" + SRC + "/share"}, d); mc::trace(); mc::trans();
        int n = 0; DIR *p = opendir(d.c_str()); while (readdir(p)) n++; closedir(p);
        if (code == 0) mc::fail("copy-aux:accepted", "exit 0"); else if (n != 3) mc::fail("copy-aux:left", "files were written");
    }
}
// what the page draws is what text STL holds
static void shows() {
    mc::phase("models exported and shown");
    vector<string> B{"cube(3);", "translate([-2,1,.5])cylinder(h=2,r1=2,r2=1,$fn=5);", "color([.25,.5,.75,.5])translate([1,1,2])sphere(2,$fn=8);", "color(\"red\")rotate([30,40,50])cube([1,2,3]);", "translate([40,-30,7])difference(){cube(4);translate([1,1,-1])cube([2,2,6]);}", "linear_extrude(height=2,twist=90)square(3);", "scale([.001,.001,1])cube([3000,2000,2]);"};
    vector<string> M; for (auto &a : B) { M.push_back(a); for (auto &b : B) if (&a != &b) { M.push_back(a + b); M.push_back("difference(){" + a + b + "}"); } }
    string big = "for"; // many vertices in one part
    string many; for (int i = 0; i < (mc::thorough ? 400 : 180); i++) many += mc::strf("translate([%d,%d,0])cylinder(h=3,r=.4,$fn=%d);", i % 20, i / 20, 3 + i % 9); M.push_back(many);
    for (auto &m : M) for (string st : {"1", ".4"}) {
        if (!mc::next()) continue;
        mc::desc_s(m.substr(0, 300) + " --step=" + st); string d = scr("show"); install(d); spit(scr("in.scad"), m);
        Res a = run({"in.scad", "-o", "show/js-hob3l.js", "--step=" + st, "--layer-gap=.05"}), b = run({"in.scad", "-o", "show/o.stl", "--step=" + st, "--layer-gap=.05"});
        if (!a.ok() || !b.ok()) { mc::fail("show:run", "%s, %s", a.how().c_str(), b.how().c_str()); continue; }
        string o = node({"load.js", d + "/view.html"}), e = field(o, "error"); if (!e.empty()) { mc::fail("show:error", "%s", e.c_str()); continue; }
        typedef std::array<double, 3> V; struct F { V p[3], n; }; vector<F> js, stl;
        size_t pos = 0; bool bad = false;
        while (!bad) {
            auto q = o.find("\"mode\":", pos); if (q == string::npos) break;
            if (o.compare(q + 7, 11, "\"TRIANGLES\"") || o.find("\"bad\":true", q) != string::npos || field(o, "ty", q) != "UNSIGNED_SHORT" || field(o, "ints", q) != "Uint16Array") { mc::fail("show:draw", "not drawn as triangles"); bad = true; break; }
            pos = q; auto ix = arr(o, "index", pos), v = arr(o, "v", pos), n = arr(o, "n", pos), c = arr(o, "c", pos);
            if (num(o.substr(q, 80), "cnt") != (long)ix.size() || ix.size() % 3 || v.size() != n.size() || v.size() / 3 != c.size() / 4) { mc::fail("show:arrays", "arrays of different lengths"); bad = true; break; }
            for (double x : c) if (!(x >= 0 && x <= 1)) { mc::fail("show:colour", "colour component %g", x); bad = true; break; }
            for (size_t i = 0; i + 2 < ix.size() && !bad; i += 3) { F f; V nn[3];
                for (int k = 0; k < 3; k++) { size_t j = (size_t)ix[i + (size_t)k]; if (j * 3 + 2 >= v.size()) { mc::fail("show:index", "index %zu of %zu vertices", j, v.size() / 3); bad = true; break; }
                    for (int l = 0; l < 3; l++) { f.p[k][l] = v[j * 3 + (size_t)l] * 1000; nn[k][l] = n[j * 3 + (size_t)l]; } }
                if (bad) break;
                V u, w, x; for (int l = 0; l < 3; l++) { u[l] = f.p[1][l] - f.p[0][l]; w[l] = f.p[2][l] - f.p[0][l]; } for (int l = 0; l < 3; l++) x[l] = u[(l + 1) % 3] * w[(l + 2) % 3] - u[(l + 2) % 3] * w[(l + 1) % 3];
                double le = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
                if (le > 1e-2) for (auto &y : nn) { double ln = sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), dt = (x[0] * y[0] + x[1] * y[1] + x[2] * y[2]) / le; if (fabs(ln - 1) > 1e-3 || dt < .97) { mc::fail("show:normal", "normal (%g,%g,%g) of a triangle facing (%g,%g,%g)", y[0], y[1], y[2], x[0] / le, x[1] / le, x[2] / le); bad = true; break; } }
                js.push_back(f); }
        }
        if (bad || mc::failed()) continue;
        string s = slurp(d + "/o.stl"); const char *c = s.c_str(); while ((c = strstr(c, "outer loop"))) { F f; for (int k = 0; k < 3; k++) { c = strstr(c, "vertex"); if (!c || sscanf(c, "vertex %lf %lf %lf", &f.p[k][0], &f.p[k][1], &f.p[k][2]) != 3) mc::harness_error("STL"); c += 6; } stl.push_back(f); }
        mc::trans(js.size()); mc::state(mc::hash(s));
        if (js.size() != stl.size()) { mc::fail("show:count", "%zu triangles drawn, %zu in STL", js.size(), stl.size()); continue; }
        // match by first vertex: every STL facet has one drawn triangle
        std::multimap<double, size_t> by; for (size_t i = 0; i < js.size(); i++) by.insert({js[i].p[0][0] + js[i].p[1][0] + js[i].p[2][0], i}); vector<char> used(js.size());
        for (auto &f : stl) { double sx = f.p[0][0] + f.p[1][0] + f.p[2][0]; bool hit = false;
            for (auto it = by.lower_bound(sx - 2e-3); it != by.end() && it->first <= sx + 2e-3 && !hit; ++it) { if (used[it->second]) continue; auto &g = js[it->second];
                for (int r = 0; r < 3 && !hit; r++) { bool eq = true; for (int k = 0; k < 3 && eq; k++) for (int l = 0; l < 3; l++) if (fabs(g.p[(k + r) % 3][l] - f.p[k][l]) > 3e-4) { eq = false; break; } if (eq) { hit = true; used[it->second] = 1; } } }
            if (!hit) { mc::fail("show:triangle", "triangle (%g,%g,%g) (%g,%g,%g) (%g,%g,%g) is not drawn", f.p[0][0], f.p[0][1], f.p[0][2], f.p[1][0], f.p[1][1], f.p[1][2], f.p[2][0], f.p[2][1], f.p[2][2]); break; } }
        mc::sample(m.substr(0, 200));
    }
}
void mc_main() {
    mc::set_hang(400); SRC = getenv("MC_SRC"); HERE_ = getenv("MC_HERE"); bool T = mc::thorough;
    for (auto &s : ALL) SCN[s] = node({"scene.js", s});
    nav("navigation, all actions", "plain", "cl", 2, "all");
    nav("navigation, views stored in cookies only", "plain", "c", 2, "all");
    nav("navigation, views stored without cookies", "plain", "l", 2, "all");
    nav("navigation, nothing can be stored", "plain", "-", 2, "all");
    if (!T) nav("navigation, longer sequences", "plain", "cl", 3, "core"); else nav("navigation, longest sequences", "plain", "cl", 5, "dyn");
    for (auto s : {"worlds", "groups", "motion", "defaults"}) nav(mc::strf("navigation, scene with %s", s).c_str(), s, "cl", T ? 4 : 3, "dyn");
    for (auto s : {"worlds", "groups", "motion", "defaults"}) nav(mc::strf("navigation, all actions, scene with %s", s).c_str(), s, "cl", T ? 2 : 1, "all");
    for (auto s : {"worlds", "groups"}) for (auto st : {"c", "l", "-"}) nav(mc::strf("navigation, scene with %s, storage %s", s, st).c_str(), s, st, T ? 3 : 2, "dyn");
    if (T) { nav("navigation, all actions, three", "plain", "cl", 3, "all"); for (auto st : {"c", "l"}) nav("navigation, core actions, three", "plain", st, 3, "core"); }
    copyaux(); shows();
}
