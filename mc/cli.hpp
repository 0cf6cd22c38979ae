// Runs the real program (hob3l_main, linked in) in a forked child, reads its output files.
#pragma once
#include "mc.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <algorithm>
using std::string; using std::vector;
extern "C" int hob3l_main(int argc, char **argv);

static inline string slurp(const string &f) { string s; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return s; struct stat st; if (!fstat(fd, &st) && st.st_size > 0) { s.resize((size_t)st.st_size); size_t o = 0; ssize_t k; while (o < s.size() && (k = read(fd, &s[o], s.size() - o)) > 0) o += (size_t)k; s.resize(o); } close(fd); return s; }
static inline void spit(const string &f, const string &s) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0) mc::harness_error("cannot write %s", f.c_str()); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, &s[o], s.size() - o); if (k <= 0) mc::harness_error("cannot write %s", f.c_str()); o += (size_t)k; } close(fd); }
static inline bool exists(const string &f) { struct stat st; return !stat(f.c_str(), &st); }

struct Res { int code = 0; int sig = 0; string err, so; bool ok() const { return !sig && code == 0; } bool rejected() const { return !sig && code == 1; }
    string how() const { return sig ? mc::strf("killed by signal %d", sig) : mc::strf("exit %d", code); } };
static string scr(const string &n) { return mc::scratch + "/" + n; }
// args without argv[0]; the working directory is the scratch directory
static double RUN_LIMIT = 25;
static int PERTURB = 0; // fills fresh memory with a different pattern and moves allocations
static Res run(const vector<string> &args, const char *stdout_file = nullptr) {
    static string se = scr("run.err"), so0 = scr("run.out");
    string so = stdout_file ? stdout_file : so0;
    mc::beat();
    fflush(stdout); fflush(stderr);
    pid_t me = getpid();
    pid_t pid = fork();
    if (pid < 0) mc::harness_error("fork failed");
    if (pid == 0) {
        int a = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), b = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (a < 0 || b < 0) _exit(96);
        dup2(a, 2); dup2(b, 1); close(a); close(b);
        struct itimerval it = {}; it.it_value.tv_sec = (long)RUN_LIMIT; setitimer(ITIMER_REAL, &it, nullptr);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &rl);
        if (getppid() != me) _exit(97);
        vector<string> av; av.push_back("hob3l"); for (auto &x : args) av.push_back(x);
        vector<char *> p; for (auto &x : av) p.push_back(&x[0]); p.push_back(nullptr);
        if (PERTURB) { mallopt(M_PERTURB, PERTURB); for (int i = 0; i < PERTURB; i++) { void *volatile q = malloc((size_t)(16 + 4093 * i % 70000)); if (i % 3 == 0) free(q); } }
        exit(hob3l_main((int)av.size(), p.data()));
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    Res r; if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
    if (!r.sig && (r.code == 96 || r.code == 97)) mc::harness_error("child could not start");
    r.err = slurp(se); if (!stdout_file) r.so = slurp(so);
    mc::trace();
    return r;
}
static inline string first_line(const string &s, const char *skip = "Info:") { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); string l = s.substr(p, e - p); if (l.compare(0, strlen(skip), skip)) return l; p = e + 1; } return ""; }
// a stable key for an unexpected failure
static inline string site(const Res &r) {
    if (r.sig == SIGALRM) return "hang";
    const string &e = r.err; size_t p;
    for (const char *k : {"Assertion", "runtime error:", "AddressSanitizer:", "PANIC", "panic", "Fatal Error", "ERROR:"}) if ((p = e.find(k)) != string::npos) return "crash:" + e.substr(p, std::min<size_t>(std::min(e.find('\n', p), e.size()) - p, 110));
    if (r.sig) return mc::strf("crash:signal %d", r.sig);
    p = e.find("Error: "); if (p != string::npos) return "error:" + e.substr(p + 7, std::min<size_t>(std::min(e.find('\n', p), e.size()) - p - 7, 60));
    return "exit " + std::to_string(r.code);
}

// ---- STL ---------------------------------------------------------------------------------------
struct Facet { double n[3]; double v[3][3]; };
struct Stl { bool ok = false; string why; vector<Facet> f; };
static inline bool num_at(const char *&p, double &d) { char *e; d = strtod(p, &e); if (e == p) return false; p = e; return true; }
static Stl stl_text(const string &s) {
    Stl r; const char *p = s.c_str();
    auto ws = [&] { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; };
    auto word = [&](const char *w) { ws(); size_t n = strlen(w); if (strncmp(p, w, n)) return false; p += n; return true; };
    auto nums = [&](double *d) { for (int i = 0; i < 3; i++) { ws(); if (!num_at(p, d[i]) || !std::isfinite(d[i])) return false; } return true; };
    if (!word("solid model\n")) { r.why = "no 'solid' line"; return r; }
    for (;;) {
        if (word("endsolid model")) break;
        Facet f;
        if (!(word("facet normal") && nums(f.n) && word("outer loop") && word("vertex") && nums(f.v[0]) && word("vertex") && nums(f.v[1]) && word("vertex") && nums(f.v[2]) && word("endloop") && word("endfacet"))) { r.why = mc::strf("syntax at byte %ld: '%.40s'", (long)(p - s.c_str()), p); return r; }
        r.f.push_back(f);
    }
    ws(); if ((size_t)(p - s.c_str()) != s.size()) { r.why = "text after endsolid"; return r; }
    r.ok = true; return r;
}
static Stl stl_bin(const string &s) {
    Stl r; if (s.size() < 84) { r.why = "shorter than its header"; return r; }
    auto u = [&](size_t o) { return (unsigned)(unsigned char)s[o] | (unsigned)(unsigned char)s[o+1] << 8 | (unsigned)(unsigned char)s[o+2] << 16 | (unsigned)(unsigned char)s[o+3] << 24; };
    unsigned n = u(80); if (s.size() != 84 + 50ull * n) { r.why = mc::strf("header says %u facets, file has %zu bytes", n, s.size()); return r; }
    for (unsigned i = 0; i < n; i++) { Facet f; double d[12]; for (int k = 0; k < 12; k++) { unsigned w = u(84 + 50ull * i + 4u * (unsigned)k); float x; memcpy(&x, &w, 4); d[k] = x; if (!std::isfinite(x)) { r.why = "not a finite number"; return r; } } memcpy(f.n, d, 24); memcpy(f.v, d + 3, 72); if (s[84+50ull*i+48] || s[84+50ull*i+49]) { r.why = "attribute count not 0"; return r; } r.f.push_back(f); }
    r.ok = true; return r;
}
struct Pt { double x, y; };
typedef std::array<Pt,3> Tri;
struct Layer { double z0 = 0, z1 = 0; vector<Tri> bot, top; vector<Facet> wall; };
// key: z0 in micrometres
static bool layers_of(const Stl &s, std::map<long,Layer> &out, string &why) {
    std::map<long,vector<Tri>> bot, top; std::map<std::pair<long,long>,vector<Facet>> wall;
    auto q = [](double z) { return lround(z * 1e6); };
    for (auto &f : s.f) {
        if (f.n[2] < -0.5 || f.n[2] > 0.5) { Tri t; for (int i = 0; i < 3; i++) { t[i] = {f.v[i][0], f.v[i][1]}; if (q(f.v[i][2]) != q(f.v[0][2])) { why = "horizontal facet is not horizontal"; return false; } } (f.n[2] < 0 ? bot : top)[q(f.v[0][2])].push_back(t); }
        else { long a = std::min({q(f.v[0][2]), q(f.v[1][2]), q(f.v[2][2])}), b = std::max({q(f.v[0][2]), q(f.v[1][2]), q(f.v[2][2])}); wall[{a, b}].push_back(f); }
    }
    if (bot.size() != top.size()) { why = mc::strf("%zu bottom heights, %zu top heights", bot.size(), top.size()); return false; }
    auto t = top.begin();
    for (auto &b : bot) { Layer l; l.z0 = (double)b.first * 1e-6; l.z1 = (double)t->first * 1e-6; l.bot = b.second; l.top = t->second; auto w = wall.find({b.first, t->first}); if (w != wall.end()) { l.wall = w->second; wall.erase(w); } out[b.first] = l; ++t; if (l.z1 <= l.z0) { why = "layer of no thickness"; return false; } }
    if (!wall.empty()) { why = mc::strf("walls from %g to %g belong to no layer", (double)wall.begin()->first.first * 1e-6, (double)wall.begin()->first.second * 1e-6); return false; }
    return true;
}
static inline double area2(const Tri &t) { return (t[1].x - t[0].x) * (t[2].y - t[0].y) - (t[1].y - t[0].y) * (t[2].x - t[0].x); }
static inline double area(const vector<Tri> &v) { double a = 0; for (auto &t : v) a += fabs(area2(t)); return a / 2; }
static inline bool tri_has(const Tri &t, double x, double y) { int s = 0; for (int i = 0; i < 3; i++) { auto &a = t[i], &b = t[(i + 1) % 3]; double d = (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x); if (d > 0) s |= 1; else s |= 2; } return s != 3; }
static inline int cover(const vector<Tri> &v, double x, double y) { int n = 0; for (auto &t : v) n += tri_has(t, x, y); return n; }
// the program's report of its layers
struct Info { bool ok = false; double min = 0, step = 0, max = 0; long cnt = 0; string grid; };
static Info info_of(const string &err) { Info i; size_t p = err.find("Info: Z: min="); if (p == string::npos) return i; char g[64] = ""; if (sscanf(err.c_str() + p, "Info: Z: min=%lf, step=%lf, layer_cnt=%ld, max=%lf, grid=%63s", &i.min, &i.step, &i.cnt, &i.max, g) >= 4) { i.ok = true; i.grid = g; } return i; }
