// C25: a failed open, read, write or close is reported; short reads change nothing.
#include "../scad.hpp"
#include <sys/mman.h>
#include <errno.h>
extern "C" { FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *, const char *); FILE *__wrap_fopen64(const char *, const char *); }
enum { NONE, OPEN, READ, WRITE, CLOSE };
// one fault: the n-th call of the kind (all later ones too if perm) fails with err, after `part` bytes went through
struct Fault { int op = NONE; long n = 0; int err = 0; bool perm = false; long part = 0; };
struct Plan { vector<Fault> f; long chunk = 0; int buf = -1; long fsize = -1; bool cookie = true; bool so_cookie = false; };
struct Shared { long opens, reads, writes, closes, hits, written, left; char name[300]; };
static Shared *sh; static const Plan *plan;
struct Ck { int fd; bool out; string name; };
static const Fault *due(int op, long i) { for (auto &f : plan->f) if (f.op == op && (i == f.n || (f.perm && i > f.n))) { sh->hits++; return &f; } return nullptr; }
static ssize_t ck_read(void *c, char *b, size_t n) { Ck *k = (Ck *)c; auto f = due(READ, sh->reads++); if (plan->chunk && n > (size_t)plan->chunk) n = (size_t)plan->chunk; if (f) { if (f->part && sh->hits == 1) { ssize_t g = read(k->fd, b, std::min(n, (size_t)f->part)); if (g > 0) return g; } errno = f->err; return -1; } return read(k->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { Ck *k = (Ck *)c; auto f = due(WRITE, sh->writes++); if (f) { size_t w = std::min(n - (n > 0), (size_t)f->part); if (w && write(k->fd, b, w) != (ssize_t)w) _exit(98); errno = f->err; return (ssize_t)w; } ssize_t w = write(k->fd, b, n); return w < 0 ? 0 : w; }
static int ck_close(void *c) { Ck *k = (Ck *)c; close(k->fd); if (k->out) { auto f = due(CLOSE, sh->closes++); if (f) { errno = f->err; return EOF; } } return 0; }
static FILE *cookie(int fd, bool out, const char *name) { Ck *k = new Ck{fd, out, name}; FILE *f = fopencookie(k, out ? "w" : "r", {ck_read, ck_write, nullptr, ck_close}); if (!f) _exit(98); if (plan->buf >= 0) setvbuf(f, nullptr, plan->buf ? _IOFBF : _IONBF, (size_t)plan->buf); return f; }
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!plan || !plan->cookie) return __real_fopen(p, m);
    auto f = due(OPEN, sh->opens++); if (f) { snprintf(sh->name, sizeof sh->name, "%s", p); errno = f->err; return nullptr; }
    bool out = m[0] == 'w' || m[0] == 'a'; int fd = out ? open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600) : open(p, O_RDONLY); if (fd < 0) return nullptr; return cookie(fd, out, p);
}
static Res go(const vector<string> &args, const Plan &pl, const char *so) {
    mc::beat(); fflush(stdout); fflush(stderr); memset(sh, 0, sizeof *sh); int pp[2]; if (pipe(pp)) mc::harness_error("pipe"); pid_t pid = fork(); if (pid < 0) mc::harness_error("fork");
    if (!pid) { close(pp[0]); int b = open(so, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (b < 0) _exit(96); dup2(pp[1], 2); dup2(b, 1); close(pp[1]); close(b);
        struct itimerval it = {}; it.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &it, nullptr); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); if (pl.fsize >= 0) { signal(SIGXFSZ, SIG_IGN); rl = {(rlim_t)pl.fsize, (rlim_t)pl.fsize}; } else rl = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &rl);
        plan = &pl; if (pl.so_cookie) stdout = cookie(dup(1), true, "stdout");
        vector<string> av; av.push_back("hob3l"); for (auto &x : args) av.push_back(x); vector<char *> p; for (auto &x : av) p.push_back(&x[0]); p.push_back(nullptr); exit(hob3l_main((int)av.size(), p.data())); }
    close(pp[1]); Res r; char b[4096]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) r.err.append(b, (size_t)k); close(pp[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) {} if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st); if (!r.sig && (r.code == 96 || r.code == 98)) mc::harness_error("child could not start: %d", r.code); mc::trace(); return r;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }   // which of the two names the code uses depends on the flags it is compiled with
// a job: command line, the file the output goes to, is it standard output
struct Job { string name; vector<string> args; string out; bool so; };
static vector<Job> jobs; static string bigscad;
static void fixtures() {
    for (const char *d : {"d", "d/e", "od", "d/od", "od.stl", "d/od.stl"}) mkdir(scr(d).c_str(), 0700);
    spit(scr("t.stl"), "solid t\nfacet normal 0 0 -1\nouter loop\nvertex 0 0 0\nvertex 0 1 0\nvertex 1 0 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 0 1\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 0 0 1\nvertex 0 1 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 1 0 0\nvertex 0 1 0\nvertex 0 0 1\nendloop\nendfacet\nendsolid t\n");
    { string b(80, 'x'); auto u4 = [&](const void *p) { b.append((const char *)p, 4); }; unsigned n = 4; u4(&n); static const float v[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; static const int t[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}}; for (auto &q : t) { float z = 0; for (int i = 0; i < 3; i++) u4(&z); for (int k : q) for (int i = 0; i < 3; i++) u4(&v[k][i]); b += string(2, '\0'); } spit(scr("d/b.stl"), b); }
    spit(scr("d/v.svg"), "<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 4 4\">\n<rect x=\"1\" y=\"1\" width=\"2\" height=\"2\"/>\n</svg>\n");
    spit(scr("d/e/j.scad"), "// second\ntranslate([5,0,0]) cube(1);\nimport(\"../b.stl\");\n"); spit(scr("d/i.scad"), "include <e/j.scad>\nlinear_extrude(1) import(\"v.svg\");\n");
    string m = "cube([1,2,1]);\ninclude <d/i.scad>\ntranslate([0,5,0]) import(\"t.stl\");\n"; spit(scr("m.scad"), m);
    string big = m; for (int i = 0; i < 400; i++) big += mc::strf("// a comment that makes the file longer than one buffer %d\n", i); for (int i = 0; i < 12; i++) big += mc::strf("translate([%d,9,0]) cylinder(r=.4,h=1,$fn=9);\n", i); spit(scr("big.scad"), big); bigscad = big;
    spit(scr("one.scad"), "cube(1);\n"); spit(scr("empty.scad"), ""); spit(scr("warn.scad"), "cube(1,foo=2);\nminkowski(){cube(1);}\n");
    for (const char *in : {"one", "m", "big", "empty", "warn"}) for (const char *f : {"stl", "stb", "js", "ps", "scad"}) { string i = in, o = string("o.") + f; jobs.push_back({i + " to " + o, {"--step=1", i + ".scad", "-o", o}, o, false}); }
    for (const char *in : {"one", "m", "big", "empty", "warn"}) for (const char *d : {"--dump-syn", "--dump-scad", "--dump-csg3", "--dump-csg2", "--dump-ps", "--dump-js", "--dump-stl"}) { string i = in; jobs.push_back({i + " " + d + " to stdout", {"--step=1", d, i + ".scad"}, "run.out", true}); if (i == "one" || !strcmp(d, "--dump-syn")) jobs.push_back({i + " " + d + " to a file", {"--step=1", d, i + ".scad", "-o", "o.x"}, "o.x", false}); }
    jobs.push_back({"--help", {"--help"}, "run.out", true}); jobs.push_back({"quiet", {"-q", "--step=1", "one.scad", "-o", "o.stl"}, "o.stl", false});
}
struct Base { Res r; string out; Shared s; };
static std::map<string,Base> bases;
static const Base &base(const Job &j, const Plan &p0) { string key = j.name + "/" + std::to_string(p0.cookie) + std::to_string(p0.buf) + std::to_string(p0.so_cookie); auto i = bases.find(key); if (i != bases.end()) return i->second; Plan p = p0; p.f.clear(); p.chunk = 0; p.fsize = -1; unlink(scr(j.out).c_str()); Base b; b.r = go(j.args, p, scr("run.out").c_str()); b.out = slurp(scr(j.out)); b.s = *sh; if (!b.r.ok()) mc::harness_error("%s fails without a fault: %s %s", j.name.c_str(), b.r.how().c_str(), b.r.err.c_str()); return bases[key] = b; }
static string what(const Plan &p) { string s; static const char *n[] = {"", "open", "read", "write", "close"}; for (auto &f : p.f) s += mc::strf("%s %s #%ld%s fails: %s%s", s.empty() ? "" : " and", n[f.op], f.n, f.perm ? " and every later one" : "", strerror(f.err), f.part ? mc::strf(" after %ld bytes", f.part).c_str() : ""); if (p.chunk) s += mc::strf(" at most %ld bytes per read", p.chunk); if (p.buf >= 0) s += mc::strf(" (buffer of %d)", p.buf); if (p.fsize >= 0) s += mc::strf(" no file may exceed %ld bytes", p.fsize); return s; }
// kind: what may happen; may_recover: the run may succeed with the complete output
static void judge(const Job &j, const Plan &p, const Base &b, const Res &r, const string &out, bool hit, bool may_recover, const string &kind, const string &name = "", int err = 0) {
    mc::trans(); mc::state(mc::hash(j.name + what(p))); if (hit) mc::count("faults met");
    if (!hit) { if (!r.ok()) mc::fail("rejected:" + kind, "the output is complete, but: %s %s", r.how().c_str(), first_line(r.err).c_str()); else if (out != b.out) mc::fail("output:" + kind, "no failure, but the output differs (%zu bytes, expected %zu)", out.size(), b.out.size()); return; }
    if (r.ok()) { if (out != b.out) mc::fail("success:" + kind, "success claimed, but the output has %zu bytes instead of %zu%s", out.size(), b.out.size(), out.size() == b.out.size() ? " (wrong ones)" : ""); else if (!may_recover) mc::fail("success:" + kind, "success claimed in spite of the failure"); return; }
    if (r.sig == SIGALRM) { mc::fail("hang:" + kind, "does not end"); return; }
    size_t e = r.err.find("Error: "); bool panic = r.err.find("Fatal Error: ") != string::npos;
    if (r.sig && !(r.sig == SIGABRT && panic)) { mc::fail(site(r) + ":" + kind, "%s: %s", r.how().c_str(), r.err.c_str()); return; }
    if (e == string::npos) { mc::fail("message:" + kind, "%s without a message: %s", r.how().c_str(), r.err.c_str()); return; }
    string m = r.err.substr(e + 7); m = m.substr(0, m.find('\n')); if (!name.empty() && m.find(name) == string::npos) mc::fail("name:" + kind, "the message does not name the file '%s': %s", name.c_str(), m.c_str());
    if (err && m.find(strerror(err)) == string::npos) mc::fail("reason:" + kind, "the message does not give the reason '%s': %s", strerror(err), m.c_str());
}
static void fault(const Job &j, const Plan &p, const string &kind, bool may_recover, int err = 0, bool named = false) {
    if (!mc::next()) return; const Base &b = base(j, p); mc::desc_s(j.name + ":" + what(p)); mc::sample(j.name + ":" + what(p)); unlink(scr(j.out).c_str()); Res r = go(j.args, p, scr("run.out").c_str()); judge(j, p, b, r, slurp(scr(j.out)), sh->hits > 0, may_recover, kind, named ? sh->name : "", err);
}
void mc_main() {
    int T = mc::thorough; mc::set_hang(30); sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fixtures();
    auto fp = [](int op, long n, int e, bool perm, long part = 0) { Plan p; p.f = {{op, n, e, perm, part}}; return p; };
    { mc::phase("every open fails"); for (auto &j : jobs) { Plan z; z.so_cookie = j.so; long n = base(j, z).s.opens; for (long i = 0; i < n; i++) for (int e : {ENOENT, EACCES, EMFILE, ENOSPC, EROFS, EINTR, ENOMEM, ELOOP}) for (int perm = 0; perm < 2; perm++) { Plan p = fp(OPEN, i, e, perm); p.so_cookie = j.so; fault(j, p, "open", false, e, true); } } }
    { mc::phase("every read fails"); for (auto &j : jobs) for (int buf : {-1, 64}) { if (buf > 0 && !T && j.name.find("big") == 0 && j.name.find(".stl") == string::npos) continue; Plan z; z.buf = buf; z.so_cookie = j.so; long n = base(j, z).s.reads; long st = !T && n > 60 ? 5 : 1; for (long i = 0; i < n; i += st) for (int e : {EIO, EISDIR, EINTR, EAGAIN}) for (int perm = 0; perm < 2; perm++) for (long part : {0, 1, 7}) { if (part && !perm) continue; Plan p = fp(READ, i, e, perm, part); p.buf = buf; p.so_cookie = j.so; fault(j, p, "read", !perm, perm ? e : 0); } } }
    { mc::phase("short reads"); for (auto &j : jobs) for (long c = 1; c < (T ? 4200 : 70); c += c < 70 ? 1 : 97) { Plan p; p.chunk = c; p.so_cookie = j.so; fault(j, p, "short read", true); } }
    { mc::phase("every write fails"); for (auto &j : jobs) for (int so = 0; so < 2; so++) for (int buf : {-1, 0, 1, 50, 64, 200}) { if (so && !j.so) continue; Plan z; z.buf = buf; z.so_cookie = j.so; long n = base(j, z).s.writes; long st = n > (T ? 3000 : 60) ? n / (T ? 1500 : 45) | 1 : 1; for (long i = 0; i < n; i += i + 4 * st > n || i < 4 ? 1 : st) for (int e : {ENOSPC, EIO, EDQUOT, EINTR, EAGAIN}) for (int perm = 0; perm < 2; perm++) for (long part : {0, 1, 9}) {
          if (!T && (e == EDQUOT || e == EINTR) && (i + part) % 7) continue; if (part == 9 && !T && e != EIO) continue; Plan p = fp(WRITE, i, e, perm, part); p.buf = buf; p.so_cookie = j.so; fault(j, p, "write", !perm, perm ? e : 0); } } }
    { mc::phase("every close of an output file fails"); for (auto &j : jobs) { if (j.so) continue; for (int e : {EIO, ENOSPC, EDQUOT, EINTR}) for (int buf : {-1, 0, 64}) { Plan p = fp(CLOSE, 0, e, true); p.buf = buf; fault(j, p, "close", false, e); for (int k = 0; k < 4; k++) { Plan q = p; q.f.push_back({k < 2 ? WRITE : READ, k % 2 ? 3 : 0, EIO, k == 1, 0}); fault(j, q, k < 2 ? "write and close" : "read and close", false); } } } }
    { mc::phase("no room after every number of bytes"); for (auto &j : jobs) { Plan z; z.cookie = false; long n = (long)base(j, z).out.size(); long st = T ? 1 : n > 20000 ? 701 : n > 3000 ? 37 : 5; for (long k = 0; k <= n + 1; k += k < 3 || k + 3 * st > n || (k + 2) % 4096 < 4 ? 1 : std::min(st, std::max(1L, 4094 - k % 4096))) {
          if (!mc::next()) continue; Plan p; p.cookie = false; p.fsize = k; mc::desc_s(j.name + ":" + what(p)); mc::sample(j.name + ":" + what(p)); const Base &b = base(j, z); unlink(scr(j.out).c_str()); Res r = go(j.args, p, scr("run.out").c_str()); judge(j, p, b, r, slurp(scr(j.out)), k < n, false, j.so ? "no room, stdout" : "no room", "", k < n ? EFBIG : 0); } } }
    { mc::phase("full device"); for (auto &j : jobs) { if (!mc::next()) continue; Plan p; p.cookie = false; mc::desc_s(j.name + ": full device"); const Base b = base(j, p); if (j.so) { Res r = go(j.args, p, "/dev/full"); judge(j, p, b, r, "", !b.out.empty(), false, "full device, stdout", "", ENOSPC); }
          else { auto a = j.args; bool dump = false; for (auto &x : a) if (!x.compare(0, 6, "--dump")) dump = true; string suf = j.out.substr(1); if (dump) a.back() = "/dev/full"; else { unlink(scr("full" + suf).c_str()); if (symlink("/dev/full", scr("full" + suf).c_str())) mc::harness_error("symlink"); a.back() = "full" + suf; } Res r = go(a, p, scr("run.out").c_str()); judge(j, p, b, r, "", !b.out.empty(), false, "full device", "", ENOSPC); } } }
    { mc::phase("things that cannot be opened or read"); struct W { string path; int err; }; string lng(300, 'n'); symlink("loop", scr("loop").c_str()); symlink("ol.stl", scr("ol.stl").c_str()); symlink("ol", scr("ol").c_str());
      vector<W> in = {{"none", ENOENT}, {"d", EISDIR}, {"d/", EISDIR}, {".", EISDIR}, {"m.scad/x", ENOTDIR}, {"d/none/x", ENOENT}, {"loop", ELOOP}, {lng, ENAMETOOLONG}}; auto with = [&](const string &text, const W &w, const string &k, const vector<string> &a) { if (!mc::next()) return; spit(scr("q.scad"), text); mc::desc_s(k + " " + w.path + ": " + text); mc::sample(k + " " + w.path + ": " + text); Plan p; p.cookie = false; Job j{k, a, "o.stl", false}; unlink(scr("o.stl").c_str()); Base b; Res r = go(a, p, scr("run.out").c_str()); judge(j, p, b, r, slurp(scr("o.stl")), true, false, k, w.err == EISDIR ? "" : w.path, w.err); };
      for (auto &w : in) for (const char *pre : {"", "cube(1);", "union(){cube(1);}\n\n"}) { with("", w, "main", {w.path, "-o", "o.stl"}); with(string(pre) + "include <" + w.path + ">", w, "include", {"q.scad", "-o", "o.stl"}); for (const char *s : {"", ".stl", ".svg"}) { W v = w; v.path += s; if (*s && (w.err == EISDIR)) v.err = ENOENT; if (*s && w.err == ELOOP) v.err = ENOENT; with(string(pre) + "import(\"" + v.path + "\");", v, "import", {"q.scad", "-o", "o.stl"}); with(string(pre) + "linear_extrude(1)import(file=\"" + v.path + "\");", v, "import", {"q.scad", "-o", "o.stl"}); } }
      vector<W> out = {{"none/o.stl", ENOENT}, {"d/od", EISDIR}, {"od", EISDIR}, {"m.scad/x.stl", ENOTDIR}, {"ol", ELOOP}, {lng, ENAMETOOLONG}, {"", ENOENT}}; for (auto &w : out) for (const char *d : {"", "--dump-stl", "--dump-ps", "--dump-scad"}) { /* without a dump option, the ending decides on the format */ W v = w; if (!*d) { if (w.path.empty()) continue; if (w.path.find(".stl") == string::npos) v.path += ".stl"; } vector<string> a = {"one.scad", "-o", v.path}; if (*d) a.push_back(d); with("", v, "output", a); if (!w.path.empty()) { a[1] = "--o=" + v.path; a.erase(a.begin() + 2); } } }
    { mc::phase("closed standard streams"); for (auto &j : jobs) if (j.so && mc::next()) { mc::desc_s(j.name + ": standard output is closed"); Plan p; p.cookie = false; const Base b = base(j, p); /* a descriptor that cannot be written */ spit(scr("ro"), ""); Plan q = p; mc::trans(); pid_t pid = fork(); int st = 0; if (!pid) { int e = open(scr("run.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), o = open(scr("ro").c_str(), O_RDONLY); dup2(e, 2); dup2(o, 1); alarm(20); vector<string> av = {"hob3l"}; for (auto &x : j.args) av.push_back(x); vector<char *> v; for (auto &x : av) v.push_back(&x[0]); v.push_back(nullptr); exit(hob3l_main((int)av.size(), v.data())); } while (waitpid(pid, &st, 0) < 0) {} mc::trace(); Res r; if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st); r.err = slurp(scr("run.err")); judge(j, q, b, r, "", !b.out.empty(), false, "standard output is not writable", "", EBADF); } }
}
