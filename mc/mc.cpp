#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <map>
#include <algorithm>

namespace mc {
bool thorough; uint64_t seed = 1; int shard, nshards = 1; std::string scratch;

static const size_t HN = 1u << 21;
struct Cnt { char name[40]; uint64_t n; };
struct Shared {
    volatile uint64_t idx;       // running case, ~0 = none
    volatile uint64_t total;     // cases seen (all shards)
    volatile uint64_t mine;      // cases run by this shard
    volatile uint64_t done_upto; // cases < this one are finished
    volatile uint64_t beat;
    volatile uint64_t trans, traces, nviol, nhash, hash_overflow;
    volatile int finished, harness_err;
    char phase[64];
    char desc[1 << 16];
    char herr[4096];
    Cnt cnt[64];
    struct { char name[64]; uint64_t n; } ph[96]; volatile int phi;
    uint64_t tab[HN];
};
static Shared *S;
static uint64_t cur, skip_until; static long only = -1;
static int viol_fd = -1, samp_fd = -1;
static bool cur_failed; static double hang_s = 30;
static std::map<std::string,int> samp_cnt;
static std::map<std::string,int> key_cnt;

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}
static uint64_t counter; // index of next case
bool next() {
    uint64_t i = counter++;
    S->total = counter; S->ph[S->phi].n++;
    if (S->idx != ~0ull) { S->done_upto = S->idx + 1; S->idx = ~0ull; }
    if (only >= 0) { if ((long)i != only) return false; }
    else { if (i % (uint64_t)nshards != (uint64_t)shard) return false; if (i < skip_until) return false; }
    cur = i; cur_failed = false; S->desc[0] = 0; S->mine = S->mine + 1; S->beat = S->beat + 1; S->idx = i;
    return true;
}
uint64_t index() { return cur; }
bool failed() { return cur_failed; }
void beat() { S->beat = S->beat + 1; }
void set_hang(double s) { hang_s = s; }
void phase(const char *n) {
    snprintf(S->phase, sizeof S->phase, "%s", n);
    for (int k = 0; k < 96; k++) {
        if (!S->ph[k].name[0]) memcpy(S->ph[k].name, S->phase, sizeof S->phase);
        if (!strncmp(S->ph[k].name, S->phase, sizeof S->phase)) { S->phi = k; return; }
    }
}
void desc_s(const std::string &s) { size_t n = std::min(s.size(), sizeof(S->desc) - 1); memcpy(S->desc, s.data(), n); S->desc[n] = 0; }
void desc(const char *fmt, ...) { va_list v; va_start(v, fmt); vsnprintf(S->desc, sizeof S->desc, fmt, v); va_end(v); }
static void wr(int fd, const std::string &s) { if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) _exit(99); }
static void put_viol(const std::string &key, const std::string &what) {
    wr(viol_fd, "{\"key\":" + jstr(key) + ",\"index\":" + std::to_string(S->idx == ~0ull ? cur : S->idx) + ",\"phase\":" + jstr(S->phase)
       + ",\"what\":" + jstr(what.substr(0, 8000)) + ",\"case\":" + jstr(std::string(S->desc).substr(0, 20000)) + "}\n");
    S->nviol = S->nviol + 1;
}
void fail(const std::string &key, const char *fmt, ...) {
    va_list v; va_start(v, fmt); char *p = nullptr; if (vasprintf(&p, fmt, v) < 0) abort(); va_end(v);
    cur_failed = true;
    if (key_cnt[key]++ < 5) put_viol(key, p);
    else S->nviol = S->nviol + 1;
    free(p);
}
void state(uint64_t h) {
    if (!h) h = 1;
    size_t i = h & (HN - 1);
    for (size_t k = 0; k < 4096; k++, i = (i + 1) & (HN - 1)) {
        if (S->tab[i] == h) return;
        if (!S->tab[i]) { S->tab[i] = h; S->nhash = S->nhash + 1; return; }
    }
    S->hash_overflow = S->hash_overflow + 1;
}
void trans(uint64_t n) { S->trans = S->trans + n; }
void trace(uint64_t n) { S->traces = S->traces + n; }
void count(const char *name, uint64_t n) {
    for (auto &c : S->cnt) {
        if (!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", name); }
        if (!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
    }
}
void sample(const std::string &s) {
    if (samp_cnt[S->phase]++ >= 2) return;
    wr(samp_fd, "{\"phase\":" + jstr(S->phase) + ",\"index\":" + std::to_string(cur) + ",\"case\":" + jstr(s.substr(0, 1500)) + "}\n");
}
void harness_error(const char *fmt, ...) {
    va_list v; va_start(v, fmt); vsnprintf(S->herr, sizeof S->herr, fmt, v); va_end(v);
    S->harness_err = 1; fprintf(stderr, "harness error: %s\n", S->herr); _exit(98);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static std::string tail(const std::string &file, size_t n) {
    FILE *f = fopen(file.c_str(), "rb"); if (!f) return "";
    std::string s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > (1u << 22)) break; }
    fclose(f);
    // a sanitizer report is most telling at its beginning
    size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error:");
    if (p != std::string::npos) { size_t q = p > 200 ? p - 200 : 0; return s.substr(q, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
}
// first line with an assertion/sanitizer text, for a stable key
static std::string crash_site(const std::string &e) {
    size_t p;
    if ((p = e.find("Assertion")) != std::string::npos || (p = e.find("runtime error:")) != std::string::npos ||
        (p = e.find("AddressSanitizer:")) != std::string::npos || (p = e.find("PANIC")) != std::string::npos || (p = e.find("Fatal Error")) != std::string::npos) {
        return e.substr(p, std::min<size_t>(e.find('\n', p) - p, 100));
    }
    return "";
}
struct Child { int status; bool hang; };
static Child run_child(const std::string &errfile, double hang, long only_) {
    pid_t me = getpid();
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(97);
        setpgid(0, 0);
#ifndef __SANITIZE_ADDRESS__
        struct rlimit rl = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &rl);   // code that allocates without end fails by itself
#endif
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(fd, 2); dup2(fd, 1); close(fd);
        only = only_; counter = 0; if (only < 0) for (auto &p : S->ph) p.n = 0;
        mc_main();
        if (S->idx != ~0ull) { S->done_upto = S->idx + 1; S->idx = ~0ull; }
        S->finished = 1;
        fflush(nullptr); _exit(0);
    }
    uint64_t last = ~0ull; double t0 = now(); Child c{0, false};
    for (;;) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) { c.status = st; kill(-pid, SIGKILL); return c; }
        if (S->beat != last) { last = S->beat; t0 = now(); }
        if (S->idx == ~0ull) t0 = now() ;
        if (now() - t0 > hang) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); c.status = st; c.hang = true; return c; }
        usleep(2000);
    }
}
}
using namespace mc;
int main(int argc, char **argv) {
    std::string out;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--shard") shard = atoi(argv[++i]);
        else if (a == "--nshards") nshards = atoi(argv[++i]);
        else if (a == "--tier") thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--out") out = argv[++i];
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--only") only = atol(argv[++i]);
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    S->idx = ~0ull;
    viol_fd = open((out + ".viol").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    samp_fd = open((out + ".samp").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    std::string ef = scratch + "/stderr";
    long the_only = only; int crashes = 0; int capped = 0;
    for (;;) {
        Child c = run_child(ef, hang_s, the_only);
        if (S->finished && !c.hang && WIFEXITED(c.status) && WEXITSTATUS(c.status) == 0) break;
        if (S->harness_err || S->idx == ~0ull) {
            fprintf(stderr, "shard %d: harness died outside of a case (status %x): %s\n%s\n", shard, c.status, S->herr, tail(ef, 3000).c_str());
            return 2;
        }
        uint64_t at = S->idx;
        std::string e = tail(ef, 3000);
        // replay alone before reporting
        uint64_t tr = S->trans, ts = S->traces; char ph[64]; memcpy(ph, S->phase, 64);
        uint64_t mine0 = S->mine;
        S->idx = ~0ull; 
        Child c2 = run_child(ef, c.hang ? 90 : hang_s, (long)at);
        S->trans = tr; S->traces = ts; S->mine = mine0;
        bool again = c2.hang || !(WIFEXITED(c2.status) && WEXITSTATUS(c2.status) == 0);
        S->finished = 0;
        if (again) {
            S->idx = at; memcpy(S->phase, ph, 64);
            e = tail(ef, 3000);
            if (c2.hang) put_viol("hang", "no progress for " + std::to_string(c.hang ? 90.0 : hang_s) + " s");
            else if (WIFSIGNALED(c2.status)) put_viol("crash:" + crash_site(e), strf("killed by signal %d: ", WTERMSIG(c2.status)) + e);
            else put_viol("crash:" + crash_site(e), strf("exit %d: ", WEXITSTATUS(c2.status)) + e);
        } else if (!c.hang) {
            fprintf(stderr, "shard %d: case %lu died once (status %x) but not when run alone\n%s\n", shard, (unsigned long)at, c.status, e.c_str());
            if (++crashes > 3) return 2;   // state leak between cases: the harness is wrong or the code keeps state
            // report it: the same process history fails
            S->idx = at; put_viol("crash-in-sequence:" + crash_site(e), "dies after the preceding cases in the same process: " + e);
        }
        S->idx = ~0ull;
        if (the_only >= 0) break;
        skip_until = at + 1;
        if (++crashes > 12) { capped = 1; break; }
    }
    FILE *f = fopen((out + ".json").c_str(), "w");
    fprintf(f, "{\"shard\":%d,\"total\":%lu,\"mine\":%lu,\"trans\":%lu,\"traces\":%lu,\"nviol\":%lu,\"nhash\":%lu,\"hash_overflow\":%lu,\"capped\":%d,\"counters\":{",
        shard, (unsigned long)S->total, (unsigned long)S->mine, (unsigned long)S->trans, (unsigned long)S->traces, (unsigned long)S->nviol, (unsigned long)S->nhash, (unsigned long)S->hash_overflow, capped);
    bool first = true;
    for (auto &k : S->cnt) if (k.name[0]) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(k.name).c_str(), (unsigned long)k.n); first = false; }
    fprintf(f, "},\"phases\":{");
    first = true;
    for (auto &p : S->ph) if (p.name[0]) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(p.name).c_str(), (unsigned long)p.n); first = false; }
    fprintf(f, "}}\n"); fclose(f);
    f = fopen((out + ".hash").c_str(), "wb");
    for (size_t i = 0; i < HN; i++) if (S->tab[i]) fwrite(&S->tab[i], 8, 1, f);
    fclose(f);
    return 0;
}
