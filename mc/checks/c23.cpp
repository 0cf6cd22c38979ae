// C23: UTF-8 decoding and encoding, string escapes.
#include "../mc.hpp"
#include "../bshim.h"
using std::string;
// the Unicode table of well-formed sequences (Table 3-7), independent of arithmetic in the decoder
static int wf(const unsigned char *s, size_t n, unsigned &cp) { // length, 0 if ill-formed, -1 at NUL
    auto c = [&](size_t i) -> unsigned { return i < n ? s[i] : 0; }; auto in = [&](size_t i, unsigned a, unsigned b) { return c(i) >= a && c(i) <= b; };
    unsigned a = c(0); if (a == 0) { cp = 0; return -1; } if (a < 0x80) { cp = a; return 1; }
    if (a >= 0xc2 && a <= 0xdf && in(1, 0x80, 0xbf)) { cp = (a - 0xc0) * 64 + (c(1) - 0x80); return 2; }
    bool t = (a == 0xe0 && in(1, 0xa0, 0xbf)) || (a >= 0xe1 && a <= 0xec && in(1, 0x80, 0xbf)) || (a == 0xed && in(1, 0x80, 0x9f)) || (a >= 0xee && a <= 0xef && in(1, 0x80, 0xbf));
    if (t && in(2, 0x80, 0xbf)) { cp = (a - 0xe0) * 4096 + (c(1) - 0x80) * 64 + (c(2) - 0x80); return 3; }
    bool f = (a == 0xf0 && in(1, 0x90, 0xbf)) || (a >= 0xf1 && a <= 0xf3 && in(1, 0x80, 0xbf)) || (a == 0xf4 && in(1, 0x80, 0x8f));
    if (f && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf)) { cp = (a - 0xf0) * 262144 + (c(1) - 0x80) * 4096 + (c(2) - 0x80) * 64 + (c(3) - 0x80); return 4; }
    return 0;
}
static string hex(const unsigned char *s, size_t n) { string r; for (size_t i = 0; i < n; i++) r += mc::strf("%02x ", s[i]); return r; }
static bool one(const unsigned char *buf, size_t n, size_t size, bool nul) { // the buffer ends exactly where it may be read
    size_t room = size == (size_t)-1 ? n : std::min(size, n); (void)nul;
    for (int esc = 0; esc < 2; esc++) { if (esc && buf[0] == '\\') continue;
        const char *p = (const char *)buf, *err; size_t left = size; unsigned got = bu_decode(&p, &left, &err, esc); unsigned cp = 0; int l = room ? wf(buf, room, cp) : -1; mc::trans();
        size_t adv = (size_t)(p - (const char *)buf);
        if (l > 0) { if (got != cp || err || adv != (size_t)l || (size != (size_t)-1 && left != size - adv)) { mc::fail("decode", "%sdecodes to U+%04X, advance %zu, error %s; expected U+%04X, %d", hex(buf, n).c_str(), got, adv, err ? err : "none", cp, l); return false; } }
        else if (l < 0) { if (got != 0 || err || adv != 0) { mc::fail("decode-end", "%sgives U+%04X, advance %zu, error %s at the end", hex(buf, n).c_str(), got, adv, err ? err : "none"); return false; } }
        else if (got != 0 || !err || adv != 0) { mc::fail("decode-accepts", "ill-formed %s(size %zd) gives U+%04X, advance %zu, error %s", hex(buf, n).c_str(), (ssize_t)size, got, adv, err ? err : "none"); return false; }
        mc::state(mc::hash(mc::strf("%d.%u", l, cp))); }
    return true;
}
void mc_main() {
    bool T = mc::thorough;
    // every 1-, 2- and 3-byte prefix, every continuation class for the rest; in exact heap buffers (ASan)
    unsigned char cls[] = {0, 1, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xff};
    mc::phase("every sequence of up to three bytes, followed by a byte of every class");
    for (int a = 0; a < 256; a++) { if (!mc::next()) continue; mc::desc("first byte %02x", a); mc::sample(mc::strf("all sequences that begin with %02x", a)); bool ok = true;
        for (int b = 0; ok && b < 256; b++) for (int c = 0; ok && c < 256; c++) { bool full = T || (a >= 0xe0 && a <= 0xf5) || b < 2; for (unsigned char d : cls) { if (!full && d != 0x80) continue; if (!T && !(b % 16 == 0 || b % 16 == 15) && !(c % 16 == 0 || c % 16 == 15) && a < 0xe0) continue;
            unsigned char *p = (unsigned char *)malloc(5); p[0] = (unsigned char)a; p[1] = (unsigned char)b; p[2] = (unsigned char)c; p[3] = d; p[4] = 0; ok = one(p, 5, (size_t)-1, true); free(p); mc::trace(); if (!ok) break; } }
        // truncated buffers: only the given size may be read
        for (int b = 0; ok && b < 256; b++) for (unsigned char c : cls) for (size_t n = 0; ok && n <= 3; n++) { unsigned char *p = (unsigned char *)malloc(n + 1); unsigned char s[3] = {(unsigned char)a, (unsigned char)b, c}; memcpy(p, s, n); p[n] = 0x80; ok = one(p, n + 1, n, false); free(p); mc::trace(); } }
    mc::phase("every code point: encode, decode, decode with a preceding and a following character");
    for (unsigned base = 0; base < 0x110800; base += 0x400) { if (!mc::next()) continue; mc::desc("U+%04X..", base); mc::sample(mc::strf("U+%04X..U+%04X", base, base + 0x3ff));
        for (unsigned cp = base; cp < base + 0x400; cp++) { bool good = cp != 0 && cp <= 0x10ffff && !(cp >= 0xd800 && cp < 0xe000); mc::trans(); mc::trace();
            if (!!bu_ok(cp) != good) { mc::fail("ok", "U+%04X is said to be %s", cp, good ? "invalid" : "valid"); break; }
            if (!good) continue; size_t want = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; bool bad = false;
            for (size_t room = 0; room <= 4 && !bad; room++) { char *d = (char *)malloc(room + 1); d[room] = 0x55; size_t n = bu_encode(d, room, cp); if (n != (room >= want ? want : 0) || d[room] != 0x55) { mc::fail("encode", "U+%04X into %zu bytes: length %zu", cp, room, n); bad = true; }
                if (!bad && n) { unsigned back = 0; if (wf((unsigned char *)d, n, back) != (int)n || back != cp) { mc::fail("encode", "U+%04X encodes to %s", cp, hex((unsigned char *)d, n).c_str()); bad = true; } } free(d); }
            if (bad) break; char s[12] = "x"; size_t n = bu_encode(s + 1, 4, cp); s[1 + n] = 'y'; s[2 + n] = 0; const char *p = s; unsigned r[3]; for (int i = 0; i < 3; i++) r[i] = bu_take(&p); if (r[0] != 'x' || r[1] != cp || r[2] != 'y' || p != s + n + 2) { mc::fail("take", "x U+%04X y comes back as U+%04X U+%04X U+%04X", cp, r[0], r[1], r[2]); break; } } 
        mc::state(mc::hash(mc::strf("cp%u", base))); }
    // escapes: every backslash sequence over an alphabet
    mc::phase("every escape sequence over the alphabet");
    string al = T ? string("\\\"'abcdfgnrtxuU0123789ADEFGZ/:@` \x80\xc3", 35) : string("\\\"'afgnrtxuU0179DF/@\xc3", 21); int D = T ? 5 : 4; size_t K = al.size();
    for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) { if (!mc::next()) continue; mc::desc("escape \\%c%c..", al[i], al[j]); mc::sample(mc::strf("\\%c%c followed by everything", al[i], al[j])); bool ok = true; size_t N = 1; for (int d = 2; d < D; d++) N *= K;
        for (size_t t = 0; ok && t < N; t++) { string s = "\\"; s += al[i]; s += al[j]; size_t q = t; for (int d = 2; d < D; d++, q /= K) s += al[q % K]; s += "4F";
            for (size_t cut = 1; ok && cut <= s.size(); cut += (t == 0 ? 1 : s.size() - 1)) { if (t && cut == 1) continue; size_t n = t ? s.size() : cut; if (n < 2) continue; // a lone backslash cannot come out of the lexer
                char *buf = (char *)malloc(n + 1); memcpy(buf, s.data(), n); buf[n] = 0; const char *p = buf, *err; size_t left = n; unsigned got = bu_decode(&p, &left, &err, 1); size_t adv = (size_t)(p - buf); mc::trans(); mc::trace();
                unsigned want = 0; size_t len = 0; bool good = false; auto hx = [&](size_t k) -> int { return k < n && isxdigit((unsigned char)buf[k]) ? (buf[k] <= '9' ? buf[k] - '0' : (buf[k] | 32) - 'a' + 10) : -1; };
                switch (buf[1]) { case '\\': case '\'': case '"': want = (unsigned)buf[1]; len = 2; good = true; break; case 'n': want = 10; len = 2; good = true; break; case 'r': want = 13; len = 2; good = true; break; case 't': want = 9; len = 2; good = true; break;
                    case 'x': case 'u': case 'U': { size_t dg = buf[1] == 'x' ? 2 : buf[1] == 'u' ? 4 : 6; good = true; for (size_t k = 0; k < dg; k++) { int h = hx(2 + k); if (h < 0) { good = false; break; } want = want * 16 + (unsigned)h; } len = 2 + dg; if (want > (buf[1] == 'x' ? 0x7fu : 0x10ffffu)) good = false; break; } }
                bool skip = good && (want == 0 || (want >= 0xd800 && want < 0xe000)); // not valid code points: covered by the phase below
                if (!skip) { if (good ? (got != want || err || adv != len || left != n - len) : (got != 0 || !err || adv != 0)) { mc::fail("escape", "%s gives U+%04X, advance %zu, error %s; expected %s U+%04X", hex((unsigned char *)buf, n).c_str(), got, adv, err ? err : "none", good ? "accepted" : "rejected", want); ok = false; } }
                free(buf); if (t) break; } 
            mc::state(mc::hash(mc::strf("%c%c%zu", al[i], al[j], t % 512))); } }
    mc::phase("every hexadecimal escape value");
    for (unsigned base = 0; base < 0x112000; base += 0x1000) { if (!mc::next()) continue; mc::desc("escape values 0x%x..", base); mc::sample(mc::strf("\\x, \\u and \\U of 0x%X..0x%X, both letter cases", base, base + 0xfff)); bool ok = true;
        for (unsigned v = base; ok && v < base + 0x1000; v++) for (int f = 0; ok && f < 6; f++) { int dg = f / 2 == 0 ? 2 : f / 2 == 1 ? 4 : 6; if (dg < 6 && (v >> (4 * dg))) continue; char b[16]; snprintf(b, sizeof b, f % 2 ? "\\%c%0*X!" : "\\%c%0*x!", "xuU"[f / 2], dg, v);
            bool good = v != 0 && v <= (dg == 2 ? 0x7fu : 0x10ffffu) && !(v >= 0xd800 && v < 0xe000); const char *p = b, *err; size_t left = strlen(b); unsigned got = bu_decode(&p, &left, &err, 1); mc::trans(); mc::trace();
            if ((v == 0xfffe || v == 0xffff || v == 0x10fffe || v == 0x10ffff) ? false : good ? (got != v || err || p != b + 2 + dg) : !err) { mc::fail(good ? "escape-value" : "escape-invalid", "%s gives U+%04X, error %s", b, got, err ? err : "none"); ok = false; } }
        mc::state(mc::hash(mc::strf("ev%u", base))); }
}
