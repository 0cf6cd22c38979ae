// C19: the XML reader against a reference recogniser written from the XML 1.0 and Namespaces grammars.
#include "../mc.hpp"
#include "../xshim.h"
#include <string>
#include <vector>
using std::string; using std::vector;
typedef vector<unsigned> U;
static bool decode(const string &s, U &u) {
    size_t i = 0, n = s.size(); while (i < n) { unsigned char c = s[i++]; if (c < 128) { if (!c) return false; u.push_back(c); continue; } int k = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc2 ? 1 : -1; if (k < 0 || c > 0xf4) return false; unsigned v = k == 1 ? c & 31 : k == 2 ? c & 15 : c & 7; for (int q = 0; q < k; q++) { if (i >= n || ((unsigned char)s[i] & 0xc0) != 0x80) return false; v = v << 6 | (s[i++] & 63); } if ((k == 2 && v < 0x800) || (k == 3 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false; u.push_back(v); }
    return true;
}
static void enc(string &o, unsigned v) { if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xf0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } }
struct Bad {};
struct Attr { string p, n, v; bool has; };
struct Ref {
    U u; size_t i = 0; bool odd = false, chomp; string o; typedef vector<std::pair<string,string>> Ns;
    unsigned at(size_t k = 0) const { return i + k < u.size() ? u[i + k] : 0; }
    [[noreturn]] void bad() { throw Bad(); }
    bool is(const char *s) const { for (size_t k = 0; s[k]; k++) if (at(k) != (unsigned char)s[k]) return false; return true; }
    bool eat(const char *s) { if (!is(s)) return false; i += strlen(s); return true; }
    bool wide(unsigned c) const { return c == 0x0c || c == 0x85 || c == 0x2028 || c == 0x2029; } // white space beyond XML's
    bool wsc(unsigned c) const { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || wide(c); }
    bool ws() { size_t b = i; while (wsc(at())) { if (wide(at())) odd = true; i++; } return i > b; }
    bool namec(unsigned c, bool first) { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_') return true; if (!first && ((c >= '0' && c <= '9') || c == '-' || c == '.')) return true; if (c == 0 || wsc(c)) return false; if (c < 32 || c == 127) { odd = true; return true; } if (c < 128) return false; if (!(c >= 0xc0 && c <= 0x2ff && c != 0xd7 && c != 0xf7)) odd = true; return true; }
    string name() { string s; if (!namec(at(), true)) bad(); while (namec(at(), false)) enc(s, u[i++]); return s; }
    void qname(string &p, string &n) { n = name(); p = ""; if (at() == ':') { i++; p = n; n = name(); } }
    unsigned ref() { i++; if (eat("quot;")) return '"'; if (eat("lt;")) return '<'; if (eat("gt;")) return '>'; if (eat("amp;")) return '&'; if (eat("apos;")) return '\''; if (at() != '#') bad(); i++; unsigned long v = 0; unsigned b = 10; int n = 0; if (at() == 'x' || at() == 'X') { if (at() == 'X') odd = true; b = 16; i++; } for (;; i++, n++) { unsigned c = at(), d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= b) break; v = v * b + d; if (v > 0x110000) v = 0x110000; } if (!n || at() != ';' || !v || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) bad(); i++; if (v < 32 && v != 9 && v != 10 && v != 13) odd = true; if (v == 0xfffe || v == 0xffff) odd = true; return (unsigned)v; }
    void ch(string &s) { unsigned c = at(); if (c == '&') { enc(s, ref()); return; } if (c == 0xfffe || c == 0xffff || (c < 32 && c != 9 && c != 10 && c != 13)) odd = true; enc(s, c); i++; }
    vector<Attr> attrs() { vector<Attr> v; for (;;) { bool sp = ws(); unsigned c = at(); if (c == 0) bad(); if (c == '/' || c == '>' || c == '?') return v; if (!sp) odd = true; Attr a; qname(a.p, a.n); size_t k = i; ws(); a.has = at() == '='; if (!a.has) { i = k; } else { i++; ws(); unsigned d = at(); if (d != '"' && d != '\'') bad(); i++; while (at() != d) { if (!at() || at() == '<') bad(); ch(a.v); } i++; } for (auto &b : v) if (b.p == a.p && b.n == a.n) odd = true; v.push_back(a); } }
    string find(const Ns &ns, const string &p) { if (p == "xml") return "http://www.w3.org/XML/1998/namespace"; for (size_t k = ns.size(); k-- > 0;) if (ns[k].first == p) return ns[k].second; if (p.empty()) return ""; bad(); }
    void comment() { while (!is("--")) { if (!at()) bad(); i++; } if (!eat("-->")) bad(); }
    void decl(vector<Attr> &v, Ns &ns, vector<Attr> &rest) { for (auto &a : v) { if (a.p == "xmlns") { if (a.n == "xml" || a.n == "xmlns" || a.v.empty()) odd = true; ns.push_back({a.n, a.v}); } else if (a.p.empty() && a.n == "xmlns") { if (!a.has) odd = true; ns.push_back({"", a.v}); } else rest.push_back(a); } }
    void text() { string s; bool any = false; while (at() && at() != '<') { if (is("]]>")) odd = true; ch(s); any = true; } if (!any) return; if (chomp) { U w; decode(s, w); size_t b = 0, e = w.size(); while (b < e && wsc(w[b])) b++; while (e > b && wsc(w[e - 1])) e--; s = ""; for (; b < e; b++) enc(s, w[b]); if (s.empty()) return; } o += "T" + s + "\2"; }
    void elem(Ns ns) { string p, n; qname(p, n); auto v = attrs(); vector<Attr> a; decl(v, ns, a); if (at() == '?') bad(); o += "<{" + find(ns, p) + "}" + n + "\2"; for (auto &x : a) { if (x.p == "xmlns") bad(); o += "@{" + (x.p.empty() ? "" : find(ns, x.p)) + "}" + x.n + (x.has ? "=" + x.v : "") + "\2"; } if (eat("/>")) { o += ">"; return; } if (!eat(">")) bad(); for (;;) { if (at() == 0) bad(); if (at() != '<') { text(); continue; } if (eat("<!--")) { comment(); continue; } if (eat("</")) { string q, m; qname(q, m); if (q != p || m != n) bad(); ws(); if (!eat(">")) bad(); break; } i++; elem(ns); } o += ">"; }
    void misc() { for (;;) { ws(); if (!eat("<!--")) return; comment(); } }
    void doc() { if (at() == 0xfeff) i++; Ns ns; if (eat("<?")) { if (name() != "xml") bad(); auto v = attrs(); vector<Attr> a; decl(v, ns, a); if (a.size() != v.size() || a.empty() || a[0].n != "version") odd = true; for (auto &x : a) { if (!x.p.empty()) odd = true; o += "@{}" + x.n + (x.has ? "=" + x.v : "") + "\2"; if (!x.has) odd = true; } if (!eat("?>")) bad(); }
        misc(); if (eat("<!DOCTYPE")) { if (!wsc(at())) odd = true; size_t b = i; while (at() && at() != '>') i++; bool simple = true; for (size_t k = b; k < i; k++) if (strchr("[]<\"'&", (int)(u[k] < 128 ? u[k] : 'a'))) simple = false; if (!simple) { odd = true; size_t q = i; while (at()) { i++; } (void)q; throw 1; } if (!at()) bad(); i++; size_t k = b; while (k < i && wsc(u[k])) k++; if (!namec(u[k], true)) odd = true; misc(); }
        if (at() != '<') bad(); i++; elem(ns); misc(); if (i < u.size()) bad(); }
};
static int ref(const string &s, bool chomp, string &o) { // 0 reject, 1 accept, 2 either
    Ref r; r.chomp = chomp; if (!decode(s, r.u)) return 0; try { r.doc(); } catch (Bad &) { return 0; } catch (int) { return 2; } o = r.o; return r.odd ? 2 : 1; }
static string show(const string &s) { string o; for (char c : s) o += c == 2 ? '~' : c; return o; }
static string klass(const string &s) { for (auto p : {"<![", "<?", "<!--", "<!", "&", "xmlns"}) if (s.find(p) != string::npos) return p; return "elements"; }
static void one(const string &s) {
    if (!mc::next()) return; mc::desc_s(s); mc::sample(s);
    for (int chomp = 0; chomp < 2; chomp++) { string want; int v = ref(s, chomp, want); const char *got; long loc; mc::trans(); bool ok = x_parse(s.data(), s.size(), chomp, &got, &loc); if (v == 2) { mc::trace(); continue; }
        mc::state(mc::hash(v ? want : "rejected"));
        if (v == 0) { if (ok) mc::fail("accepted:" + klass(s), "not well-formed, but accepted as %s", show(got).c_str()); else if (loc < 0 || !*got) mc::fail(loc == -2 ? "location" : "no message", "rejected without a message and a place in the document: '%s' %ld", got, loc); }
        else if (!ok) mc::fail("rejected:" + klass(s), "well-formed, but rejected at %ld: %s (expected %s)", loc, got, show(want).c_str()); else if (want != got) mc::fail("content:" + klass(s), "read as %s, expected %s", show(got).c_str(), show(want).c_str()); }
}
static void seqs(const char *ph, const vector<string> &t, int n, const string &pre = "", const string &suf = "") { mc::phase(ph); for (int l = 0; l <= n; l++) { vector<int> d(l, 0); for (;;) { string s = pre; for (int k : d) s += t[k]; one(s + suf); int k = l - 1; while (k >= 0 && ++d[k] == (int)t.size()) d[k--] = 0; if (k < 0) break; } } }
void mc_main() {
#ifdef SHALLOW
    int T = 0;
#else
    int T = mc::thorough;
#endif
    mc::set_hang(20);
    seqs("characters", {"<", ">", "/", "a", " ", "=", "\"", "'", "!", "-", "?", "&", ";", "#", ":"}, 5 + T);
    seqs("markup", {"<a>", "</a>", "<b>", "</b>", "<a/>", "<!--", "-->", "x", " ", "<a ", ">", "&lt;"}, 5 + T);
    seqs("inside an element", {"<", "</", "a", "b", ">", "/>", "<!--", "-->", "-", "&#65;", "&amp;", "]]>", " ", "x"}, 4 + T, "<a>", "</a>");
    seqs("inside a tag", {"b", "c", " ", "=", "\"", "'", ":", "\"v\"", "'w'", "&quot;", "<", ">", "/", "\n"}, 5 + T, "<a ", "/>");
    seqs("value of an attribute", {"\"", "'", "&quot;", "&apos;", "&#34;", "&", "<", ">", "a", " ", "&#x3c;", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}, 4 + T, "<a b=\"", "\"/>");
    seqs("namespaces", {" xmlns=\"u\"", " xmlns=''", " xmlns:p=\"v\"", " xmlns:p='w'", " p:c=\"1\"", " c='1'", "<p:d", "<d", "/>", ">", "</p:d>", "</d>"}, 5 + T, "<a", "</a>");
    seqs("two namespaces", {"<p:b", "<q:b", "<b", " xmlns:p='1'", " xmlns:q='2'", " xmlns='3'", " p:x=''", " q:x=''", "/>", "><!---->t", "</p:b>", "</q:b>", "</b>", ">"}, 4 + T, "<a xmlns:p=\"0\" xmlns:q='9'>", "</a>");
    seqs("prolog", {"<?xml version=\"1.0\"?>", "<?xml", " version='1.0'", " encoding='utf-8'", "?>", "<!DOCTYPE a>", "<!DOCTYPE", " a", ">", "<!---->", "\n", "\xef\xbb\xbf", "<a/>"}, 5 + T);
    seqs("document", {"<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<!-- c -->", "\n", "<a/>", "<a>", "</a>", "t", "<![CDATA[x]]>", "<?pi?>", "<!ENTITY b \"c\">", "&b;"}, 5 + T);
    seqs("comments", {"-", "--", "->", "-->", "<!--", ">", "<", "!", "x", "</a>", "&"}, 5 + T, "<a><!--", "--></a>");
    seqs("white space", {" ", "\t", "\n", "\r", "x", "<b/>", "<!-- -->", "&#32;", "\xc2\xa0", "\xe2\x80\xa8"}, 5 + T, "<a>", "</a>");
    { mc::phase("white space at every place"); for (const char *w : {"", " ", "\t", "\n", "\r\n", "  ", "\f", "\xc2\x85"}) for (int p = 0; p < 1 << 12; p++) { static const char *part[] = {"", "<", "p:a", " b", "=", "'1'", "", " xmlns:p", "='u'", ">", "</", "p:a", ">"}; if (__builtin_popcount(p) > 4 && !T) continue; string s; for (int k = 0; k < 13; k++) { s += part[k]; if (k < 12 && (p >> k & 1)) s += w; } one(s); } }
    { mc::phase("every byte and every pair of bytes"); for (int a = 0; a < 256; a++) for (const char *c : {"%", "<%", "<a%", "<a%/>", "<%/>", "<%></%>", "<a%></a>", "<a></a%>", "<a>%</a>", "<a b%='x'/>", "<a b='%'/>", "<a b=\"%\"/>", "<a/>%", "<!--%--><a/>", "<a>&%;</a>", "<a>&#%;</a>", "<a>&#x%;</a>", "<p%:a/>", "<?xml%version='1.0'?><a/>", "<?xml version='1.0'%?><a/>", "<!DOCTYPE%a><a/>", "<!%", "<a><!%", "<a b%", "<a b=%", "</%", "<a></%", "<?%", "&%", "<a>&%"}) { string s; for (const char *q = c; *q; q++) if (*q == '%') s += (char)a; else s += *q; one(s); }
      for (int a = 128; a < 256; a++) for (int b = 0; b < 256; b++) for (const char *c : {"<a>%</a>", "<%/>", "<a b='%'/>"}) { string s; for (const char *q = c; *q; q++) if (*q == '%') { s += (char)a; s += (char)b; } else s += *q; one(s); }
      for (unsigned a : {0xe0u, 0xe1u, 0xe2u, 0xecu, 0xedu, 0xeeu, 0xefu, 0xf0u, 0xf1u, 0xf3u, 0xf4u, 0xf5u}) for (int b = 0x7f; b < 0xc2; b++) for (int c : {0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0x41}) for (int d : {0, 0x7f, 0x80, 0xbf, 0xc0}) { string s = "<a>"; s += (char)a; s += (char)b; s += (char)c; if (d) s += (char)d; one(s + "</a>"); } }
    { mc::phase("character references"); vector<unsigned long> v; for (unsigned long k = 0; k < (T ? 0x111000 : 0x3000); k++) v.push_back(k); for (unsigned long b : {0x3000ul, 0xd7f0ul, 0xdff0ul, 0xfff0ul, 0x10fff0ul, 0xfffffff0ul, 0xd7fful << 1, 0x1fffffff0ul, 0xfffffffffffffff0ul}) for (unsigned long k = 0; k < 48; k++) v.push_back(b + k); for (auto k : v) for (int f = 0; f < 4; f++) { string r = f == 0 ? mc::strf("&#%lu;", k) : f == 1 ? mc::strf("&#x%lx;", k) : f == 2 ? mc::strf("&#x000%lX;", k) : mc::strf("x&#000%lu;y", k); one("<a>" + r + "</a>"); if (f < 2) one("<a b='" + r + "'/>"); } for (const char *k : {"4294967361", "18446744073709551681", "99999999999999999999", "340282366920938463463374607431768211521"}) one("<a>&#" + string(k) + ";</a>"); for (const char *k : {"100000041", "10000000000000041", "ffffffffffffffffff"}) one("<a>&#x" + string(k) + ";</a>"); }
    { mc::phase("truncation, deletion, repetition and exchange of every byte"); static const char *docs[] = {"\xef\xbb\xbf<?xml version=\"1.0\" encoding='UTF-8'?>\n<!-- c -->\n<!DOCTYPE svg PUBLIC>\n<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:i=\"x\" i:v='1&amp;2'>\n <g id=\"l&#x31;\"><rect x='0'/><i:q>a &lt; b<!-- - -->c</i:q></g>\n</svg>\n<!-- e -->\n", "<p:a xmlns:p='u'><b xmlns=\"v\"><c xml:space=\"preserve\" d='\xc3\xa9'> \xe2\x82\xac &#8364; </c></b><p:\xc3\xa9 /></p:a>"};
      for (auto d0 : docs) { string d = d0; one(d); for (size_t i = 0; i < d.size(); i++) { one(d.substr(0, i)); one(d.substr(0, i) + d.substr(i + 1)); one(d.substr(0, i) + d[i] + d.substr(i)); if (i + 1 < d.size()) { string e = d; std::swap(e[i], e[i + 1]); one(e); } for (int c = 0; c < 256; c++) { string e = d; e[i] = (char)c; one(e); if (c < 128) one(d.substr(0, i) + (char)c + d.substr(i)); } for (size_t j = i + 1; j <= d.size() && (T || j < i + 12); j++) { one(d.substr(0, i) + d.substr(j)); } } } }
    { mc::phase("sizes"); for (int n = 1; n <= 3000; n += n < 40 ? 1 : 97) { string x; for (int k = 0; k < n; k++) x += "x"; one("<" + x + "/>"); one("<" + x + "></" + x + ">"); one("<" + x + "></" + x + "x>"); one("<" + x + "></" + x.substr(1) + ">"); one("<a " + x + "='" + x + "'>" + x + "<!--" + x + "--></a>"); string o, c, at; for (int k = 0; k < n; k++) { o += mc::strf("<e%d>", k % 7); c = mc::strf("</e%d>", k % 7) + c; at += mc::strf(" a%d='%d'", k, k); } one(o + c); one(o + c.substr(5)); one(o + c + "<e/>"); one("<a" + at + "/>"); } }
}
