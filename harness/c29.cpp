// C29: the text cursor stays in its range and does what its documentation says.
#include "h.hpp"
#include <regex>
using namespace h;
// The cursor of the documentation: a position in a range of bytes.
struct Model {
    const std::string& s; size_t p, e;      // position and end
    static bool dig(char c) { return c >= '0' && c <= '9'; } static bool fpc(char c) { return dig(c) || c == 'e' || c == 'E' || c == '+' || c == '-' || c == '.'; }
    bool in() const { return p < e; } char c() const { return s[p]; } bool com() const { return in() && (c() == '%' || c() == '#'); }
    void skip_comments() { while (com()) { while (in() && c() != '\n') ++p; if (in()) ++p; } }
    void non_int() { while (in() && dig(c())) ++p; }
    void first_int() { for (;;) { skip_comments(); if (!in() || dig(c())) return; ++p; } }
    void next_int() { non_int(); first_int(); }
    void next_signed() { if (in() && (c() == '+' || c() == '-')) ++p; non_int(); for (;;) { skip_comments(); if (!in() || dig(c()) || c() == '+' || c() == '-') return; ++p; } }
    void fp() { while (in() && !fpc(c())) ++p; } void non_fp() { while (in() && fpc(c())) ++p; }
    void eol() { while (in() && c() != '\n') ++p; } void to(char x) { if (in() && c() == x) ++p; while (in() && c() != x) ++p; }
    void int_or_nl() { bool at = in() && dig(c()); non_int(); if (in() && c() == '\n') { if (at) return; ++p; } while (in() && !dig(c()) && c() != '\n') { if (com()) { eol(); return; } ++p; } }
};
// A buffer that ends at a page that cannot be accessed.
struct Fenced { char* m; size_t t; char* b; Fenced(const std::string& s) { t = (s.size() / 4096 + 2) * 4096; m = (char*)mmap(nullptr, t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) _exit(9); mprotect(m + t - 4096, 4096, PROT_NONE); b = m + t - 4096 - s.size(); memcpy(b, s.data(), s.size()); memset(m, '7', (size_t)(b - m)); } ~Fenced() { munmap(m, t); } };
static std::string text(Rng& r, size_t cap) {
    static const char* tok[] = {"0", "00", "7", "12", "345", "4294967296", "18446744073709551615", "9223372036854775807", "255", "-5", "+6", "-", "+", ".", "e", "1.5", "-2.25", "3e4", "6.25E-3", "+0.5", "%", "#", "% 1 2\n", "# c\n", "\n", "\n\n", "\r\n", " ", "  ", "\t", "abc", "PIGO", "%%MatrixMarket", "x", ",", ":", "/", "\x80", "\xff"};
    std::string s; size_t n = r.below(cap); unsigned k = (unsigned)r.below(4); while (s.size() < n) { if (k == 0) s += (char)r.next(); else { s += tok[r.below(sizeof tok / sizeof *tok)]; if (k != 1 && r.chance(2, 3)) s += r.pick({" ", " ", "\n", "\t"}); if (r.chance(1, 400)) s += std::string(r.below(9000), r.pick({' ', '9', '#', '\n'})); } if (r.chance(1, 300)) s += '\0'; } return s;
}
// Members an application may use; those that are gone are not asked about.
#define HAS(NAME, EXPR) template<class R> auto NAME(R& rd, int) -> decltype(EXPR, true) { EXPR; return true; } template<class R> bool NAME(R&, long) { return false; }
#define ASK(NAME, EXPR) template<class R> auto NAME(R& rd, int, bool& o) -> decltype(EXPR, true) { o = EXPR; return true; } template<class R> bool NAME(R&, long, bool&) { return false; }
HAS(m_skip, rd.skip_comments()) HAS(m_nonint, rd.move_to_non_int()) HAS(m_first, rd.move_to_first_int()) HAS(m_next, rd.move_to_next_int()) HAS(m_snext, rd.move_to_next_signed_int()) HAS(m_fp, rd.move_to_fp()) HAS(m_nonfp, rd.move_to_non_fp()) HAS(m_eol, rd.move_to_eol()) HAS(m_intnl, rd.move_to_next_int_or_nl())
ASK(q_eol, rd.at_end_of_line()) ASK(q_nl, rd.at_nl_or_eol()) ASK(q_zero, rd.at_zero())

struct Trio {      // the same range three times, with different bytes behind its end
    std::string s; size_t e; Fenced a; std::vector<char> b, c; std::vector<pigo::FileReader> rd; std::vector<const char*> base; Model m; std::string trail;
    Trio(const std::string& x, size_t p, size_t e) : s(x), e(e), a(x.substr(0, e)), b(s.begin(), s.begin() + e), c(s.begin(), s.begin() + e), m{s, p, e} {
        for (int i = 0; i < 64; ++i) { b.push_back("0123456789"[i % 10]); c.push_back("\n# %.e-\0 "[i % 9]); }
        base = {a.b, b.data(), c.data()}; for (auto p0 : base) rd.push_back(pigo::FileReader(p0 + p, p0 + e)); }
    template<class F> bool all(const char* what, F f) { size_t from = m.p; bool there = true; for (size_t i = 0; i < 3; ++i) there &= f(rd[i]); if (!there) { stat("operations_not_offered"); return false; } (void)from; trail += ' '; trail += what; if (trail.size() > 200) trail.erase(0, trail.size() - 200); stat("operations"); return true; }
    void at(const char* what) { for (size_t i = 0; i < 3; ++i) { H_CHECK(rd[i].d == base[i] + m.p, "position", "%s: moved to %td expected %zu of %zu (%s), after%s", what, rd[i].d - base[i], m.p, m.e, i ? "more bytes behind" : "at a page end", trail.c_str());
        H_CHECK(rd[i].good() == (m.p < m.e) && rd[i].size() == m.e - m.p, "range", "%s: good %d, size %zu expected %zu", what, (int)rd[i].good(), rd[i].size(), m.e - m.p); H_CHECK(rd[i].peek() == (m.p < m.e ? s[m.p] : 0), "peek", "%s: peek", what); } }
    template<class T> void same(const char* what, const T* v, T want) { for (int i = 0; i < 3; ++i) H_CHECK(v[i] == want, "value", "%s at %zu of %zu: %s, expected %s", what, m.p, m.e, std::to_string(v[i]).c_str(), std::to_string(want).c_str()); }
    template<class T> bool rint(unsigned __int128 v, const char* n) { if (v > (unsigned __int128)std::numeric_limits<T>::max()) return false; T got[3]; int i = 0; all(n, [&](pigo::FileReader& r) { got[i++] = r.read_int<T>(); return true; }); for (int k = 0; k < 3; ++k) H_CHECK((unsigned __int128)got[k] == v, "value", "%s at %zu read %s", n, m.p, std::to_string((u64)got[k]).c_str()); stat("values_read"); return true; }
};
static void drive(Rng& r, const std::string& s) {
    size_t p = r.chance(1, 2) ? 0 : r.below(s.size() + 1), e = r.chance(1, 2) ? s.size() : r.range(p, s.size()); label("text of " + std::to_string(s.size()) + " bytes, range " + std::to_string(p) + ".." + std::to_string(e)); seen("inputs", hash_str(s) ^ mix(p * 131 + e)); stat("evaluations");
    Trio t(s, p, e); Model& m = t.m; t.at("start");
    for (int k = 0; k < 60; ++k) {
        const char* w = "";
        switch (r.below(22)) {
            case 0: if (t.all(w = "skip_comments", [](pigo::FileReader& x) { return m_skip(x, 0); })) m.skip_comments(); break;
            case 1: if (t.all(w = "move_to_non_int", [](pigo::FileReader& x) { return m_nonint(x, 0); })) m.non_int(); break;
            case 2: if (t.all(w = "move_to_first_int", [](pigo::FileReader& x) { return m_first(x, 0); })) m.first_int(); break;
            case 3: case 4: if (t.all(w = "move_to_next_int", [](pigo::FileReader& x) { return m_next(x, 0); })) m.next_int(); break;
            case 5: if (t.all(w = "move_to_next_signed_int", [](pigo::FileReader& x) { return m_snext(x, 0); })) m.next_signed(); break;
            case 6: if (t.all(w = "move_to_fp", [](pigo::FileReader& x) { return m_fp(x, 0); })) m.fp(); break;
            case 7: if (t.all(w = "move_to_non_fp", [](pigo::FileReader& x) { return m_nonfp(x, 0); })) m.non_fp(); break;
            case 8: if (t.all(w = "move_to_eol", [](pigo::FileReader& x) { return m_eol(x, 0); })) m.eol(); break;
            case 9: {   // where lines of comments follow each other, which newline comes next is a matter of taste
                Model q = m; q.int_or_nl(); if (q.in() && q.c() == '\n' && q.p + 1 < q.e && (s[q.p + 1] == '%' || s[q.p + 1] == '#')) break; if (t.all(w = "move_to_next_int_or_nl", [](pigo::FileReader& x) { return m_intnl(x, 0); })) m.int_or_nl(); break; }
            case 10: { char c = r.chance(1, 2) && !s.empty() ? s[r.below(s.size())] : (char)r.next(); t.all(w = "move_to", [&](pigo::FileReader& x) { x.move_to(c); return true; }); m.to(c); break; }
            case 11: { size_t d = r.pick<size_t>({0, 1, 2, 7, r.below(50), m.e - m.p, m.e - m.p + 1 + r.below(60)}); t.all(w = "+=", [&](pigo::FileReader& x) { x += d; return true; }); m.p = std::min(m.e, m.p + d); break; }
            case 12: { size_t d = r.pick<size_t>({0, 1, r.below(50), m.e - m.p + 1}); t.all(w = "+", [&](pigo::FileReader& x) { pigo::FileReader y = x + d; if (r.chance(1, 2)) { pigo::FileReader z = y; z.move_to_eol(); H_CHECK(y.d <= z.d, "copy", "a copy moved its source"); } pigo::FilePos was = x.d; H_CHECK(was == x.d, "plus", "+ moved the reader"); x = y; return true; }); m.p = std::min(m.e, m.p + d); break; }
            case 13: { size_t d = r.below(m.e - m.p + 20); if (!r.chance(1, 6)) break; t.all(w = "smaller_end", [&](pigo::FileReader& x) { pigo::FileReader y = x + d; x.smaller_end(y); return true; }); m.e = std::min(m.e, m.p + d); break; }
            case 14: { std::string q = r.chance(1, 2) ? s.substr(m.p, r.below(20)) : text(r, 6); if (r.chance(1, 4) && !q.empty()) q.back() ^= 1; bool want = q.size() <= m.e - m.p && s.compare(m.p, q.size(), q) == 0; bool g[3]; int i = 0; t.all(w = "at_str", [&](pigo::FileReader& x) { g[i++] = x.at_str(q); return true; }); t.same(w, g, want); stat(want ? "strings_matched" : "strings_different"); break; }
            case 15: { bool ok = true, want = true; for (size_t i = m.p; i < m.e && s[i] != '\n'; ++i) { if (s[i] == '\t') ok = false; if (s[i] != ' ' && s[i] != '\r') { want = false; break; } } if (!ok) break; bool g[3]; int i = 0; if (t.all(w = "at_end_of_line", [&](pigo::FileReader& x) { return q_eol(x, 0, g[i++]); })) t.same(w, g, want); break; }
            case 16: { bool want = m.p == m.e || m.c() == '\n' || m.com(), g[3]; int i = 0; if (t.all(w = "at_nl_or_eol", [&](pigo::FileReader& x) { return q_nl(x, 0, g[i++]); })) t.same(w, g, want); break; }
            case 17: { bool want = m.p < m.e && m.c() == '0' && !(m.p + 1 < m.e && Model::dig(s[m.p + 1])), g[3]; int i = 0; if (t.all(w = "at_zero", [&](pigo::FileReader& x) { return q_zero(x, 0, g[i++]); })) t.same(w, g, want); if (want) stat("zeros"); break; }
            case 18: { if (m.p < m.e && m.c() == '+') break; int g[3], i = 0, want = m.p < m.e && m.c() == '-' ? -1 : 1; size_t q = m.p; t.all(w = "read_sign", [&](pigo::FileReader& x) { pigo::FilePos was = x.d; g[i++] = x.read_sign<int>(); H_CHECK(x.d == was || x.d == was + 1, "position", "the sign was not one character"); x = pigo::FileReader(was, was + x.size() + (size_t)(x.d - was)); return true; }); m.p = q; t.same(w, g, want); break; }
            case 19: case 20: {      // integers whose value fits
                size_t q = m.p; while (q < m.e && !Model::dig(s[q])) ++q; unsigned __int128 v = 0; size_t z = q; bool big = false; while (z < m.e && Model::dig(s[z])) { v = v * 10 + (unsigned)(s[z] - '0'); if (v > ~0ull) { big = true; v = 0; } ++z; } if (big) break; bool done = false; w = "read_int";
                for (int a = 0; a < 4 && !done; ++a) switch (r.below(8)) { case 0: done = t.rint<u8>(v, "read_int 8"); break; case 1: done = t.rint<int8_t>(v, "read_int s8"); break; case 2: done = t.rint<u16>(v, "read_int 16"); break; case 3: done = t.rint<int16_t>(v, "read_int s16"); break; case 4: done = t.rint<u32>(v, "read_int 32"); break; case 5: done = t.rint<int>(v, "read_int s32"); break; case 6: done = t.rint<i64>(v, "read_int s64"); break; default: done = t.rint<u64>(v, "read_int 64"); }
                if (done) m.p = z; break; }
            default: {      // well-formed floating point numbers
                size_t q = m.p; while (q < m.e && !Model::fpc(s[q])) ++q; size_t z = q; while (z < m.e && Model::fpc(s[z])) ++z; std::string tk = s.substr(q, z - q); static const std::regex re("[+-]?[0-9]{1,15}(\\.[0-9]{1,15})?([eE][+-]?[0-9]{1,2})?"); if (tk.size() > 40 || !std::regex_match(tk, re)) break; w = "read_fp";
                long double want = strtold(tk.c_str(), nullptr); double g[3]; int i = 0; t.all(w, [&](pigo::FileReader& x) { g[i++] = x.read_fp<double>(); return true; }); m.p = z; for (double x : g) H_CHECK(fabsl(x - want) <= 1e-14L * fabsl(want), "value", "%s read as %.17g", tk.c_str(), x); H_CHECK(g[0] == g[1] && g[1] == g[2], "value", "%s depends on what follows it", tk.c_str()); stat("values_read"); }
        }
        if (*w) t.at(w);
    }
}
H_GROUP(small) { drive(rng, text(rng, rng.pick<size_t>({3, 12, 80, 400}))); }
H_GROUP(large) { drive(rng, text(rng, 60000)); }
// Reading a file of numbers to its end with the cursor yields exactly those numbers.
H_GROUP(walk) {
    std::string s; std::vector<u64> v; size_t n = rng.below(300); for (size_t i = 0; i < n; ++i) { u64 x = rng.next() >> rng.below(64); v.push_back(x); s += std::to_string(x); if (rng.chance(1, 6)) s += rng.pick({" # 1 2", "%3", " % x", "#"}), s += "\n"; else s += rng.pick({" ", "\n", "\t", "\r\n", "  ", ", ", "\n\n", "\n# 5\n", "\n%%\n#6\n"}); } if (rng.chance(1, 3)) while (!s.empty() && !Model::dig(s.back())) s.pop_back(); if (rng.chance(1, 4)) s.insert(0, "# head 9\n");
    label("walk over " + std::to_string(n) + " numbers"); seen("inputs", hash_str(s)); stat("evaluations"); if (!n || s.empty() || (s[s.size() - 1] != '\n' && s.find_last_of("#%") != std::string::npos && s.find('\n', s.find_last_of("#%")) == std::string::npos)) return;
    Fenced f(s); pigo::FileReader r(f.b, f.b + s.size()); r.move_to_first_int(); size_t k = 0; while (r.good()) { u64 x = r.read_int<u64>(); H_CHECK(k < v.size() && x == v[k], "walk", "number %zu is %llu", k, (unsigned long long)x); ++k; r.move_to_next_int(); } H_CHECK(k == v.size(), "walk", "%zu numbers, expected %zu", k, v.size()); stat("values_read", k);
}
