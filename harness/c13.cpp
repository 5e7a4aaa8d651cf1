// C13: numbers convert to and from text accurately.
#include "gen.hpp"
#include "num.hpp"
#include <clocale>
using namespace h;

template<class T> std::string dec(T v) { __int128 x = v; bool n = x < 0; if (n) x = -x; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x); return (n ? "-" : "") + s; }
// Formats into a buffer of exactly the permitted length, at a random alignment.
template<class T> std::string format(T v, size_t slack, size_t align, const char* tn) {
    size_t sz = pigo::write_size(v);
    H_CHECK(sz >= 1 && sz < 1024, "size", "write_size of %s value is %zu", tn, sz);
    std::vector<char> heap(align + sz + slack + (slack ? 8 : 0), (char)0xAB);
    std::unique_ptr<char[]> exact(new char[align + sz + slack]); memset(exact.get(), 0xAB, align + sz + slack);
    pigo::FilePos fp = exact.get() + align; pigo::write_ascii(fp, v);
    H_CHECK((size_t)(fp - (exact.get() + align)) == sz, "size", "%s: predicted %zu characters, wrote %zd", tn, sz, (ptrdiff_t)(fp - (exact.get() + align)));
    for (size_t i = 0; i < align; ++i) H_CHECK((u8)exact[i] == 0xAB, "stray-write", "%s: byte before the output written", tn);
    for (size_t i = align + sz; i < align + sz + slack; ++i) H_CHECK((u8)exact[i] == 0xAB || (i == align + sz && exact[i] == 0 && std::is_floating_point<T>::value), "stray-write", "%s: byte %zu after the output written", tn, i - align - sz);
    return std::string(exact.get() + align, sz);
}
template<class T> void int_out(T v, size_t al = 0) { std::string s = format(v, al % 3, al, tname<T>()); H_CHECK(s == dec(v), "digits", "%s %s formatted as '%s'", tname<T>(), dec(v).c_str(), s.c_str()); }
template<class T> void fp_out(T v, size_t al = 0) { std::string s = format(v, 1 + al % 3, al, tname<T>()), why; H_CHECK(fp_text_ok(s.data(), s.size(), (double)v, &why), "fp-digits", "%s %.17g (%a) formatted as '%s': %s", tname<T>(), (double)v, (double)v, s.c_str(), why.c_str()); }
// Parses from a heap block that ends exactly at the end of the text.
template<class T> T parse_int(const std::string& s) { std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); pigo::FileReader r(b.get(), b.get() + s.size()); return r.read_int<T>(); }
template<class T> T parse_fp(const std::string& s, size_t tok) { std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); pigo::FileReader r(b.get(), b.get() + s.size()); T v = r.read_fp<T>(); H_CHECK((size_t)(r.d - b.get()) == tok, "position", "parsing '%s' stopped at %zd", s.c_str(), (ptrdiff_t)(r.d - b.get())); return v; }
static std::string tail(Rng& r) { return r.pick({"", " ", "\n", "\t5", " 77", "\r\n12", "#1", ",9"}); }
template<class T> void int_in(T v, Rng& r) {
    std::string lead = r.pick({"", "", " ", "\t ", "x", ": "}); if (r.chance(1, 8)) lead += std::string(r.below(4), '0');
    std::string s = lead + dec(v) + tail(r); T g = parse_int<T>(s); H_CHECK(g == v, "parsed-int", "%s '%s' parsed as %s", tname<T>(), s.c_str(), dec(g).c_str());
}
static void observe(u64 x) { stat("evaluations"); seen("inputs", mix(x)); }

template<class T> void all_ints() { long n = 0; for (long v = (long)std::numeric_limits<T>::min(); v <= (long)std::numeric_limits<T>::max(); ++v, ++n) { int_out((T)v, (size_t)v & 7); observe(hash_str(tname<T>()) ^ (u64)v); } stat("exhaustive_values", n); }
H_GROUP(exhaustive) { label("all 8- and 16-bit integers"); all_ints<u8>(); all_ints<int8_t>(); all_ints<u16>(); all_ints<int16_t>(); for (unsigned v = 0; v < 65536; ++v) { int_in<u16>((u16)v, rng); if (v < 256) int_in<u8>((u8)v, rng); if (v < 128) int_in<int8_t>((int8_t)v, rng); if (v < 32768) int_in<int16_t>((int16_t)v, rng); } }
template<class T> T some_int(Rng& r) {
    typedef typename std::make_unsigned<T>::type U; int bits = 8 * sizeof(T);
    switch (r.below(6)) { case 0: return (T)r.next(); case 1: return (T)((U)r.next() >> r.below(bits)); case 2: return (T)(std::numeric_limits<T>::max() - (T)r.below(4)); case 3: return (T)(std::numeric_limits<T>::min() + (T)r.below(4));
        case 4: { __int128 p = 1; unsigned k = (unsigned)r.below(20); while (k--) p *= 10; p += (int)r.below(3) - 1; if (r.chance(1, 2)) p = -p; return (T)p; } default: return (T)((i64)r.below(2000) - 1000); }
}
template<class T> void ints(Rng& r) { for (int i = 0; i < 60; ++i) { T v = some_int<T>(r); if (!i) label(std::string(tname<T>()) + " " + dec(v)); observe(hash_str(tname<T>()) ^ (u64)v); int_out(v, r.below(9)); if (v >= 0) int_in(v, r); } }
H_GROUP(ints) { ints<u8>(rng); ints<int8_t>(rng); ints<u16>(rng); ints<int16_t>(rng); ints<u32>(rng); ints<int32_t>(rng); ints<u64>(rng); ints<int64_t>(rng); }
// Signed values are read as weights: one column of a coordinate object.
template<class W> void signed_in(Rng& r) {
    std::vector<W> v; std::string s; size_t n = 200; for (size_t i = 0; i < n; ++i) { v.push_back(some_int<W>(r)); if (!std::is_signed<W>::value && v.back() < 0) v.back() = 0; s += "1 2 " + std::string(v.back() >= 0 && r.chance(1, 6) ? "+" : "") + dec(v.back()) + (i + 1 < n || r.chance(1, 2) ? "\n" : ""); observe(hash_str(tname<W>()) ^ (u64)v.back() ^ 77); }
    label(std::string("signed ") + tname<W>() + " " + s.substr(0, 100)); std::string fn = new_file(s); set_threads(pick_threads(r));
    pigo::COO<u32, u32, std::vector<u32>, false, false, false, true, W, std::vector<W>> c(fn, pigo::EDGE_LIST); H_CHECK(c.m() == n, "entry-count", "%u", c.m());
    for (size_t i = 0; i < n; ++i) H_CHECK(c.w()[i] == v[i], "parsed-int", "%s '%s' parsed as %s", tname<W>(), dec(v[i]).c_str(), dec(c.w()[i]).c_str());
}
H_GROUP(signed_ints) { switch (rng.below(4)) { case 0: signed_in<int8_t>(rng); break; case 1: signed_in<int16_t>(rng); break; case 2: signed_in<int32_t>(rng); break; default: signed_in<int64_t>(rng); } signed_in<u64>(rng); }

template<class T> T wf(u64 b, T) { T v; memcpy(&v, &b, sizeof v); return v; }
template<class T> T some_fp(Rng& r) {
    T v; for (;;) {
        switch (r.below(10)) {
            case 0: case 1: { u64 b = r.next(); v = wf(b, (T)0); break; }
            case 2: v = (T)((r.unit() - 0.5) * 2); break; case 3: v = (T)((r.unit() - 0.5) * 1e6); break; case 4: v = (T)((i64)r.below(2000000000) - 1000000000) / (T)1000000; break;
            case 5: { double p = std::pow(10., (int)r.below(40) - 9); v = (T)(p * (r.chance(1, 2) ? 1 : -1)); int k = (int)r.below(4); while (k--) v = std::nextafter(v, (T)(r.chance(1, 2) ? 0 : 1e38)); break; }
            case 6: v = (T)(((double)(i64)r.below(2000000) - 1000000 + 0.5) / 1e6); break;           // near ties of the sixth decimal
            case 7: v = (T)((double)(r.below(1000000)) + ((double)r.below(1000000) + 0.5) / 1e6); break;
            case 8: v = (T)(i64)(r.next() >> r.below(63)); break;
            default: v = r.pick({(T)0, (T)-0.0, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), (T)1, (T)0.9999995, (T)0.9999994, (T)9.9999995, (T)999999.9999995}); }
        if (std::isfinite(v)) return v;
    }
}
H_GROUP(fp_out) { for (int i = 0; i < 400; ++i) { float f = some_fp<float>(rng); double d = some_fp<double>(rng); if (!i) label("fp " + wstr(f) + " " + wstr(d)); u64 b = 0; memcpy(&b, &d, 8); observe(b); memcpy(&b, &f, 4); observe(b ^ 5); fp_out(f, rng.below(5)); fp_out(d, rng.below(5)); } }
// Every exponent of both types.
H_GROUP(fp_exponents) {
    label("every binary exponent");
    for (int e = -1074; e < 1024; ++e) for (int k = 0; k < 3; ++k) { double d = std::ldexp(k == 0 ? 1.0 : 1.0 + rng.unit() * 0.999, e); if (!std::isfinite(d)) continue; if (rng.chance(1, 2)) d = -d; u64 b; memcpy(&b, &d, 8); observe(b); fp_out(d, rng.below(5)); }
    for (int e = -149; e < 128; ++e) for (int k = 0; k < 6; ++k) { float d = std::ldexp(k == 0 ? 1.0f : (float)(1.0 + rng.unit() * 0.999), e); if (!std::isfinite(d)) continue; if (rng.chance(1, 2)) d = -d; u32 b; memcpy(&b, &d, 4); observe(b); fp_out(d, rng.below(5)); }
}
template<class T> void fp_in(Rng& r) {
    char b[160]; int lim = sizeof(T) == 4 ? 30 : 280; double ref;
    switch (r.below(10)) {
        case 0: snprintf(b, sizeof b, "%llu", (unsigned long long)(r.next() >> r.below(64))); break;
        case 1: snprintf(b, sizeof b, "%s%d.%d", r.pick({"-", "+", ""}), (int)r.below(100000), (int)r.below(1000000)); break;
        case 2: snprintf(b, sizeof b, "%.*f", (int)r.below(18), (r.unit() - 0.5) * std::pow(10., (int)r.below(10))); break;
        case 3: snprintf(b, sizeof b, "%.*e", (int)r.below(18), (r.unit() - 0.5) * std::pow(10., (int)r.below(2 * lim) - lim)); break;
        case 4: snprintf(b, sizeof b, "%.*E", (int)r.below(18), (r.unit() - 0.5) * std::pow(10., (int)r.below(2 * lim) - lim)); break;
        case 5: snprintf(b, sizeof b, "%d%c%s%d", (int)r.range(1, 9999), r.pick({'e', 'E'}), r.pick({"", "+", "-"}), (int)r.below(lim - 5)); break;
        case 6: snprintf(b, sizeof b, "%s.%d%s", r.pick({"", "-", "+"}), (int)r.below(1000000), r.pick({"", "e2", "e-2", "E+03"})); break;
        case 7: snprintf(b, sizeof b, "%d.%s", (int)r.below(1000), r.pick({"", "e1", "E-1"})); break;
        case 8: snprintf(b, sizeof b, "%.*f", (int)r.range(18, 90), (r.unit() - 0.5) * std::pow(10., (int)r.below(6))); break;   // more decimals than significant
        default: snprintf(b, sizeof b, "%.*g", sizeof(T) == 4 ? 9 : 17, (r.unit() - 0.5) * std::pow(2., (int)r.below(2 * 90) - 90)); break;
    }
    ref = strtod(b, 0); std::string lead = r.pick({"", " ", "\t", "  "}), s = lead + b + r.pick({"", " ", "\n", "\t5", "\r\n1", "#", " 7 8"});
    observe(hash_str(s) ^ sizeof(T)); label(std::string(tname<T>()) + " '" + s + "'");
    T v = parse_fp<T>(s, lead.size() + strlen(b)); double tol = (sizeof(T) == 4 ? 4e-6 : 3e-14) * std::fabs(ref) + (sizeof(T) == 4 ? 1e-43 : 1e-300);
    H_CHECK(std::fabs((double)v - ref) <= tol, "parsed-fp", "'%s' parsed as %.17g expected %.17g", s.c_str(), (double)v, ref);
}
H_GROUP(fp_in) { for (int i = 0; i < 300; ++i) { fp_in<float>(rng); fp_in<double>(rng); } }
// A process locale with a decimal comma and grouping must not matter.
static bool comma() {
    static int ok = -1; if (ok >= 0) return ok;
    std::string d = st().scratch + "/loc"; mkdir(d.c_str(), 0755); std::string c = "localedef -i de_DE -f UTF-8 " + d + "/de_DE.UTF-8 >/dev/null 2>&1"; if (system(c.c_str())) {}
    setenv("LOCPATH", d.c_str(), 1); ok = setlocale(LC_ALL, "de_DE.UTF-8") && localeconv()->decimal_point[0] == ','; setlocale(LC_ALL, "C"); return ok;
}
H_GROUP(locale) {
    if (!comma()) { stat("no_comma_locale"); return; }
    setlocale(LC_ALL, "de_DE.UTF-8"); stat("comma_locale_cases"); label("decimal comma");
    struct Back { ~Back() { setlocale(LC_ALL, "C"); } } back;
    for (int i = 0; i < 100; ++i) { double d = some_fp<double>(rng); float f = some_fp<float>(rng); u64 b; memcpy(&b, &d, 8); observe(b ^ 99); fp_out(d); fp_out(f); i64 v = some_int<i64>(rng); int_out(v); }
    for (int i = 0; i < 50; ++i) { char b[64]; double x = (double)(i64)(rng.below(2000000) - 1000000) / 1000; i64 y = (i64)(x * 1000); (void)y; int a = (int)rng.below(1000), f = (int)rng.below(1000); snprintf(b, sizeof b, "%d.%03d", a, f); double v = parse_fp<double>(b, strlen(b)), ref = a + f / 1000.0; H_CHECK(std::fabs(v - ref) < 1e-12 * (1 + ref), "parsed-fp", "'%s' parsed as %.17g", b, v); }
}
// Blocks of 2^20 consecutive single-precision values; 4096 cases cover every value of the type.
H_GROUP(fp_sweep) {
    u32 blk = (u32)((st().cur * 1021 + (st().thorough ? 0 : (long)(st().seed % 4096))) % 4096); u32 step = st().thorough ? 1 : 13; label("singles " + std::to_string(blk) + " << 20");
    for (u32 k = st().thorough ? 0 : (u32)rng.below(13); k < (1u << 20); k += step) { u32 b = (blk << 20) | k; float f; memcpy(&f, &b, 4); if (!std::isfinite(f)) continue; char buf[512]; size_t sz = pigo::write_size(f); pigo::FilePos fp = buf; pigo::write_ascii(fp, f); std::string why; H_CHECK((size_t)(fp - buf) == sz, "size", "%a: predicted %zu wrote %zd", (double)f, sz, (ptrdiff_t)(fp - buf)); H_CHECK(fp_text_ok(buf, sz, (double)f, &why), "fp-digits", "%a formatted as '%.*s': %s", (double)f, (int)sz, buf, why.c_str()); stat("singles_swept"); }
    observe(mix(blk) ^ 0x1234);
}
