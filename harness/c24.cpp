// C24: searching for a character finds exactly its offsets.
#include "h.hpp"
#include "guard.hpp"
using namespace h;

template<class T> void check(T& t, const std::string& s, size_t from, size_t to, char c, const char* what) {
    std::vector<u64> want; for (size_t i = from; i < to; ++i) if (s[i] == c) want.push_back(i - from);
    H_CHECK((u64)t.m() == want.size(), "count", "%s: %llu offsets expected %zu (length %zu, char %d)", what, (unsigned long long)t.m(), want.size(), to - from, (int)c);
    H_CHECK((u64)t.order() == 1, "order", "%s: order %llu", what, (unsigned long long)t.order());
    for (size_t i = 0; i < want.size(); ++i) H_CHECK((u64)raw(t.c())[i] == want[i], "offset", "%s: offset %zu is %llu expected %llu", what, i, (unsigned long long)raw(t.c())[i], (unsigned long long)want[i]);
    stat("offsets", want.size());
}
template<class L, class O, int K> void search(Rng& r, const std::string& s, bool file) {
    typedef pigo::Tensor<L, O, Store<L, K>, float, float*, false> T; int th = pick_threads(r);
    char c = s.empty() || r.chance(1, 4) ? (char)r.next() : r.chance(1, 3) ? s.back() : r.chance(1, 3) ? s[0] : s[r.below(s.size())]; size_t from = r.chance(1, 2) ? 0 : r.below(s.size() + 1), to = r.chance(2, 3) ? s.size() : r.range(from, s.size());
    char lb[120]; snprintf(lb, sizeof lb, "%s length=%zu range=%zu..%zu char=%d threads=%d L=%s K=%d", file ? "file" : "buffer", s.size(), from, to, (int)c, th, tname<L>(), K); label(lb); seen("inputs", hash_str(s) ^ mix(from * 3 + to) ^ mix((u64)(u8)c * 64 + th)); stat("evaluations"); if (std::count(s.begin() + from, s.begin() + to, c) == 0) stat("no_occurrence");
    set_threads(th);
    auto go = [&](pigo::FileReader rd, const char* what) {
        pigo::FilePos begin = rd.d; if (from) { if (r.chance(1, 2)) rd += from; else rd = rd + from; } pigo::FileReader e = pigo::FileReader(begin, begin + s.size()) + to; rd.smaller_end(e); pigo::FilePos at = rd.d; size_t n = rd.size();
        T t = rd.template find_offsets<T>(c); H_CHECK(rd.d == at && rd.size() == n, "moved", "%s: the search moved the reader", what); check(t, s, from, to, c, what); t.free(); };
    if (file) { guard::Scope gs; std::string n = new_file(s); pigo::ROFile f(n); go(f.reader(), "file"); }
    else { std::unique_ptr<char[]> b(new char[s.size()]); if (s.size()) memcpy(b.get(), s.data(), s.size()); go(pigo::FileReader(b.get(), b.get() + s.size()), "buffer"); }
}
static std::string content(Rng& r, size_t cap) {
    size_t n; switch (r.below(8)) { case 0: n = r.below(4); break; case 1: n = r.below(20); break; case 2: n = 4096 * r.range(1, 2); break; case 3: case 4: n = r.below(cap); break; default: n = r.below(300); } if (n > cap) n = cap; std::string s(n, 0); unsigned k = (unsigned)r.below(5);
    for (size_t i = 0; i < n; ++i) s[i] = k == 0 ? (char)r.next() : k == 1 ? 'a' + (char)r.below(2) : k == 2 ? '\n' : k == 3 ? (r.below(60) ? 'x' : '\n') : (char)(r.below(3) * 0x7f); if (n && r.chance(1, 3)) { s[0] = s[n - 1] = (char)0x80; } return s;
}
static void one(Rng& r, size_t cap, bool file) { std::string s = content(r, cap); if (file && s.empty()) s = "x"; switch (r.below(5)) { case 0: search<u32, u32, 0>(r, s, file); break; case 1: search<u64, u64, 1>(r, s, file); break; case 2: search<u64, u32, 2>(r, s, file); break; case 3: search<int, u64, 0>(r, s, file); break; default: search<u32, u64, 1>(r, s, file); } }
H_GROUP(buffer) { one(rng, 9000, false); }
H_GROUP(file) { one(rng, 9000, true); }
H_GROUP(large) { std::string s(rng.range(1 << 20, 6 << 20), 'q'); unsigned d = (unsigned)rng.pick({2, 30, 4000, 500000}); for (auto& c : s) if (rng.below(d) == 0) c = '\n'; s[0] = '\n'; search<u32, u32, 0>(rng, s, true); search<u64, u64, 1>(rng, s, false); }
// Sequential search with the cursor agrees.
H_GROUP(cursor) {
    std::string s = content(rng, 3000); char c = s.empty() ? 'x' : s[rng.below(s.size())]; label("cursor length=" + std::to_string(s.size()) + " char=" + std::to_string((int)c)); std::unique_ptr<char[]> b(new char[s.size()]); if (s.size()) memcpy(b.get(), s.data(), s.size()); pigo::FileReader r(b.get(), b.get() + s.size()); size_t p = 0;
    while (true) { r.move_to(c); size_t q = p; if (q < s.size() && s[q] == c) ++q; while (q < s.size() && s[q] != c) ++q; H_CHECK((size_t)(r.d - b.get()) == q, "move_to", "moved from %zu to %td expected %zu", p, r.d - b.get(), q); stat("moves"); if (q == s.size()) { H_CHECK(!r.good() && r.size() == 0, "end", "reader is good at the end"); break; } H_CHECK(r.peek() == c, "peek", "peek"); p = q; }
    r.move_to(c); H_CHECK(!r.good() && (size_t)(r.d - b.get()) == s.size(), "end", "moved beyond the end"); r += 5; H_CHECK((size_t)(r.d - b.get()) == s.size(), "end", "incremented beyond the end"); seen("inputs", hash_str(s) + (u8)c); stat("evaluations");
}
// More than 4 GiB of buffer: offsets need 64 bits.
H_GROUP(huge) {
    std::string name = tmp_name(); int fd = open(name.c_str(), O_CREAT | O_RDWR, 0644); u64 total = (4ull << 30) + 100 + rng.below(50); std::vector<u64> at = {0, (1ull << 32) - 1, 1ull << 32, total - 1}; if (ftruncate(fd, (off_t)total)) fail("setup", "ftruncate"); for (u64 a : at) if (pwrite(fd, "\n", 1, (off_t)a) != 1) fail("setup", "pwrite"); close(fd); label("huge"); set_threads(8); pigo::ROFile f(name);
    typedef pigo::Tensor<u64, u64, u64*, float, float*, false> T; T t = f.reader().find_offsets<T>('\n'); H_CHECK(t.m() == at.size(), "count", "%llu offsets expected %zu", (unsigned long long)t.m(), at.size()); for (size_t i = 0; i < at.size(); ++i) H_CHECK(t.c()[i] == at[i], "offset", "offset %zu is %llu expected %llu", i, (unsigned long long)t.c()[i], (unsigned long long)at[i]); t.free(); stat("evaluations"); seen("inputs", total);
}
