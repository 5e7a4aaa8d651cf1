// Objects with so many labels that their number times the number of threads exceeds 32 bits.
#pragma once
#include "big.hpp"
namespace h {
struct Wide { u64 n; int t; std::vector<E3> e;
    Wide(Rng& r, u64 lo = 100000000, u64 hi = 130000000) {
        n = r.range(lo, hi); t = (int)((1ull << 32) / n + 1 + r.below(5)); size_t m = r.range(1, 120); u64 near = r.chance(1, 2) ? n / (u64)t : n;
        for (size_t i = 0; i < m; ++i) { u64 x = 0; switch (r.below(6)) { case 0: x = 0; break; case 1: x = n - 1 - r.below(3); break; case 2: x = std::min(n - 1, n / (u64)t * r.below((u64)t + 1) + r.below(3)); break; case 3: x = near == n ? r.below(n) : std::min(n - 1, near - 1 + r.below(3)); break; default: x = r.below(n); } e.push_back({x, r.chance(1, 8) ? x : r.below(n), 0}); }
    }
    std::string what() const { return std::to_string(n) + " labels, " + std::to_string(e.size()) + " entries, threads=" + std::to_string(t); }
    Csr rows_at(std::vector<u64>& at) const { std::map<u64, std::vector<std::pair<u64, u64>>> q; for (auto& x : e) q[x.x].push_back({x.y, x.w}); Csr c; at.clear(); for (auto& p : q) { at.push_back(p.first); std::sort(p.second.begin(), p.second.end()); c.rows.push_back(p.second); } return c; }
    // Offsets of a compressed object with these entries (after counting `dup` of them away), looked at in full.
    template<class C> void check(C& c, bool uniq, bool wg) const {
        std::vector<u64> at; Csr want = rows_at(at); if (uniq) for (auto& r : want.rows) { std::vector<std::pair<u64, u64>> u; for (auto& x : r) if (u.empty() || u.back().first != x.first) u.push_back(x); r = u; }
        u64 m = 0; for (auto& r : want.rows) m += r.size(); H_CHECK((u64)c.m() == m && (u64)c.n() == n && (u64)c.nrows() == n, "dimensions", "m=%llu expected %llu, n=%llu nrows=%llu expected %llu", (unsigned long long)c.m(), (unsigned long long)m, (unsigned long long)c.n(), (unsigned long long)c.nrows(), (unsigned long long)n);
        auto* o = raw(c.offsets()); u64 have = 0, from = 0; static const size_t B = 1 << 22; std::string run; run.reserve(B);
        for (size_t k = 0; k <= want.rows.size(); ++k) { u64 to = k < want.rows.size() ? at[k] : n; // rows from..to have the offset `have`
            for (u64 i = from; i <= to; i += B) { size_t len = (size_t)std::min<u64>(B, to - i + 1) * sizeof *o; bool ok = true; if (sizeof *o == 1) { run.assign(len, (char)have); ok = !memcmp(o + i, run.data(), len); } else for (u64 j = i; j <= to && j < i + B; ++j) ok &= (u64)o[j] == have; H_CHECK(ok, "offsets", "the offsets of rows %llu to %llu are not all %llu", (unsigned long long)i, (unsigned long long)to, (unsigned long long)have); }
            if (k == want.rows.size()) break; std::vector<std::pair<u64, u64>> got; u64 d = want.rows[k].size(); H_CHECK((u64)o[to + 1] == have + d, "offsets", "row %llu ends at %llu expected %llu", (unsigned long long)to, (unsigned long long)o[to + 1], (unsigned long long)(have + d));
            for (u64 i = have; i < have + d; ++i) got.push_back({(u64)raw(c.endpoints())[i], 0}); (void)wg; std::sort(got.begin(), got.end()); for (u64 i = 0; i < d; ++i) H_CHECK(got[i].first == want.rows[k][i].first, "row-entry", "row %llu: entry %llu is %llu expected %llu", (unsigned long long)to, (unsigned long long)i, (unsigned long long)got[i].first, (unsigned long long)want.rows[k][i].first);
            have += d; from = to + 1; }
        stat("rows_checked", n);
    }
};
template<class X> void fill_wide(X& s, const Wide& w) { for (size_t i = 0; i < w.e.size(); ++i) { typedef typename std::remove_reference<decltype(raw(s.x())[0])>::type L; raw(s.x())[i] = (L)w.e[i].x; raw(s.y())[i] = (L)w.e[i].y; } }
// The same entries as a compressed object, endpoints of a row descending.
template<class L> pigo::CSR<L, u8, L*, u8*> wide_csr(const Wide& w) {
    std::vector<u64> at; Csr q = w.rows_at(at); pigo::CSR<L, u8, L*, u8*> s((L)w.n, (u8)w.e.size(), (L)w.n, (L)w.n); u64 k = 0, from = 0;
    for (size_t i = 0; i < at.size(); ++i) { memset(raw(s.offsets()) + from, (int)k, at[i] + 1 - from); from = at[i] + 1; for (size_t j = q.rows[i].size(); j--;) raw(s.endpoints())[k++] = (L)q.rows[i][j].first; }
    memset(raw(s.offsets()) + from, (int)k, w.n + 1 - from); return s;
}
}
