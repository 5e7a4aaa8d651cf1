// Tensor models.
#pragma once
#include "obj.hpp"
namespace h {
struct Ten { u64 order = 1, m = 0; std::vector<u64> c; std::vector<u64> w; };
template<class W> Ten gen_ten(Rng& r, size_t m, u64 order, u64 maxl, bool weighted) {
    Ten t; t.order = order; t.m = m; LabelGen g(r, maxl, true);
    for (size_t i = 0; i < m * order; ++i) t.c.push_back(g(r));
    if (weighted) for (size_t i = 0; i < m; ++i) t.w.push_back(wbits<W>(AnyW<W>::gen(r)));
    return t;
}
template<class T> void fill_ten(T& t, const Ten& m, bool weighted) {
    typedef typename std::remove_reference<decltype(raw(t.c())[0])>::type L; typedef typename std::remove_reference<decltype(raw(t.w())[0])>::type W;
    for (size_t i = 0; i < m.c.size(); ++i) raw(t.c())[i] = (L)m.c[i];
    if (weighted) for (size_t i = 0; i < m.w.size(); ++i) raw(t.w())[i] = wfrom<W>(m.w[i]);
}
template<class T> Ten read_ten(T& t, bool weighted) {
    Ten m; m.order = (u64)t.order(); m.m = (u64)t.m();
    for (size_t i = 0; i < m.m * m.order; ++i) m.c.push_back((u64)raw(t.c())[i]);
    if (weighted) for (size_t i = 0; i < m.m; ++i) m.w.push_back(wbits(raw(t.w())[i]));
    return m;
}
inline void cmp_ten(const Ten& got, const Ten& want, const char* what) {
    H_CHECK(got.order == want.order, "order", "%s: order %llu expected %llu", what, (unsigned long long)got.order, (unsigned long long)want.order);
    H_CHECK(got.m == want.m, "entry-count", "%s: m=%llu expected %llu", what, (unsigned long long)got.m, (unsigned long long)want.m);
    for (size_t i = 0; i < want.c.size(); ++i) H_CHECK(got.c[i] == want.c[i], "coordinate", "%s: entry %zu dim %zu is %llu expected %llu", what, i / (size_t)want.order, i % (size_t)want.order, (unsigned long long)got.c[i], (unsigned long long)want.c[i]);
    for (size_t i = 0; i < want.w.size(); ++i) H_CHECK(got.w[i] == want.w[i], "weight-value", "%s: weight %zu is %llx expected %llx", what, i, (unsigned long long)got.w[i], (unsigned long long)want.w[i]);
}
inline u64 hash_ten(const Ten& m) { u64 x = mix(m.order * 31 + m.m); for (auto v : m.c) x = mix(x ^ v); for (auto v : m.w) x = mix(x * 3 ^ v); return x; }
inline std::string desc(const Ten& m) { std::string s = "order=" + std::to_string(m.order) + " m=" + std::to_string(m.m) + ":"; for (size_t i = 0; i < m.c.size() && i < 16; ++i) s += (i % m.order ? "," : " ") + std::to_string(m.c[i]); return s; }
// ---- uniform construction of binary-storable objects ----
inline Csr gen_csr_model(Rng& r, Mat& m) { // shuffles dims: labels/rows may differ
    Csr c = to_rows(m); unsigned k = (unsigned)r.below(5);
    if (k == 0) { c.n += r.below(4); c.rows.resize(std::max(c.n, c.nr)); }
    if (k == 1 && c.nr > 1 && c.n == c.nr) { c.n = c.nr - 1; }        // as from a one-based adjacency file
    return c;
}
inline u64 hash_csr(const Csr& c) { u64 x = mix(c.n * 7 + c.nr * 3 + c.nc); for (auto& r : c.rows) { x = mix(x + r.size()); for (auto& e : r) x = mix(x ^ mix(e.first) ^ e.second); } return x; }
inline std::string desc(const Csr& c) { std::string s = "n=" + std::to_string(c.n) + " nrows=" + std::to_string(c.nr) + " ncols=" + std::to_string(c.nc) + " m=" + std::to_string(c.m) + ":"; size_t k = 0; for (size_t v = 0; v < c.rows.size() && k < 10; ++v) for (auto& e : c.rows[v]) { if (k++ > 10) break; s += " " + std::to_string(v) + "-" + std::to_string(e.first); } return s; }
inline void cmp_csr(const Csr& got, const Csr& want, const char* what) { cmp_rows(got, want, what); cmp_dims(got.n, got.nr, got.nc, want.n, want.nr, want.nc, what); }
// Any bit pattern of a weight.
template<class W> u64 any_bits(Rng& r) { u64 b = r.next(); if (sizeof(W) < 8) b &= (1ull << (8 * sizeof(W) % 64)) - 1; return b; }
} // namespace h
