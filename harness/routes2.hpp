// Routes on objects in memory (C30, C31).
#pragma once
#include "routes.hpp"
// Further operations, on objects in memory.
typedef pigo::COO<u32, u32, std::shared_ptr<u32>, false, false, false, true, float, std::shared_ptr<float>> WS; typedef pigo::CSR<u32, u32, std::vector<u32>, std::vector<u32>, true, float, std::vector<float>> WV; typedef pigo::Tensor<u64, u64, std::vector<u64>, float, std::vector<float>, false> TV; typedef pigo::Tensor<u32, u32, std::vector<u32>, float, std::vector<float>, true> TW; typedef pigo::COO<u32, u32, std::vector<u32>, false, false, false, true, float, std::vector<float>> WVC; typedef pigo::COO<u64, u32, u64*, true, false, false, true, double, double*> SY;
// An object with one row that holds half of the entries, in descending order and with duplicates.
static WC& hot() { R_PAUSE; static WC* c = nullptr; if (!c) { c = new WC(1000, 1000, 1000, R_ENTRIES); for (u32 i = 0; i < R_ENTRIES; ++i) { c->x()[i] = i % 2 ? 7 : i % 1000; c->y()[i] = (R_ENTRIES - i) % 1000; c->w()[i] = (float)(i % 90); } } return *c; }
// An object with many rows, each with few entries.
#ifndef R_WIDE
#define R_WIDE 22000
#endif
static WC& broad() { R_PAUSE; static WC* c = nullptr; if (!c) { u32 n = R_WIDE / 2; c = new WC(R_WIDE, R_WIDE, R_WIDE, n); for (u32 i = 0; i < n; ++i) { c->x()[i] = i % 5 ? i * 2 : i; c->y()[i] = (n - i) * 7 % 1000; c->w()[i] = (float)(i % 90); } } return *c; }
template<class C, class S> C* made(S& s) { R_PAUSE; return new C(s); }
static C& plain() { R_PAUSE; static C* c = nullptr; if (!c) { c = new C(900, 900, 900, R_ENTRIES); for (u32 i = 0; i < R_ENTRIES; ++i) { c->x()[i] = i * 7 % 900; c->y()[i] = i * 11 % 900; } } return *c; }
template<class X> std::string ordered(X& c) { R_PAUSE; return std::to_string(hash_csr(read_csr(c, true))); }
template<class X> std::string off_d(X& t) { R_PAUSE; u64 h = mix(t.m()); for (size_t i = 0; i < t.m(); ++i) h = mix(h ^ t.c()[i]); return std::to_string(h); }
ROUTE(conv_csr) { (void)e; (void)r; WR x(built().c); auto s = csr_d(x, true); x.free(); return s; }
ROUTE(conv_vec) { (void)e; (void)r; R x(plain()); return csr_d(x, false); }
ROUTE(conv_wv) { (void)e; (void)r; WV x(hot()); return csr_d(x, true); }
ROUTE(conv_coo) { (void)e; (void)r; WC x(built().r); auto s = coo_d(x, true); x.free(); return s; }
ROUTE(conv_sym) { (void)e; (void)r; SY x(built().r); Mat m; std::string s; { R_PAUSE; m = read_coo(x, true); std::sort(m.e.begin(), m.e.end(), [](const E3& a, const E3& b) { return std::tie(a.x, a.y, a.w) < std::tie(b.x, b.y, b.w); }); s = std::to_string(hash_mat(m)); } x.free(); return s; }
ROUTE(digraph) { (void)e; (void)r; D d(hot()); auto s = csr_d(d.in(), true) + csr_d(d.out(), true); d.free(); return s; }
ROUTE(matrix_coo) { (void)e; (void)r; M d(hot()); auto s = csr_d(d.csr(), true) + csr_d(d.csc(), true); d.free(); return s; }
template<class X, class S> std::string copied(S& src, bool w) { X* from = made<X>(src); std::string s; try { X b(*from); s = coo_d(b, w); b.free(); } catch (...) { R_PAUSE; from->free(); delete from; throw; } R_PAUSE; from->free(); delete from; return s; }
static WR& built_r() { return built().r; }
ROUTE(copy_raw) { (void)e; (void)r; return copied<WC>(built_r(), true); }
ROUTE(copy_vec) { (void)e; (void)r; return copied<WVC>(built_r(), true); }
ROUTE(copy_sp) { (void)e; (void)r; return copied<WS>(built_r(), true); }
// What was to receive the result is still a valid object: unchanged or without entries.
template<class X, class S> std::string assigned(S& src, bool w) {
    X* from; X* to; { R_PAUSE; from = new X(src); to = new X(5, 5, 5, 3); for (int i = 0; i < 3; ++i) { raw(to->x())[i] = i; raw(to->y())[i] = 4 - i; if (w) raw(to->w())[i] = (float)i; } }
    std::string s, was; { R_PAUSE; was = coo_d(*to, w); }
    auto end = [&] { R_PAUSE; to->free(); from->free(); delete to; delete from; };
    try { *to = *from; } catch (...) { { R_PAUSE; std::string now = to->m() == 0 ? was : to->m() == 3 ? coo_d(*to, w) : std::string(); u64 m = to->m(); H_CHECK(now == was, "half-done", "the target of an assignment that failed reports %llu entries", (unsigned long long)m); std::string f = coo_d(*from, w); X again(src); H_CHECK(f == coo_d(again, w), "source-changed", "the source of an assignment that failed has changed"); again.free(); } end(); throw; }
    s = coo_d(*to, w); end(); return s; }
ROUTE(assign_raw) { (void)e; (void)r; return assigned<WC>(built_r(), true); }
ROUTE(assign_vec) { (void)e; (void)r; return assigned<WVC>(built_r(), true); }
ROUTE(assign_sp) { (void)e; (void)r; return assigned<WS>(built_r(), true); }
ROUTE(assign_ten) { (void)e; (void)r; T* to; { R_PAUSE; to = new T(1, 2); to->c()[0] = 4; to->c()[1] = 5; to->w()[0] = to->w()[1] = 1; } try { *to = built().t; } catch (...) { { R_PAUSE; u64 m = to->m(); H_CHECK(m == 0 || (m == 2 && to->order() == 1 && to->c()[0] == 4 && to->c()[1] == 5), "half-done", "the target of an assignment that failed reports %llu entries", (unsigned long long)m); to->free(); delete to; } throw; } auto s = ten_d(*to); R_PAUSE; to->free(); delete to; return s; }
ROUTE(copy_ten) { (void)e; (void)r; T x(built().t); auto s = ten_d(x); x.free(); return s; }
// Sorting and removing duplicates lose nothing when they fail.
template<class X> std::string sorted(bool dups, WC& from = hot()) {
    X* x = made<X>(from); std::string was = csr_d(*x, true), s; auto end = [&] { R_PAUSE; x->free(); delete x; };
    try { if (dups) { X y = x->new_csr_without_dups(); { R_PAUSE; Csr m = read_csr(y, true); for (auto& row : m.rows) for (auto& q : row) q.second = 0; s = std::to_string(hash_csr(m)); } y.free(); } else { x->sort(); R_PAUSE; Csr m = read_csr(*x, true); for (auto& row : m.rows) for (size_t i = 1; i < row.size(); ++i) H_CHECK(row[i - 1].first <= row[i].first, "order", "a sorted row is out of order"); s = csr_d(*x, true); } }
    catch (CaseFail&) { throw; } catch (...) { { R_PAUSE; std::string now = csr_d(*x, true); H_CHECK(now == was, "source-changed", "an operation that failed changed the entries"); } end(); throw; }
    end(); return s; }
ROUTE(sort_raw) { (void)e; (void)r; return sorted<WR>(false); }
ROUTE(sort_vec) { (void)e; (void)r; return sorted<WV>(false); }
ROUTE(dedup_raw) { (void)e; (void)r; return sorted<WR>(true); }
ROUTE(dedup_vec) { (void)e; (void)r; return sorted<WV>(true); }
ROUTE(sort_broad) { (void)e; (void)r; return sorted<WR>(false, broad()); }
ROUTE(dedup_broad) { (void)e; (void)r; return sorted<WV>(true, broad()); }
ROUTE(conv_broad) { (void)e; (void)r; WR x(broad()); auto s = csr_d(x, true); x.free(); return s; }
ROUTE(new_all) { (void)e; (void)r; { WC a(9, 9, 9, 3000); a.free(); } { WR a(900, 3000, 900, 900); a.free(); } { T a(3, 900); a.free(); } { WVC a(9, 9, 9, 3000); } { WV a(900, 3000, 900, 900); } return "ok"; }
ROUTE(maxima) { (void)e; (void)r; auto v = built().t.max_labels(); R_PAUSE; std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; }
ROUTE(offsets) { (void)r; pigo::ROFile f(e.el); TV t = f.reader().find_offsets<TV>('\n'); return off_d(t); }
ROUTE(ten_vec) { (void)r; TW t(e.tn); R_PAUSE; return std::to_string(hash_ten(read_ten(t, true))); }
ROUTE(coo_sp) { (void)r; WS c(e.el); return coo_d(c, true); }
ROUTE(coo_vec) { (void)r; WVC c(e.mm); return coo_d(c, true); }
static const RT more[] = {{"conv_csr", conv_csr, 0}, {"conv_vec", conv_vec, 0}, {"conv_wv", conv_wv, 0}, {"conv_coo", conv_coo, 0}, {"conv_sym", conv_sym, 0}, {"digraph", digraph, 0}, {"matrix_coo", matrix_coo, 0}, {"copy_raw", copy_raw, 0}, {"copy_vec", copy_vec, 0}, {"copy_sp", copy_sp, 0}, {"assign_raw", assign_raw, 0}, {"assign_vec", assign_vec, 0}, {"assign_sp", assign_sp, 0}, {"assign_ten", assign_ten, 0}, {"copy_ten", copy_ten, 0}, {"sort_raw", sort_raw, 0}, {"sort_vec", sort_vec, 0}, {"dedup_raw", dedup_raw, 0}, {"dedup_vec", dedup_vec, 0}, {"sort_broad", sort_broad, 0}, {"dedup_broad", dedup_broad, 0}, {"conv_broad", conv_broad, 0}, {"new_all", new_all, 0}, {"maxima", maxima, 0}, {"offsets", offsets, 0}, {"ten_vec", ten_vec, 0}, {"coo_sp", coo_sp, 0}, {"coo_vec", coo_vec, 0}};
const size_t NM = sizeof more / sizeof *more;
