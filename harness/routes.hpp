// Routes: one load, save or write each, with a description of the complete result (C21, C30).
#pragma once
#include "ten.hpp"
#include "guard.hpp"
#include <dirent.h>
using namespace h;
#ifndef R_ENTRIES
#define R_ENTRIES 300
#define R_LABELS 60
#define R_TENSOR 200
#define R_ROWS 40
#define R_PAUSE (void)0
#endif
static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static int count_maps() { std::string s = get_file("/proc/self/maps"); int n = 0; size_t p = 0; std::string k = st().scratch + "/f"; while ((p = s.find(k, p)) != std::string::npos) { ++n; ++p; } return n; }
// A route performs one load, save or write and returns a description of its complete result.
struct Env { std::string el, mm, gr, tn, coo, csr, dig, ten, out; };
typedef std::string (*Route)(Env&, Rng&);
typedef pigo::COO<u32, u32, u32*, false, false, false, true, float, float*> WC; typedef pigo::CSR<u32, u32, u32*, u32*, true, float, float*> WR; typedef pigo::COO<u32, u32, std::vector<u32>> C; typedef pigo::CSR<u32, u32, std::vector<u32>, std::vector<u32>> R; typedef pigo::COO<u32, u32, std::shared_ptr<u32>, true> CS; typedef pigo::DiGraph<u32, u32, u32*, u32*, true, float, float*> D; typedef pigo::Matrix<u32, u32, u32*, u32*, true, float, float*> M; typedef pigo::Tensor<u32, u32, u32*, float, float*, true> T;
template<class X> std::string coo_d(X& c, bool w) { R_PAUSE; return std::to_string(hash_mat(read_coo(c, w))) + " " + std::to_string((u64)c.n()); }
template<class X> std::string csr_d(X& c, bool w) { R_PAUSE; Csr m = read_csr(c, w); sort_rows(m); return std::to_string(hash_csr(m)); }
static std::string ten_d(T& t) { R_PAUSE; return std::to_string(hash_ten(read_ten(t, true))); }
static Mat model() { Rng r(77); return gen_mat<float>(r, R_ENTRIES, R_LABELS, true); }
struct Built { WC c; WR r; T t; Built() { Mat m = model(); WC x((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(x, m, true); for (auto& e : m.e) (void)e; for (u32 i = 0; i < x.m(); ++i) x.w()[i] = (float)(i % 50); c = x; x.free(); r = WR(c); t = T(3, R_TENSOR); for (u32 i = 0; i < 3 * R_TENSOR; ++i) t.c()[i] = i * 7 % 91; for (u32 i = 0; i < R_TENSOR; ++i) t.w()[i] = (float)i; } };
static Built& built() { R_PAUSE; static Built* b = new Built; return *b; }

#define ROUTE(name) static std::string name(Env& e, Rng& r)
ROUTE(coo_el) { (void)r; C c(e.el); return coo_d(c, false); }
ROUTE(wcoo_el) { (void)r; WC c(e.el, pigo::EDGE_LIST); auto s = coo_d(c, true); c.free(); return s; }
ROUTE(coo_sym) { (void)r; CS c(e.el); return coo_d(c, false); }
ROUTE(wcoo_mm) { (void)r; WC c(e.mm); auto s = coo_d(c, true); c.free(); return s; }
ROUTE(coo_bin) { (void)r; WC c(e.coo); auto s = coo_d(c, true); c.free(); return s; }
ROUTE(coo_csr) { (void)r; WC c(e.csr); auto s = coo_d(c, true); c.free(); return s; }
ROUTE(coo_graph) { (void)r; C c(e.gr); return coo_d(c, false); }
ROUTE(coo_file) { (void)r; pigo::ROFile f(e.coo); pigo::ROFile g(e.el); WC c(f, pigo::AUTO); C d(g, pigo::EDGE_LIST); auto s = coo_d(c, true) + coo_d(d, false); c.free(); return s; }
ROUTE(csr_el) { (void)r; R c(e.el); return csr_d(c, false); }
ROUTE(csr_mm) { (void)r; WR c(e.mm); auto s = csr_d(c, true); c.free(); return s; }
ROUTE(csr_bin) { (void)r; WR c(e.csr); auto s = csr_d(c, true); c.free(); return s; }
ROUTE(csr_coo) { (void)r; WR c(e.coo, pigo::PIGO_COO_BIN); auto s = csr_d(c, true); c.free(); return s; }
ROUTE(csr_graph) { (void)r; R c(e.gr); return csr_d(c, false); }
ROUTE(graph) { (void)r; pigo::Graph g(e.gr); auto s = csr_d(g, false); g.free(); return s; }
ROUTE(dig_el) { (void)r; D d(e.el); auto s = csr_d(d.in(), true) + csr_d(d.out(), true); d.free(); return s; }
ROUTE(dig_bin) { (void)r; D d(e.dig); auto s = csr_d(d.in(), true) + csr_d(d.out(), true); d.free(); return s; }
ROUTE(dig_mm) { (void)r; D d(e.mm, pigo::MATRIX_MARKET); auto s = csr_d(d.in(), true) + csr_d(d.out(), true); d.free(); return s; }
ROUTE(matrix) { (void)r; M d(e.mm); auto s = csr_d(d.csr(), true) + csr_d(d.csc(), true); d.free(); return s; }
ROUTE(matrix_bin) { (void)r; M d(e.coo); auto s = csr_d(d.csr(), true) + csr_d(d.csc(), true); d.free(); return s; }
ROUTE(ten_el) { (void)r; T t(e.tn); auto s = ten_d(t); t.free(); return s; }
ROUTE(ten_bin) { (void)r; T t(e.ten); auto s = ten_d(t); t.free(); return s; }
ROUTE(rofile) { (void)r; pigo::ROFile f(e.el); pigo::FileReader x = f.reader(); R_PAUSE; std::string s(x.d, x.d + x.size()); return std::to_string(hash_str(s)); }
// Output routes: the result is the content of the file.
static std::string outd(Env& e) { R_PAUSE; guard::disarm(); std::string s = get_file(e.out); guard::arm(); return std::to_string(hash_str(s)); }
ROUTE(save_coo) { (void)r; built().c.save(e.out); return outd(e); }
ROUTE(save_csr) { (void)r; built().r.save(e.out); return outd(e); }
ROUTE(save_ten) { (void)r; built().t.save(e.out); return outd(e); }
static D& digr() { static D* d = nullptr; if (!d) { R_PAUSE; d = new D(built().c); } return *d; }
ROUTE(save_dig) { (void)r; digr().save(e.out); return outd(e); }
ROUTE(write_coo) { (void)r; built().c.write(e.out); return outd(e); }
ROUTE(write_ten) { (void)r; built().t.write(e.out); return outd(e); }
ROUTE(wfile) { (void)r; { pigo::WFile w(e.out, 5000); for (int i = 0; i < 500; ++i) w.write(std::string("0123456789")); } return outd(e); }
struct RT { const char* n; Route f; bool out; };
static const RT routes[] = {{"coo_el", coo_el, 0}, {"wcoo_el", wcoo_el, 0}, {"coo_sym", coo_sym, 0}, {"wcoo_mm", wcoo_mm, 0}, {"coo_bin", coo_bin, 0}, {"coo_csr", coo_csr, 0}, {"coo_graph", coo_graph, 0}, {"coo_file", coo_file, 0}, {"csr_el", csr_el, 0}, {"csr_mm", csr_mm, 0}, {"csr_bin", csr_bin, 0}, {"csr_coo", csr_coo, 0}, {"csr_graph", csr_graph, 0}, {"graph", graph, 0}, {"dig_el", dig_el, 0}, {"dig_bin", dig_bin, 0}, {"dig_mm", dig_mm, 0}, {"matrix", matrix, 0}, {"matrix_bin", matrix_bin, 0}, {"ten_el", ten_el, 0}, {"ten_bin", ten_bin, 0}, {"rofile", rofile, 0}, {"save_coo", save_coo, 1}, {"save_csr", save_csr, 1}, {"save_ten", save_ten, 1}, {"save_dig", save_dig, 1}, {"write_coo", write_coo, 1}, {"write_ten", write_ten, 1}, {"wfile", wfile, 1}};
const size_t NR = sizeof routes / sizeof *routes;

static Env setup_env() {
    Env e; Built& b = built(); WC& c = b.c; std::string el, mm, gr; for (u32 i = 0; i < c.m(); ++i) el += std::to_string(c.x()[i]) + " " + std::to_string(c.y()[i]) + " " + std::to_string((int)c.w()[i]) + "\n";
    mm = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(c.nrows()) + " " + std::to_string(c.ncols()) + " " + std::to_string(c.m()) + "\n" + el; std::string tn; for (u32 i = 0; i < b.t.m(); ++i) { for (int k = 0; k < 3; ++k) tn += std::to_string(b.t.c()[3 * i + k]) + " "; tn += std::to_string((int)b.t.w()[i]) + "\n"; }
    u32 n = R_ROWS; size_t m = 0; std::string body; for (u32 v = 0; v < n; ++v) { for (u32 k = 0; k < v % 5; ++k) { body += std::to_string((v * 3 + k) % n) + " "; ++m; } body += "\n"; } gr = std::to_string(n) + " " + std::to_string(m) + "\n" + body;
    e.el = new_file(el); e.mm = new_file(mm, ".mtx"); e.gr = new_file(gr, ".graph"); e.tn = new_file(tn); e.coo = tmp_name(); e.csr = tmp_name(); e.dig = tmp_name(); e.ten = tmp_name(); e.out = tmp_name(); c.save(e.coo); b.r.save(e.csr); D d(c); d.save(e.dig); d.free(); b.t.save(e.ten); return e;
}
struct Before { int fds, maps; size_t live, streams; Before() : fds(count_fds()), maps(count_maps()), live(guard::live_maps()), streams(guard::open_streams()) {} };
static void clean(const Before& b, const char* what) {
    H_CHECK(guard::live_maps() == b.live && count_maps() == b.maps, "mapping-leak", "%s: %zu mappings stayed behind (%d by the system)", what, guard::live_maps() - b.live, count_maps() - b.maps);
    std::string er = guard::take_errors(); H_CHECK(er.empty(), "mapping-protocol", "%s: %s", what, er.c_str());
    H_CHECK(guard::open_streams() == b.streams && count_fds() == b.fds, "descriptor-leak", "%s: %d descriptors stayed behind", what, count_fds() - b.fds);
}
