// C19: neighbour iteration visits exactly the stored entries of every vertex.
#include "ten.hpp"
#include "big.hpp"
using namespace h;

template<class G> void walk(G& g, const Csr& m, const char* what) {
    typedef typename std::remove_reference<decltype(raw(g.endpoints())[0])>::type V;
    const bool is_vec = pigo::is_vector<typename std::remove_reference<decltype(g.endpoints())>::type>::value;   // iterators hold a copy of a vector
    u64 pos = 0, total = 0;
    for (u64 v = 0; v < m.rows.size(); ++v) {
        const Row& want = m.rows[v];
        H_CHECK((u64)g.neighbor_start((V)v) == pos, "start", "%s: start of %llu is %llu expected %llu", what, (unsigned long long)v, (unsigned long long)g.neighbor_start((V)v), (unsigned long long)pos);
        H_CHECK((u64)g.neighbor_end((V)v) == pos + want.size(), "end", "%s: end of %llu is %llu expected %llu", what, (unsigned long long)v, (unsigned long long)g.neighbor_end((V)v), (unsigned long long)(pos + want.size()));
        H_CHECK((u64)g.degree((V)v) == want.size(), "degree", "%s: degree of %llu is %llu expected %zu", what, (unsigned long long)v, (unsigned long long)g.degree((V)v), want.size());
        size_t k = 0;
        for (auto& nb : g.neighbors((V)v)) { // as users write it
            H_CHECK(k < want.size(), "iteration", "%s: vertex %llu yields more than its %zu entries", what, (unsigned long long)v, want.size());
            H_CHECK((u64)nb == want[k].first, "iteration", "%s: neighbour %zu of %llu is %llu expected %llu", what, k, (unsigned long long)v, (unsigned long long)nb, (unsigned long long)want[k].first);
            H_CHECK(is_vec || &nb == raw(g.endpoints()) + pos + k, "iteration", "%s: neighbour %zu of %llu is not the stored one", what, k, (unsigned long long)v);
            ++k;
        }
        H_CHECK(k == want.size(), "iteration", "%s: vertex %llu yields %zu of %zu entries", what, (unsigned long long)v, k, want.size());
        auto e = g.neighbors((V)v); auto it = e.begin(), end = e.end(); size_t c = 0; while (it != end) { ++it; ++c; H_CHECK(c <= want.size(), "iteration", "iterator does not end"); }
        H_CHECK(c == want.size(), "iteration", "%s: iterator takes %zu steps expected %zu", what, c, want.size());
        pos += want.size(); total += k; stat("vertices"); if (want.empty()) stat("vertices_without_edges");
    }
    H_CHECK(total == m.m && (u64)g.m() == total, "degree-sum", "%s: degrees add up to %llu, m=%llu", what, (unsigned long long)total, (unsigned long long)g.m()); stat("edges_visited", total);
}
template<class V, class O, int K, class W, bool WG> void run(Rng& r, size_t cap, u64 maxdim) {
    typedef pigo::BaseGraph<V, O, Store<V, K>, Store<O, K>, WG, W, Store<W, K>> G; typedef pigo::COO<V, O, Store<V, K>, false, false, false, WG, W, Store<W, K>> C;
    Mat m = gen_mat<W>(r, pick_count(r, std::min<u64>(cap, (u64)std::numeric_limits<O>::max() - 1)), maxdim, WG); unsigned route = (unsigned)r.below(5); set_threads(pick_threads(r)); if (r.chance(1, 4)) m.n += r.below(4);
    char head[64]; snprintf(head, sizeof head, "route=%u V=%s O=%s K=%d ", route, tname<V>(), tname<O>(), K); label(head + desc(m)); seen("inputs", hash_mat(m) ^ mix(route * 8 + K)); stat("evaluations"); stat("route_" + std::to_string(route));
    if (route == 0) { // filled by hand: the stored order is ours
        Csr c = gen_csr_model(r, m); G g((V)c.n, (O)c.m, (V)c.nr, (V)c.nc); fill_csr(g, c, WG); walk(g, c, "built"); 
        if (c.m && K != 1) { u64 v = r.below(c.rows.size()); for (auto& nb : g.neighbors((V)v)) nb = (V)1; for (auto& e : c.rows[v]) e.first = 1; walk(g, c, "modified through the iterator"); }
        g.free(); return; }
    C c((V)m.n, (V)m.nr, (V)m.nc, (O)m.e.size()); fill_coo(c, m, WG); Box<G> b(pick_pattern(r)); G* g;
    if (route == 1) g = &b.make(c);
    else if (route == 2) { G t(c); std::string f = tmp_name(); t.save(f); t.free(); g = &b.make(f); }
    else if (route == 3) { std::string f = tmp_name(); c.save(f); g = &b.make(f); }
    else { g = &b.make(c); g->sort(); }
    c.free(); Csr got = read_csr(*g, WG); Csr want = to_rows(m); want.n = m.n; want.rows.resize(std::max(m.n, m.nr));
    walk(*g, got, "graph"); sort_rows(got); sort_rows(want); cmp_csr(got, want, "graph contents"); g->free();
    if (route == 1) { // the views of a directed graph iterate as well
        C c2((V)m.n, (V)m.nr, (V)m.nc, (O)m.e.size()); fill_coo(c2, m, WG); pigo::DiGraph<V, O, Store<V, K>, Store<O, K>, WG, W, Store<W, K>> d(c2); c2.free(); walk(d.out(), read_csr(d.out(), WG), "out"); walk(d.in(), read_csr(d.in(), WG), "in"); d.free(); }
}
template<int K> void pickt(Rng& r, size_t cap, u64 d) {
    switch (r.below(8)) { case 7: run<u32, u8, K, float, false>(r, std::min<size_t>(cap, 250), d); break; case 0: run<u32, u32, K, float, false>(r, cap, d); break; case 1: run<u64, u64, K, float, false>(r, cap, d); break; case 2: run<u32, u64, K, double, true>(r, cap, d); break; case 3: run<u64, u32, K, int, true>(r, cap, d); break; case 4: run<int, int, K, float, false>(r, cap, d); break; case 5: run<u16, u32, K, float, true>(r, cap, std::min<u64>(d, 60000)); break; default: run<u8, u16, K, float, false>(r, cap, std::min<u64>(d, 200)); }
}
H_GROUP(small) { switch (rng.below(3)) { case 0: pickt<0>(rng, 400, 300); break; case 1: pickt<1>(rng, 400, 300); break; default: pickt<2>(rng, 400, 300); } }
H_GROUP(large) { pickt<0>(rng, 200000, 200000); }
// Adjacency and text files loaded into the default graph types.
template<class G> void files(Rng& r) {
    u64 n = r.range(1, 200); Mat m; m.nr = m.nc = m.n = n; size_t k = r.below(300); for (size_t i = 0; i < k; ++i) m.e.push_back({r.below(n), r.below(n), 0}); m.e.push_back({r.below(n), 0, 0}); Csr c = to_rows(m); bool adj = r.chance(1, 2); std::string s;
    if (adj) { s = std::to_string(n) + " " + std::to_string(m.e.size()) + "\n"; for (auto& row : c.rows) { for (auto& e : row) s += std::to_string(e.first) + " "; s += "\n"; } }
    else for (auto& e : m.e) s += std::to_string(e.x) + " " + std::to_string(e.y) + "\n";
    std::string f = new_file(s, adj ? ".graph" : ".el"); set_threads(pick_threads(r)); label("file " + desc(m)); G g(f); Csr got = read_csr(g, false); walk(g, got, "file");
    if (adj) cmp_rows(got, c, "adjacency file"); else { u64 d = 0; for (auto& e : m.e) d = std::max(d, std::max(e.x, e.y) + 1); c.rows.resize(d); sort_rows(got); sort_rows(c); cmp_rows(got, c, "edge list"); }
    g.free(); seen("inputs", hash_str(s)); stat("evaluations");
}
H_GROUP(files) { if (rng.chance(1, 2)) files<pigo::Graph>(rng); else files<pigo::BigGraph>(rng); }
// More than 2^32 edges, half of them of one vertex.
H_GROUP(huge) {
    const u64 m = (1ull << 32) + rng.range(1, 100000), n = 200; typedef pigo::BaseGraph<u8, u64, u8*, u64*> G; label("graph of " + std::to_string(m) + " edges"); stat("evaluations"); seen("inputs", m); Rep src(rng, m, n, 1); G g((u8)n, m, (u8)n, (u8)n); u64* off = g.offsets(); off[0] = 0; u64 big = rng.below(n - 1); for (u64 v = 0; v < n; ++v) off[v + 1] = off[v] + (v == big ? m - 1000 * n : v == n - 1 ? 1000 + 1000 : 1000); u8* own = g.endpoints(); g.endpoints() = (u8*)src.p; 
    for (u64 v = 0; v < n; ++v) {
        H_CHECK(g.neighbor_start((u8)v) == off[v] && g.neighbor_end((u8)v) == off[v + 1] && g.degree((u8)v) == off[v + 1] - off[v], "degree", "vertex %llu: %llu..%llu degree %llu expected %llu..%llu", (unsigned long long)v, (unsigned long long)g.neighbor_start((u8)v), (unsigned long long)g.neighbor_end((u8)v), (unsigned long long)g.degree((u8)v), (unsigned long long)off[v], (unsigned long long)off[v + 1]);
        u64 k = off[v]; bool bad = false; for (auto& nb : g.neighbors((u8)v)) { if (&nb != (u8*)src.p + k) { bad = true; break; } ++k; } H_CHECK(!bad && k == off[v + 1], "iteration", "vertex %llu: iteration is wrong at entry %llu of %llu", (unsigned long long)v, (unsigned long long)(k - off[v]), (unsigned long long)(off[v + 1] - off[v])); stat("vertices");
    }
    stat("edges_visited", m); g.endpoints() = own; g.free();
}
