// C27: the documented programs do what their documentation says.
#include "obj.hpp"
#include "guard.hpp"
#include <iomanip>
#include <fstream>
#include <iostream>
#include <sstream>
// The programs of docs/examples, unchanged, each in a namespace of its own.
namespace ex_clean {
#include "../docs/examples/clean_graph.cpp"
}
namespace ex_sym {
#include "../docs/examples/symmetrize.cpp"
}
namespace ex_find {
#include "../docs/examples/find_edge.cpp"
}
// The program of README.md.
namespace ex_readme {
using namespace std;
using namespace pigo;
int main(int argc, char** argv) {
    if (argc != 2) {
        cerr << "Usage: " << argv[0] << " filename" << endl;
        return 1;
    }

    Graph g { argv[1] };
    cout << "number of vertices: " << g.n() << endl;
    cout << "number of edges: " << g.m() << endl;

    cout << "vertex 0's neighbors:\n";
    for (auto n : g.neighbors(0))
        cout << n << endl;
    return 0;
}
}
// The program of docs/tutorials/read_binary.rst.
namespace ex_bin {
using namespace std;
using namespace pigo;
static vector<int32_t>* got;
void do_something(uint64_t size, int32_t* vec) { got->assign(vec, vec + size); }
int main(int argc, char** argv) {
    // Open and load the file
    if (argc != 2) {
        cerr << "Usage: " << argv[0] << " file" << endl;
        return 1;
    }

    // Read the input file
    double t = omp_get_wtime();
    ROFile fin { argv[1] };
    uint64_t size = fin.read<uint64_t>();
    int32_t* vec = new int32_t[size];
    fin.parallel_read((char*)vec, sizeof(int32_t)*size);
    cerr << "[read] " << omp_get_wtime()-t << endl;

    do_something(size, vec);

    delete [] vec;
    return 0;
}
}
using namespace h;
typedef std::vector<std::pair<u64, u64>> Pairs;
struct Quiet {
    std::streambuf *o, *e; std::ios fo{nullptr}, fe{nullptr}; std::ostringstream out, err;
    Quiet() { fo.copyfmt(std::cout); fe.copyfmt(std::cerr); o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.copyfmt(fo); std::cerr.copyfmt(fe); }
};
typedef int (*Main)(int, char**);
static int call(Main f, std::vector<std::string> a, std::string* out = nullptr) {
    std::vector<char*> v; a.insert(a.begin(), "program"); for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
    int rc; { Quiet q; guard::Scope g; rc = f((int)a.size(), v.data()); if (out) *out = q.out.str(); }
    std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0 && guard::open_streams() == 0, "mapping", "%s live=%zu streams=%zu", e.c_str(), guard::live_maps(), guard::open_streams());
    return rc;
}
static std::string lines(const Pairs& p) { std::string s; for (auto& e : p) s += std::to_string(e.first) + " " + std::to_string(e.second) + "\n"; return s; }
static void same(const std::string& got, const std::string& want, const char* what) {
    if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t l = std::count(want.begin(), want.begin() + std::min(i, want.size()), '\n');
    size_t a = i > 30 ? i - 30 : 0; fail("output", "%s: %zu bytes, expected %zu; first difference in line %zu: '%s' expected '%s'", what, got.size(), want.size(), l, got.substr(a, 60).c_str(), want.substr(a, 60).c_str());
}
// An input file of a random kind holding the entries. kinds: bit 0 edge list, 1 Matrix Market, 2 adjacency, 3 binary coordinate, 4 binary compressed (of program types L, O)
template<class L> std::string input(Rng& r, std::vector<Ent>& v, unsigned kinds, std::string& kind, bool& rows) {
    unsigned k; do k = (unsigned)r.below(5); while (!(kinds >> k & 1));
    Noise nz(r); u64 n = 0, n2 = 0; rows = false; for (auto& e : v) { n = std::max(n, e.x + 1); n2 = std::max(n2, e.y + 1); } u64 mx = std::max(n, n2);
    if (k == 0) { kind = "edge list"; std::string s = render_el<float>(r, v, false, r.chance(1, 4), nz); if (r.chance(1, 4)) page_align_front(s); return new_file(s, r.pick({"", ".el", ".txt"})); }
    if (k == 1) { kind = "matrix market"; std::string h = "%%MatrixMarket matrix coordinate pattern general\n"; if (r.chance(1, 2)) h += "% comment 1 2\n"; bool square = r.chance(1, 2); h += std::to_string(square ? mx : n) + " " + std::to_string(square ? mx : n2) + " " + std::to_string(v.size()) + "\n"; std::string s; for (auto& e : v) s += std::to_string(e.x) + " " + std::to_string(e.y) + nz.eol(); return new_file(h + s, ".mtx"); }
    if (k == 2) { kind = "adjacency"; rows = true; std::map<u64, std::vector<u64>> adj; for (auto& e : v) adj[e.x].push_back(e.y); bool zero = false; for (auto& e : v) zero |= e.y == 0; if (!zero && v.size()) { v.push_back({}); v.back().x = mx - 1; v.back().y = 0; adj[mx - 1].push_back(0); }
        std::string s = std::to_string(mx) + " " + std::to_string(v.size()) + "\n"; for (u64 x = 0; x < mx; ++x) { auto it = adj.find(x); if (it != adj.end()) for (size_t i = 0; i < it->second.size(); ++i) s += (i ? " " : "") + std::to_string(it->second[i]); s += "\n"; } return new_file(s, ".graph"); }
    std::string fn = tmp_name(r.pick({"", ".bin", ".mtx"}));
    pigo::COO<L, L, std::vector<L>> c((L)mx, (L)n, (L)n2, (L)v.size()); for (size_t i = 0; i < v.size(); ++i) { c.x()[i] = (L)v[i].x; c.y()[i] = (L)v[i].y; }
    if (k == 3) { kind = "binary coordinate"; c.save(fn); }
    else { kind = "binary compressed"; rows = true; pigo::CSR<L, L, std::vector<L>, std::vector<L>> s(c); s.save(fn); }
    return fn;
}
static std::vector<Ent> ents(Rng& r, size_t n, u64 maxl, bool nonempty) {
    std::vector<Ent> v = gen_ents<float>(r, n, maxl, maxl, maxl > 3000, false); if (v.empty() && nonempty) { v.resize(1); v[0].x = r.below(5); v[0].y = r.below(5); } 
    if (maxl > 3000 && r.chance(2, 3)) {      // over the whole range of labels, crowded at the end
        u64 top = maxl - r.below(20); bool sym = r.chance(1, 2); for (auto& e : v) { e.x = r.below(top + 1); e.y = r.below(top + 1); if (r.chance(1, 5)) { e.x = top - r.below(16); e.y = r.chance(1, 2) ? r.below(top + 1) : r.below(60); } if (sym && r.chance(1, 2)) std::swap(e.x, e.y); if (r.chance(1, 5)) { auto& o = v[r.below(n)]; e.x = o.x; e.y = o.y; } }
        v[0].x = top;
    }
    return v;
}
static void begin(Rng& r, const char* prog, const std::string& kind, const std::vector<Ent>& v, int t) {
    std::string d; for (size_t i = 0; i < v.size() && i < 12; ++i) d += " " + std::to_string(v[i].x) + "-" + std::to_string(v[i].y); label(std::string(prog) + " on " + kind + " threads=" + std::to_string(t) + " m=" + std::to_string(v.size()) + d);
    u64 x = hash_str(prog) ^ hash_str(kind) ^ mix(t); for (auto& e : v) x = mix(x ^ mix(e.x) ^ e.y); seen("inputs", x); stat("evaluations"); stat(std::string("program_") + prog); stat("input_" + kind); set_threads(t); stat_max("threads", t); (void)r;
}
static std::string outname(Rng& r) { std::string o = tmp_name(r.pick({"", ".el", ".mtx"})); if (r.chance(1, 3)) put_file(o, std::string(r.pick<size_t>({1, 10, 5000, 100000}), 'x')); return o; }

static void clean_case(Rng& r, size_t n, u64 maxl) {
    auto v = ents(r, n, maxl, true); bool any = false; for (auto& e : v) any |= e.x != e.y; if (!any) { v.push_back({}); v.back().x = r.below(9) + 1; v.back().y = 0; }
    std::string kind; bool rows; std::string in = input<u64>(r, v, 3, kind, rows), out = outname(r); int t = pick_threads(r); begin(r, "clean_graph", kind, v, t);
    std::string before = get_file(in);
    H_CHECK(call(ex_clean::main, {in, out}) == 0, "status", "non-zero status");
    std::set<std::pair<u64, u64>> s; for (auto& e : v) if (e.x != e.y) s.insert({std::min(e.x, e.y), std::max(e.x, e.y)});
    same(get_file(out), lines(Pairs(s.begin(), s.end())), "clean_graph"); H_CHECK(get_file(in) == before, "input-changed", "the input file was changed"); stat("lines_checked", s.size());
    if (r.chance(1, 4)) { std::string o2 = outname(r); int t2 = pick_threads(r); set_threads(t2); H_CHECK(call(ex_clean::main, {out.find(".mtx") == std::string::npos ? out : new_file(get_file(out)), o2}) == 0, "status", "non-zero status"); same(get_file(o2), get_file(out), "cleaning the clean graph"); stat("cleaned_again"); }
}
static void sym_case(Rng& r, size_t n, u64 maxl) {
    auto v = ents(r, n, maxl, true); std::string kind; bool rows; std::string in = input<u64>(r, v, 0x17, kind, rows), out = outname(r); int t = pick_threads(r); begin(r, "symmetrize", kind, v, t);
    H_CHECK(call(ex_sym::main, {in, out}) == 0, "status", "non-zero status");
    Pairs p; for (auto& e : v) { p.push_back({e.x, e.y}); if (e.x != e.y) p.push_back({e.y, e.x}); } std::sort(p.begin(), p.end());
    same(get_file(out), lines(p), "symmetrize"); stat("lines_checked", p.size());
}
static void find_case(Rng& r, size_t n, u64 maxl) {
    auto v = ents(r, n, maxl, true); std::string kind; bool rows; std::string in = input<i64>(r, v, 0x1f, kind, rows);
    std::set<std::pair<u64, u64>> s; u64 mx = 0; for (auto& e : v) { s.insert({e.x, e.y}); mx = std::max(mx, std::max(e.x, e.y) + 1); }
    u64 nn = kind == "matrix market" ? mx + 1 : mx;
    for (int q = 0; q < 12; ++q) {
        u64 x, y; if (r.chance(1, 2)) { auto& e = v[r.below(v.size())]; x = e.x; y = e.y; if (r.chance(1, 4)) y = y ? y - 1 : y + 1; if (r.chance(1, 6)) std::swap(x, y); } else { x = r.below(nn + 2); y = r.below(nn + 2); } if (q == 0) x = nn - 1; if (q == 1) { x = nn; y = 0; }
        int t = pick_threads(r); begin(r, "find_edge", kind, v, t); label(st().label + " query " + std::to_string(x) + " " + std::to_string(y)); int rc; std::string o; stat("queries");
        if (x >= nn || y >= nn) { bool threw = false; try { call(ex_find::main, {in, std::to_string(x), std::to_string(y)}); } catch (std::runtime_error& e) { threw = std::string(e.what()) == "Improper src, dst"; } guard::reset(); H_CHECK(threw, "answer", "a vertex beyond n=%llu was accepted", (unsigned long long)nn); stat("refused"); continue; }
        rc = call(ex_find::main, {in, std::to_string(x), std::to_string(y)}, &o); bool want = s.count({x, y}); stat(want ? "edges_found" : "edges_absent");
        H_CHECK(rc == (want ? 0 : 2) && o == (want ? ">> edge found\n" : ">> NOT found\n"), "answer", "edge %llu %llu is %s, but the answer is %d '%s'", (unsigned long long)x, (unsigned long long)y, want ? "there" : "absent", rc, o.c_str());
    }
}
static void readme_case(Rng& r, size_t n, u64 maxl) {
    auto v = ents(r, n, maxl, true); std::string kind; bool rows; std::string in = input<u32>(r, v, 0x1f, kind, rows); int t = pick_threads(r); begin(r, "readme", kind, v, t); std::string o;
    H_CHECK(call(ex_readme::main, {in}, &o) == 0, "status", "non-zero status"); u64 mx = 0; std::vector<u64> nb; for (auto& e : v) { mx = std::max(mx, std::max(e.x, e.y) + 1); if (e.x == 0) nb.push_back(e.y); } if (kind == "matrix market") ++mx;
    std::istringstream is(o); std::string line; std::vector<u64> got; size_t k = 0; std::string h1 = "number of vertices: " + std::to_string(mx), h2 = "number of edges: " + std::to_string(v.size());
    while (std::getline(is, line)) { if (k == 0) H_CHECK(line == h1, "output", "'%s' expected '%s'", line.c_str(), h1.c_str()); else if (k == 1) H_CHECK(line == h2, "output", "'%s' expected '%s'", line.c_str(), h2.c_str()); else if (k == 2) H_CHECK(line == "vertex 0's neighbors:", "output", "'%s'", line.c_str()); else got.push_back(strtoull(line.c_str(), 0, 10)); ++k; }
    if (kind != "adjacency") std::sort(nb.begin(), nb.end()), std::sort(got.begin(), got.end()); H_CHECK(got == nb, "output", "vertex 0 has %zu neighbours, %zu printed", nb.size(), got.size()); stat("lines_checked", k);
}
static void bin_case(Rng& r, size_t n) {
    std::string s; u64 c = n; s.append((char*)&c, 8); std::vector<int32_t> want(n); for (auto& x : want) x = (int32_t)r.next(); s.append((char*)want.data(), n * 4); if (r.chance(1, 4)) s += "trailing";
    std::vector<Ent> v; int t = pick_threads(r); begin(r, "readbin", "array", v, t); label("readbin size=" + std::to_string(n) + " threads=" + std::to_string(t)); seen("inputs", hash_str(s) ^ t); std::vector<int32_t> got; ex_bin::got = &got;
    H_CHECK(call(ex_bin::main, {new_file(s)}) == 0, "status", "non-zero status"); H_CHECK(got == want, "output", "the array read differs"); stat("integers_checked", n);
}
H_GROUP(small) {
    size_t n = pick_count(rng, 3000); u64 ml = rng.pick<u64>({3, 12, 60, 500, 5000});
    switch (st().cur % 8) { case 0: case 1: case 2: clean_case(rng, n, ml); break; case 3: case 4: sym_case(rng, n, ml); break; case 5: find_case(rng, n, ml); break; case 6: readme_case(rng, n, ml); break; default: bin_case(rng, rng.below(3) ? rng.below(3000) : rng.below(8)); }
}
H_GROUP(large) {
    size_t n = rng.range(20000, 200000); u64 ml = rng.pick<u64>({60, 1000, 70000, 1000000});
    switch (st().cur % 5) { case 0: clean_case(rng, n, ml); break; case 1: sym_case(rng, n, ml); break; case 2: find_case(rng, n, ml); break; case 3: readme_case(rng, n, ml); break; default: bin_case(rng, n * 10); }
}
H_GROUP(usage) {      // wrong numbers of arguments and missing files
    Main m[] = {ex_clean::main, ex_sym::main, ex_find::main, ex_readme::main, ex_bin::main}; unsigned need[] = {2, 2, 3, 1, 1}; unsigned k = (unsigned)(st().cur % 5); stat("evaluations"); seen("inputs", st().cur); label("program " + std::to_string(k));
    for (unsigned a = 0; a < 5; ++a) if (a != need[k]) { std::vector<std::string> v(a, tmp_name()); H_CHECK(call(m[k], v) == 1, "usage", "%u arguments accepted", a); }
    std::vector<std::string> v(need[k], "0"); v[0] = tmp_name(); bool threw = false; try { call(m[k], v); } catch (pigo::Error&) { threw = true; } H_CHECK(threw, "missing", "a missing input was accepted"); (void)rng;
}
