// C22: file types are detected from the header, then the name; automatic and explicit loading agree.
#include "ten.hpp"
#include "guard.hpp"
using namespace h;
using pigo::FileType;
static const char* tn(int t) { static const char* n[] = {"MATRIX_MARKET", "EDGE_LIST", "COO_BIN", "CSR_BIN", "DIGRAPH_BIN", "TENSOR_BIN", "GRAPH", "AUTO", "refused"}; return n[t]; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static const char* H_COO = pigo::COO<>::coo_file_header; static const char* H_CSR = pigo::CSR<>::csr_file_header; static const char* H_DIG = pigo::DiGraph<>::digraph_file_header; static const char* H_TEN = pigo::Tensor<>::tensor_file_header;
static int model(const std::string& name, const std::string& c) {
    if (starts(c, H_COO)) return pigo::PIGO_COO_BIN; if (starts(c, H_CSR)) return pigo::PIGO_CSR_BIN; if (starts(c, H_DIG)) return pigo::PIGO_DIGRAPH_BIN; if (starts(c, H_TEN)) return pigo::PIGO_TENSOR_BIN; if (starts(c, "PIGO")) return 8;
    if (ends(name, ".mtx")) return pigo::MATRIX_MARKET; if (ends(name, ".graph")) return pigo::GRAPH; return pigo::EDGE_LIST;
}
static std::string gen_name(Rng& r) {
    static const char* n[] = {"a", "a.mtx", "a.graph", ".mtx", ".graph", "mtx", "graph", "a.mtx.gz", "a.graph.txt", "a.MTX", "a.Graph", "a.mtx.graph", "a.graph.mtx", "amtx", "agraph", "a.mtx ", "x.mt", "x.grap", "a.mtxx", "a.graphs", ".", "a.", "a.el", "a.txt", "PIGO", "a.bin", "a..mtx", "a b.graph", "a.pigo.mtx", "tx", "h", "x.tx", "_mtx", ".graph_"};
    std::string s = n[r.below(sizeof n / sizeof *n)]; if (s == ".") s = "..a"; if (r.chance(1, 3)) s = r.pick({"q", "p.mtx", "z.graph"}) + s; return s;
}
// A scratch directory whose own name looks like a type.
static std::string place(Rng& r, const std::string& name) { std::string d = st().scratch + r.pick({"/plain", "/dir.mtx", "/dir.graph"}); mkdir(d.c_str(), 0755); std::string p = d + "/" + name; st().tmpfiles.push_back(p); return p; }

H_GROUP(guess) {
    std::string c; const char* hs[] = {H_COO, H_CSR, H_DIG, H_TEN}; std::string hd = hs[rng.below(4)];
    switch (rng.below(9)) {
        case 0: c = hd; break; case 1: c = hd + std::string(rng.below(40), (char)rng.next()); break; case 2: c = hd.substr(0, rng.range(1, hd.size() - 1)); break; case 3: { c = hd; size_t k = rng.below(c.size()); c[k] = (char)rng.next(); c += "1 2\n"; break; }
        case 4: c = "PIGO" + std::string(rng.below(20), 'x'); break; case 5: c = std::string("PIGO").substr(0, rng.range(1, 3)); break; case 6: c = "%%MatrixMarket matrix coordinate pattern general\n1 1 1\n1 1\n"; break; case 7: c = " " + hd; break; default: c = "1 2\n3 4\n"; if (rng.chance(1, 2)) c.resize(rng.range(1, 6)); }
    std::string name = place(rng, gen_name(rng)); put_file(name, c); label("name=" + name.substr(st().scratch.size()) + " content=" + c.substr(0, 30)); int want = model(name, c); guard::Scope gs; pigo::ROFile f0(name); pigo::File f(std::move((pigo::File&)f0)); int got; const char* at = f.fp();
    try { got = f.guess_file_type(); } catch (pigo::NotYetImplemented&) { fail("type", "not-implemented error"); } catch (pigo::Error&) { got = 8; }
    H_CHECK(got == want, "type", "detected as %s expected %s", tn(got), tn(want)); H_CHECK(f.fp() == at, "position", "detection moved the position"); stat("evaluations"); stat(std::string("guess_") + tn(want)); seen("inputs", hash_str(name.substr(st().scratch.size())) ^ hash_str(c));
}

// ---- loading ----
typedef std::string Out;    // description of the result: content digest, "error" or "not implemented"
static u64 sorted(Csr c) { sort_rows(c); return hash_csr(c); }
template<class T> struct Load;
template<class L, class O, class S, bool a, bool b, bool c, bool w, class W, class WS> struct Load<pigo::COO<L, O, S, a, b, c, w, W, WS>> { template<class X> static Out d(X& x) { Out s = "coo " + std::to_string(hash_mat(read_coo(x, w))) + " " + std::to_string((u64)x.n()) + " " + std::to_string((u64)x.m()); x.free(); return s; } };
template<class L, class O, class LS, class OS, bool w, class W, class WS> struct Load<pigo::CSR<L, O, LS, OS, w, W, WS>> { template<class X> static Out d(X& x) { Out s = "csr " + std::to_string(sorted(read_csr(x, w))); x.free(); return s; } };
template<class L, class O, class LS, class OS, bool w, class W, class WS> struct Load<pigo::BaseGraph<L, O, LS, OS, w, W, WS>> { template<class X> static Out d(X& x) { Out s = "csr " + std::to_string(sorted(read_csr(x, w))); x.free(); return s; } };
template<class L, class O, class LS, class OS, bool w, class W, class WS> struct Load<pigo::DiGraph<L, O, LS, OS, w, W, WS>> { template<class X> static Out d(X& x) { Out s = "dig " + std::to_string(sorted(read_csr(x.out(), w))) + std::to_string(sorted(read_csr(x.in(), w))); x.free(); return s; } };
template<class L, class O, class S, class W, class WS, bool w> struct Load<pigo::Tensor<L, O, S, W, WS, w>> { template<class X> static Out d(X& x) { Out s = "ten " + std::to_string(hash_ten(read_ten(x, w))); x.free(); return s; } };
template<class T, class F> Out outcome(F make) { try { T t = make(); return Load<T>::d(t); } catch (pigo::NotYetImplemented&) { return "not implemented"; } catch (pigo::Error&) { return "error"; } }
template<class T> Out load(const std::string& n, int ft, unsigned how) {
    if (how == 0 && ft == pigo::AUTO) return outcome<T>([&] { return T(n); });
    if (how <= 1) return outcome<T>([&] { return T(n, (FileType)ft); });
    return outcome<T>([&] { pigo::ROFile f(n); return T(f, (FileType)ft); });
}
template<class T, bool is_ten, bool is_dig, bool WG> void cls(Rng& r, const char* cname) {
    typedef pigo::COO<u32, u32, u32*, false, false, false, WG, float, float*> C; typedef pigo::CSR<u32, u32, u32*, u32*, WG, float, float*> R; typedef pigo::DiGraph<u32, u32, u32*, u32*, WG, float, float*> D; typedef pigo::Tensor<u32, u32, u32*, float, float*, WG> TT;
    Mat m = gen_mat<float>(r, 1 + r.below(40), 30, WG); if (WG) for (auto& e : m.e) e.w = wbits<float>((float)r.below(50)); C c((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(c, m, WG); std::string el; for (auto& e : m.e) el += std::to_string(e.x) + " " + std::to_string(e.y) + (WG ? " " + std::to_string((int)wfrom<float>(e.w)) : "") + "\n";
    int kind = (int)r.below(8); std::string name = place(r, gen_name(r)), content;
    switch (kind) {
        case pigo::MATRIX_MARKET: content = std::string("%%MatrixMarket matrix coordinate ") + (WG ? "integer" : "pattern") + " general\n" + std::to_string(m.nr) + " " + std::to_string(m.nc) + " " + std::to_string(m.e.size()) + "\n" + el; break;
        case pigo::EDGE_LIST: content = el; break;
        case pigo::PIGO_COO_BIN: { std::string f = tmp_name(); c.save(f); content = get_file(f); break; }
        case pigo::PIGO_CSR_BIN: { std::string f = tmp_name(); R x(c); x.save(f); x.free(); content = get_file(f); break; }
        case pigo::PIGO_DIGRAPH_BIN: { std::string f = tmp_name(); D x(c); x.save(f); x.free(); content = get_file(f); break; }
        case pigo::PIGO_TENSOR_BIN: { std::string f = tmp_name(); TT x(2, (u32)m.e.size()); for (size_t i = 0; i < m.e.size(); ++i) { x.c()[2 * i] = (u32)m.e[i].x; x.c()[2 * i + 1] = (u32)m.e[i].y; if (WG) x.w()[i] = wfrom<float>(m.e[i].w); } x.save(f); x.free(); content = get_file(f); break; }
        case pigo::GRAPH: { u64 n = m.n; Csr rows = to_rows(m); size_t cnt = 0; std::string b; for (auto& row : rows.rows) { for (auto& e : row) { b += std::to_string(e.first) + " "; ++cnt; } b += "\n"; } b.insert(b.find('\n'), "0 "); content = std::to_string(n) + " " + std::to_string(cnt + 1) + "\n" + b; break; }
        default: content = "PIGO-COO-v9 and more data that follows"; break; }
    c.free(); put_file(name, content); std::string neutral = new_file(content, ".dat"); int type = model(name, content);
    char lb[200]; snprintf(lb, sizeof lb, "%s%s name=%s kind=%s", cname, WG ? " weighted" : "", name.substr(st().scratch.size()).c_str(), tn(kind == 7 ? 8 : kind)); label(lb); set_threads(pick_threads(r)); guard::Scope gs; stat("evaluations"); seen("inputs", hash_str(lb) ^ hash_str(content));
    // Is what the type reader sees well formed?
    bool valid = type == kind || type >= 8 || (type == pigo::EDGE_LIST && kind == pigo::MATRIX_MARKET && !WG && !is_ten);
    bool sup = type == 8 || (is_ten ? type == pigo::EDGE_LIST || type == pigo::PIGO_TENSOR_BIN : type == pigo::PIGO_DIGRAPH_BIN ? is_dig : type != pigo::PIGO_TENSOR_BIN); if (WG && type == pigo::GRAPH) sup = false;
    if (!sup) valid = true;
    if (valid) {
        Out a = load<T>(name, pigo::AUTO, (unsigned)r.below(3)); stat(std::string("auto_") + tn(type));
        if (type == 8) H_CHECK(a == "error", "unknown-header", "file with an unknown PIGO header: %s", a.c_str());
        else if (!sup) H_CHECK(a == "not implemented", "unsupported", "%s read as %s: %s", cname, tn(type), a.c_str());
        else { Out x = load<T>(neutral, type, (unsigned)r.range(1, 2)); H_CHECK(a == x, "auto-explicit", "automatic gives [%s], explicit %s gives [%s]", a.c_str(), tn(type), x.c_str()); H_CHECK(a != "error" && a != "not implemented", "refused", "valid %s file refused: %s", tn(type), a.c_str()); stat("compared"); }
    }
    // Every explicit type that the class cannot load is refused, whatever the name and content.
    for (int t = 0; t < 7; ++t) { bool s = is_ten ? t == pigo::EDGE_LIST || t == pigo::PIGO_TENSOR_BIN : t == pigo::PIGO_DIGRAPH_BIN ? is_dig : t != pigo::PIGO_TENSOR_BIN; if (WG && t == pigo::GRAPH) s = false; if (s && t == kind) { Out x = load<T>(name, t, 1); H_CHECK(x != "error" && x != "not implemented", "explicit", "explicit %s on a file of that type: %s", tn(t), x.c_str()); stat("explicit_loads"); } if (!s) { Out x = load<T>(name, t, (unsigned)r.range(1, 2)); H_CHECK(x == "not implemented", "unsupported", "%s with explicit %s: %s", cname, tn(t), x.c_str()); stat("explicit_refused"); } }
}
template<bool WG> void classes(Rng& r) {
    switch (r.below(6)) {
        case 0: cls<pigo::COO<u32, u32, u32*, false, false, false, WG, float, float*>, false, false, WG>(r, "COO"); break;
        case 1: cls<pigo::COO<u32, u32, std::vector<u32>, true, false, false, WG, float, std::vector<float>>, false, false, WG>(r, "symmetric COO"); break;
        case 2: cls<pigo::CSR<u32, u32, u32*, u32*, WG, float, float*>, false, false, WG>(r, "CSR"); break;
        case 3: cls<pigo::BaseGraph<u32, u32, std::vector<u32>, std::vector<u32>, WG, float, std::vector<float>>, false, false, WG>(r, "Graph"); break;
        case 4: cls<pigo::DiGraph<u32, u32, u32*, u32*, WG, float, float*>, false, true, WG>(r, "DiGraph"); break;
        default: cls<pigo::Tensor<u32, u32, u32*, float, float*, WG>, true, false, WG>(r, "Tensor"); break;
    }
}
H_GROUP(loads) { if (rng.chance(1, 2)) classes<false>(rng); else classes<true>(rng); }
