// C20: file handles read and write exact bytes; checked against a byte model after every operation.
#include "h.hpp"
#include "guard.hpp"
#include "big.hpp"
#include <climits>
using namespace h;

struct Odd { char b[13]; };
struct Disk { std::string name, bytes, known; };               // known[i]: the byte has been written by us or was there
struct Hd { std::unique_ptr<pigo::File> f; bool wr = false; size_t pos = 0; int disk = -1; const char* base = nullptr; };
static std::vector<Disk> disks; static std::string logs; static u64 hh;
static void note(const char* n, u64 a, u64 b = 0) { hh = mix(hh ^ hash_bytes(n, strlen(n)) ^ mix(a * 77 + b)); stat(std::string("op_") + n); if (logs.size() > 330) logs.erase(0, 120); logs += std::string(" ") + n + ":" + std::to_string(a) + (b ? "," + std::to_string(b) : ""); label(logs); }

template<class F> bool throws(F f) { try { f(); } catch (pigo::Error&) { return true; } return false; }
static std::string rnd(Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }

static void state(Hd& h, const char* after) {
    Disk& d = disks[h.disk];
    H_CHECK(h.f->size() == d.bytes.size(), "size", "after %s: size %zu expected %zu", after, h.f->size(), d.bytes.size());
    H_CHECK((size_t)(h.f->fp() - h.base) == h.pos, "position", "after %s: position %td expected %zu", after, h.f->fp() - h.base, h.pos);
    pigo::FileReader r = h.f->reader(); H_CHECK(r.d == h.f->fp() && r.size() == d.bytes.size() - h.pos, "reader", "after %s: reader covers %zu bytes expected %zu", after, r.size(), d.bytes.size() - h.pos);
}
static void bytes_at(Hd& h, size_t from, const char* got, size_t n, const char* what) {
    Disk& d = disks[h.disk]; for (size_t i = 0; i < n; ++i) if (d.known[from + i]) H_CHECK(got[i] == d.bytes[from + i], "bytes", "%s: byte %zu of the file (%zu of %zu) is %02x expected %02x", what, from + i, i, n, (unsigned char)got[i], (unsigned char)d.bytes[from + i]);
}
template<class T> void wr(Rng& r, Hd& h) {
    Disk& d = disks[h.disk]; std::string v = rnd(r, sizeof(T)); T t; memcpy(&t, v.data(), sizeof t); note("write", sizeof t, h.pos);
    if (sizeof(T) > d.bytes.size() - h.pos) { H_CHECK(throws([&] { h.f->write(t); }), "write-beyond", "writing %zu bytes with %zu left was accepted", sizeof(T), d.bytes.size() - h.pos); stat("refused"); }
    else { h.f->write(t); d.bytes.replace(h.pos, sizeof t, v); d.known.replace(h.pos, sizeof t, sizeof t, 1); h.pos += sizeof t; }
}
template<class T> void rd(Rng&, Hd& h) {
    Disk& d = disks[h.disk]; note("read", sizeof(T), h.pos);
    if (sizeof(T) > d.bytes.size() - h.pos) { H_CHECK(throws([&] { h.f->read<T>(); }), "read-beyond", "reading %zu bytes with %zu left was accepted", sizeof(T), d.bytes.size() - h.pos); stat("refused"); }
    else { T t = h.f->read<T>(); bytes_at(h, h.pos, (char*)&t, sizeof t, "read"); h.pos += sizeof t; }
}
static void step(Rng& r, Hd& h) {
    Disk& d = disks[h.disk]; size_t left = d.bytes.size() - h.pos;
    auto blk = [&]() -> size_t { switch (r.below(7)) { case 0: return 0; case 1: return r.below(8); case 2: return left; case 3: return left + 1 + r.below(5); case 4: return r.chance(1, 2) ? SIZE_MAX - r.below(3) : left + 4096; default: return r.below(left + 1); } };
    switch (r.below(h.wr ? 12 : 9)) {
        case 0: case 1: switch (r.below(8)) { case 0: rd<u8>(r, h); break; case 1: rd<u16>(r, h); break; case 2: rd<u32>(r, h); break; case 3: rd<u64>(r, h); break; case 4: rd<float>(r, h); break; case 5: rd<double>(r, h); break; case 6: rd<Odd>(r, h); break; default: rd<char>(r, h); } break;
        case 2: { // read past an expected string
            size_t n = r.chance(1, 6) ? left + r.below(3) : r.below(std::min<size_t>(left, 40) + 1); bool match = n <= left && r.chance(2, 3); std::string s = n <= left ? d.bytes.substr(h.pos, n) : std::string(n, 'x'); note("read_string", n, h.pos);
            for (size_t i = 0; match && i < n; ++i) if (!d.known[h.pos + i]) match = false; bool judge = match || n > left; if (!match && n && n <= left) { size_t k = r.below(n); s[k] = (char)(s[k] ^ (1 + r.below(255))); judge = d.known[h.pos + k]; }
            if (!n) { match = true; judge = true; }
            bool t = throws([&] { h.f->read(s); }); if (judge) H_CHECK(t == !match, "read-string", "reading past %s string of %zu bytes (%zu left) %s", match ? "the matching" : "a different", n, left, t ? "raised an error" : "was accepted"); if (!t) h.pos += n; break; }
        case 3: { size_t p = d.bytes.empty() ? 0 : r.below(d.bytes.size()); note("seek", p); h.f->seek(p); h.pos = p; break; }
        case 4: { size_t p = r.pick({d.bytes.size(), d.bytes.size() + 1, (size_t)SIZE_MAX, d.bytes.size() + (size_t)r.below(1 << 20), (size_t)-1 - d.bytes.size()}); note("seek_outside", p); H_CHECK(throws([&] { h.f->seek(p); }), "seek-outside", "seeking to %zu in a file of %zu bytes was accepted", p, d.bytes.size()); stat("refused"); break; }
        case 5: case 6: { size_t n = blk(); note("parallel_read", n, h.pos); size_t cap = n <= left ? n : std::min<size_t>(n, left + 8192); std::string b(cap, (char)0x5a); set_threads(pick_threads(r));
            char* buf = (char*)malloc(cap ? cap : 1); memset(buf, 0x5a, cap); std::unique_ptr<char, void (*)(void*)> own(buf, ::free);
            if (n > left) { H_CHECK(throws([&] { h.f->parallel_read(buf, n); }), "read-beyond", "reading a block of %zu bytes with %zu left was accepted", n, left); H_CHECK(!memcmp(buf, b.data(), cap), "transferred", "a refused read transferred bytes"); stat("refused"); }
            else { h.f->parallel_read(buf, n); bytes_at(h, h.pos, buf, n, "parallel read"); h.pos += n; stat("block_bytes", n); } break; }
        case 7: { if (left) { pigo::FileReader rr = h.f->reader(); size_t n = std::min<size_t>(left, 64); note("reader", n); bytes_at(h, h.pos, rr.d, n, "reader"); pigo::FilePos fp = h.f->fp(); if (left >= 4) { u32 v = pigo::read<u32>(fp); bytes_at(h, h.pos, (char*)&v, 4, "position read"); H_CHECK(fp == h.f->fp() + 4, "position", "reading from a position moved it by %td", fp - h.f->fp()); } } break; }
        case 8: { stat("sizes"); break; }
        case 9: switch (r.below(8)) { case 0: wr<u8>(r, h); break; case 1: wr<u16>(r, h); break; case 2: wr<u32>(r, h); break; case 3: wr<u64>(r, h); break; case 4: wr<float>(r, h); break; case 5: wr<double>(r, h); break; case 6: wr<Odd>(r, h); break; default: wr<char>(r, h); } break;
        case 10: { size_t n = r.chance(1, 6) ? left + 1 + r.below(3) : r.below(std::min<size_t>(left, 60) + 1); std::string s = rnd(r, n); note("write_string", n, h.pos);
            if (n > left) { H_CHECK(throws([&] { h.f->write(s); }), "write-beyond", "writing a string of %zu bytes with %zu left was accepted", n, left); stat("refused"); } else { h.f->write(s); d.bytes.replace(h.pos, n, s); d.known.replace(h.pos, n, n, 1); h.pos += n; } break; }
        default: { size_t n = blk(); note("parallel_write", n, h.pos); std::string b = rnd(r, std::min<size_t>(n, left + 8192)); set_threads(pick_threads(r));
            if (n > left) { H_CHECK(throws([&] { h.f->parallel_write(&b[0], n); }), "write-beyond", "writing a block of %zu bytes with %zu left was accepted", n, left); stat("refused"); } else { h.f->parallel_write(&b[0], n); d.bytes.replace(h.pos, n, b); d.known.replace(h.pos, n, n, 1); h.pos += n; stat("block_bytes", n); } break; }
    }
    state(h, "operation");
}
static void shut(Hd& h) {
    Disk& d = disks[h.disk]; h.f.reset(); std::string on = get_file(d.name); H_CHECK(on.size() == d.bytes.size(), "file-size", "closed file has %zu bytes expected %zu", on.size(), d.bytes.size());
    for (size_t i = 0; i < on.size(); ++i) if (d.known[i]) H_CHECK(on[i] == d.bytes[i], "file-bytes", "closed file: byte %zu is %02x expected %02x", i, (unsigned char)on[i], (unsigned char)d.bytes[i]); else d.bytes[i] = on[i];
    d.known.assign(on.size(), 1); stat("files_compared"); h = Hd();
}
static void history(Rng& r, size_t maxops, size_t maxsize) {
    disks.clear(); logs.clear(); hh = 1; guard::reset(); guard::Scope gs; const int N = 4; std::vector<Hd> s(N); size_t ops = r.range(5, maxops); u64 maps0 = guard::live_maps();
    auto size = [&]() -> size_t { switch (r.below(6)) { case 0: return r.range(1, 8); case 1: return 4096 * r.range(1, 3); case 2: return r.range(1, maxsize); default: return r.range(1, 600); } };
    for (size_t i = 0; i < ops; ++i) {
        Hd& h = s[r.below(N)]; label(logs);
        if (!h.f) {
            if (r.chance(1, 2)) { // an existing file, opened for reading
                Disk d; d.name = tmp_name(r.pick({"", ".mtx", ".graph"})); d.bytes = rnd(r, size()); d.known.assign(d.bytes.size(), 1); put_file(d.name, d.bytes); disks.push_back(d); h.wr = false; note("open", d.bytes.size());
                h.f.reset(r.chance(1, 2) ? new pigo::ROFile(d.name) : new pigo::File(d.name, pigo::READ));
            } else {
                Disk d; d.name = tmp_name(r.pick({"", ".mtx", ".graph"})); size_t n = size(); if (r.chance(1, 3)) put_file(d.name, rnd(r, size())); d.bytes.assign(n, 0); d.known.assign(n, 0); disks.push_back(d); h.wr = true; note("create", n);
                h.f.reset(r.chance(1, 2) ? new pigo::WFile(d.name, n) : new pigo::File(d.name, pigo::WRITE, n));
            }
            h.disk = (int)disks.size() - 1; h.pos = 0; h.base = h.f->fp(); state(h, "opening");
        } else switch (r.below(14)) {
            case 0: note("close", h.disk); shut(h); break;
            case 1: { note("move_construct", h.disk); std::unique_ptr<pigo::File> n(new pigo::File(std::move(*h.f))); h.f = std::move(n); state(h, "move construction"); break; }
            case 2: { // move onto an open handle, which closes its file
                Hd& o = s[r.below(N)]; if (!o.f || &o == &h) break; note("move_assign", h.disk, o.disk); *o.f = std::move(*h.f); h.f.reset(); // o's old file is complete now
                { Disk& d = disks[o.disk]; std::string on = get_file(d.name); H_CHECK(on.size() == d.bytes.size(), "file-size", "replaced handle's file has %zu bytes expected %zu", on.size(), d.bytes.size()); for (size_t k = 0; k < on.size(); ++k) if (d.known[k]) H_CHECK(on[k] == d.bytes[k], "file-bytes", "replaced handle's file: byte %zu differs", k); stat("files_compared"); }
                o.wr = h.wr; o.pos = h.pos; o.disk = h.disk; o.base = h.base; h = Hd(); state(o, "move assignment"); break; }
            case 3: { note("self_move", h.disk); pigo::File& f = *h.f; pigo::File* volatile p = &f; f = std::move(*p); state(h, "self move"); break; }
            case 4: { // swap through a temporary
                note("move_out_and_back", h.disk); pigo::File t(std::move(*h.f)); if (r.chance(1, 2)) { size_t p = r.below(disks[h.disk].bytes.size()); t.seek(p); h.pos = p; } *h.f = std::move(t); state(h, "moving out and back"); break; }
            case 5: { if (!disks[h.disk].known[0]) break; note("type", h.disk); h.f->seek(0); h.pos = 0; const std::string& b = disks[h.disk].bytes; if (b.compare(0, 4, "PIGO") == 0) break; const std::string& n = disks[h.disk].name; auto want = n.size() > 4 && n.substr(n.size() - 4) == ".mtx" ? pigo::MATRIX_MARKET : n.size() > 6 && n.substr(n.size() - 6) == ".graph" ? pigo::GRAPH : pigo::EDGE_LIST; H_CHECK(h.f->guess_file_type() == want, "name", "the handle does not know its file name any more"); state(h, "type query"); break; }
            default: step(r, h);
        }
        size_t live = 0; for (auto& x : s) live += !!x.f; H_CHECK(guard::live_maps() - maps0 == live, "mappings", "%zu mappings for %zu open handles", (size_t)(guard::live_maps() - maps0), live);
        std::string e = guard::take_errors(); H_CHECK(e.empty(), "mappings", "%s", e.c_str()); H_CHECK(guard::open_streams() == 0, "descriptors", "%zu descriptors open", guard::open_streams());
    }
    for (auto& x : s) if (x.f) { label(logs); shut(x); }
    H_CHECK(guard::live_maps() == maps0, "mappings", "mappings left over"); std::string e = guard::take_errors(); H_CHECK(e.empty(), "mappings", "%s", e.c_str());
    stat("evaluations"); stat("mappings", guard::total_maps()); seen("inputs", hh);
}
H_GROUP(history) { history(rng, 60, 20000); }
H_GROUP(blocks) { // large blocks, every byte checked, all team sizes
    static const size_t sz[] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 63, 64, 100, 4095, 4096, 4097, 65536, 100003, 1 << 20, 3000001}; size_t n = sz[rng.below(rng.chance(1, 4) ? 20 : 17)]; int t = rng.chance(1, 2) ? (int)(1 + rng.below(40)) : pick_threads(rng); size_t lead = rng.below(9), tail = rng.below(9);
    char lb[96]; snprintf(lb, sizeof lb, "block n=%zu threads=%d lead=%zu tail=%zu", n, t, lead, tail); label(lb); guard::Scope gs; std::string b = rnd(rng, n), name = tmp_name(); std::string pre = rnd(rng, lead), post = rnd(rng, tail); set_threads(t);
    { pigo::WFile w(name, lead + n + tail); w.write(pre); w.parallel_write(&b[0], n); H_CHECK(w.reader().size() == tail, "position", "%zu bytes left after the block, expected %zu", w.reader().size(), tail); w.write(post); }
    std::string on = get_file(name); H_CHECK(on == pre + b + post, "file-bytes", "written file differs (%zu bytes, expected %zu)", on.size(), lead + n + tail);
    set_threads(pick_threads(rng)); pigo::ROFile f(name); if (lead + n + tail > lead) f.seek(lead); std::vector<char> got(n + 2, 0x33); f.parallel_read(got.data() + 1, n); H_CHECK(!memcmp(got.data() + 1, b.data(), n), "bytes", "block read back differs"); H_CHECK(got[0] == 0x33 && got[n + 1] == 0x33, "bytes", "bytes outside the block were written"); H_CHECK(f.reader().size() == tail, "position", "%zu bytes left after reading, expected %zu", f.reader().size(), tail);
    stat("evaluations"); stat("block_bytes", 2 * n); seen("inputs", mix(n * 64 + t) + lead * 16 + tail);
}
// Sparse file beyond 4 GiB.
H_GROUP(huge) {
    u64 G = 1ull << 30, total = 4 * G + 64 * 1024 * 1024 + rng.below(5000); std::string name = tmp_name(); label("huge " + std::to_string(total)); set_threads(8); std::string b = rnd(rng, 1 << 20); u64 at[] = {0, 2 * G - 300000, 4 * G - 500000, 4 * G + 2 * 1024 * 1024 + 345, total - b.size()}; u64 v0 = rng.next(); const u64 spot = 4 * G + 9 * 1024 * 1024 + 1;
    { pigo::WFile w(name, total); H_CHECK(w.size() == total, "size", "size %zu expected %llu", w.size(), (unsigned long long)total); for (u64 a : at) { w.seek(a); const char* p = w.fp(); w.parallel_write(&b[0], b.size()); H_CHECK(w.fp() == p + b.size(), "position", "block at %llu moved the position by %td", (unsigned long long)a, w.fp() - p); } w.seek(spot); w.write(v0);
      w.seek(total - 4); bool thrown = throws([&] { w.write((u64)1); }); H_CHECK(thrown, "write-beyond", "write beyond 4 GiB file accepted"); thrown = throws([&] { w.seek(total); }); H_CHECK(thrown, "seek-outside", "seek to the end accepted"); }
    struct stat sb; ::stat(name.c_str(), &sb); H_CHECK((u64)sb.st_size == total, "file-size", "file has %lld bytes expected %llu", (long long)sb.st_size, (unsigned long long)total);
    pigo::ROFile f(name); H_CHECK(f.size() == total, "size", "opened size %zu", f.size()); std::string g(b.size(), 0);
    for (u64 a : at) { f.seek(a); f.parallel_read(&g[0], g.size()); H_CHECK(f.reader().size() == total - a - g.size(), "position", "position after reading at %llu", (unsigned long long)a); H_CHECK(g == b, "bytes", "block at %llu differs", (unsigned long long)a); }
    f.seek(spot); H_CHECK(f.read<u64>() == v0, "bytes", "value beyond 4 GiB differs"); f.seek(at[3]); f.read(b.substr(0, 100)); H_CHECK(f.read<char>() == b[100], "bytes", "string read beyond 4 GiB");
    stat("evaluations"); seen("inputs", total);
}
// Nothing can be created without a size; formatted text goes through positions.
H_GROUP(edge) {
    std::string n = tmp_name(); label("edge"); H_CHECK(throws([&] { pigo::WFile w(n, 0); }), "create-empty", "creating a file of no bytes was accepted"); guard::Scope gs;
    size_t k = rng.range(1, 50); std::vector<i64> v; size_t total = 0; for (size_t i = 0; i < k; ++i) { v.push_back((i64)rng.next() >> rng.below(64)); total += pigo::write_size(v.back()) + 1; } std::string want; for (auto x : v) want += std::to_string(x) + ";";
    { pigo::WFile w(n, total); pigo::FilePos p = w.fp(); for (auto x : v) { pigo::write_ascii(p, x); pigo::write(p, ';'); } H_CHECK((size_t)(p - w.fp()) == total, "position", "text advanced by %td expected %zu", p - w.fp(), total); }
    H_CHECK(get_file(n) == want, "file-bytes", "text file differs"); stat("evaluations"); seen("inputs", hash_str(want));
}
// Blocks of more than 4 GiB.
H_GROUP(hugeblock) {
    const size_t n = (5ull << 30) + rng.below(100000); if (!roomy(0, n)) return; int t = (int)rng.pick({1, 6, 8, 16, 16}); label("block of " + std::to_string(n) + " threads=" + std::to_string(t)); Rep src(rng, n, 0, 8);
    for (int k = 0; k < 40; ++k) src.p[rng.below(n)] ^= 1;
    char* d = (char*)mmap(nullptr, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (d == MAP_FAILED) { stat("huge_skipped"); return; } set_threads(t);
    for (int k = 0; k < 2; ++k) {
        memset(d, 0x33, 4096); memset(d + n, 0x33, 4096); char* dst = d + 4000;
        if (k == 0) { pigo::FilePos p = dst; pigo::parallel_write(p, src.p, n); H_CHECK(p == dst + n, "position", "writing %zu bytes moved the position by %td", n, p - dst); }
        else { pigo::FilePos p = src.p; pigo::parallel_read(p, dst, n); H_CHECK(p == src.p + n, "position", "reading %zu bytes moved the position by %td", n, p - src.p); }
        size_t b = differ(dst, src.p, n); H_CHECK(b == n, "bytes", "%s: byte %zu of %zu differs", k ? "read" : "write", b, n); H_CHECK(dst[-1] == 0x33 && dst[n] == 0x33, "bytes", "bytes outside the block were written"); stat("block_bytes", n);
        madvise(d, n + 8192, MADV_DONTNEED);
    }
    munmap(d, n + 8192); stat("evaluations"); seen("inputs", n);
}
