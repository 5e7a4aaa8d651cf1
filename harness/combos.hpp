// The type and storage combinations the shared workload is instantiated for. Each is a
// translation unit of its own (combo.cpp compiled with -DCOMBO=<n>); a program uses those it links.
#pragma once
#include "ops.hpp"
// X(number, label, ordinal, storage 0 pointer 1 vector 2 shared_ptr, weight type, weighted, size class, weight kinds 0 unsigned 1 signed 2 fractions)
#define OPS_COMBOS \
    X(0, u32, u32, 0, float, false, 2, 2) X(1, u32, u32, 0, float, true, 2, 2) X(2, u64, u64, 1, double, true, 2, 2) X(3, u32, u64, 2, float, false, 2, 2) \
    X(4, u64, u32, 1, double, false, 2, 2) X(5, int32_t, int32_t, 2, float, true, 2, 2) X(6, int64_t, u32, 0, double, true, 2, 2) X(7, u16, u32, 1, int32_t, true, 1, 1) \
    X(8, u16, u16, 0, float, false, 1, 2) X(9, int16_t, u64, 2, u16, true, 1, 0) X(10, u8, u8, 0, u8, true, 0, 0) X(11, u8, u32, 2, int8_t, true, 0, 1) \
    X(12, int8_t, int16_t, 1, int64_t, true, 0, 1) X(13, u32, u16, 0, float, true, 1, 2) X(14, u64, u8, 2, float, false, 0, 2) X(15, int64_t, int64_t, 1, u64, true, 2, 0) \
    X(16, int32_t, u64, 0, int16_t, true, 2, 1) X(17, u32, int64_t, 2, double, true, 2, 2) X(18, u8, u64, 1, float, false, 0, 2) X(19, int16_t, int32_t, 0, double, false, 1, 2) \
    X(20, u32, u32, 1, float, true, 2, 2) X(21, u32, u32, 2, float, true, 2, 2) X(22, u16, u8, 1, double, true, 0, 2)
namespace ops {
#define X(n, L, O, K, W, WG, c, wk) Log combo##n(Env&, unsigned) __attribute__((weak));
OPS_COMBOS
#undef X
struct Combo { int id; const char* name; Log (*fn)(Env&, unsigned); bool wg; int cls, wk; };
inline std::vector<Combo> combos() {
    std::vector<Combo> r;
#define X(n, L, O, K, W, WG, c, wk) if (combo##n) { Combo b = {n, #L "," #O "," #K "," #W "," #WG, combo##n, WG, c, wk}; r.push_back(b); }
    OPS_COMBOS
#undef X
    return r;
}
inline u64 class_labels(int c) { return c == 0 ? 60 : c == 1 ? 20000 : 100000; }
inline size_t class_entries(int c) { return c == 0 ? 50 : c == 1 ? 4000 : 10000; }
} // namespace ops
