// Oracles for numbers in text.
#pragma once
#include "h.hpp"
#include <cmath>
namespace h {
inline __float128 p10q(int n) { __float128 r = 1, b = 10; bool neg = n < 0; unsigned k = (unsigned)(neg ? -n : n); while (k) { if (k & 1) r *= b; b *= b; k >>= 1; } return neg ? 1 / r : r; }
// Is s a rendering of v with six decimals, correct to within the last of 17 significant digits?
inline bool fp_text_ok(const char* s, size_t n, double v, std::string* why) {
    size_t i = 0; bool neg = false; if (n && s[0] == '-') { neg = true; i = 1; }
    size_t i0 = i; while (i < n && s[i] >= '0' && s[i] <= '9') ++i;
    if (i == i0 || i >= n || s[i] != '.') { *why = "no integer part or point"; return false; }
    if (i - i0 > 1 && s[i0] == '0') { *why = "leading zero"; return false; }
    size_t f0 = i + 1, j = f0; while (j < n && s[j] >= '0' && s[j] <= '9') ++j;
    if (j != n || j - f0 != 6) { *why = "not six decimals"; return false; }
    // |N - v*1e6| in exact enough arithmetic: the digits are compared in two parts
    __float128 N = 0; int sig = 0; for (size_t k = i0; k < n; ++k) if (s[k] != '.') { N = N * 10 + (s[k] - '0'); if (sig || s[k] != '0') ++sig; }
    if (neg) N = -N;
    if (neg && !std::signbit(v)) { *why = "sign"; return false; }
    if (!neg && v < 0 && N != 0) { *why = "sign"; return false; }
    __float128 d = N - (__float128)v * 1000000; if (d < 0) d = -d;
    __float128 tol = (__float128)0.5 + p10q(sig - 17) + (v < 0 ? -(__float128)v : (__float128)v) * (__float128)1e-26;
    if (d > tol) { char b[96]; snprintf(b, sizeof b, "off by %.6g units of the sixth decimal (allowed %.6g)", (double)d, (double)tol); *why = b; return false; }
    return true;
}
} // namespace h
