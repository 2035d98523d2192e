#ifndef STUB_ACL_CONV
#define STUB_ACL_CONV 1
#include "modint.hpp"
#include <algorithm>
#include <array>
namespace atcoder {
namespace internal {
inline int bsf(unsigned int n) { return __builtin_ctz(n); }
constexpr int bsf_constexpr(unsigned int n) { int x = 0; while (!(n & (1 << x))) x++; return x; }
inline int ceil_pow2(int n) { int x = 0; while ((1U << x) < (unsigned int) (n)) x++; return x; }
// Any transform pair with: forward = evaluation at the 2^k roots in some fixed (bit-reversed) order, inverse unscaled.
template <class mint, int g = primitive_root<mint::mod()>, is_static_modint_t<mint>* = nullptr> void butterfly(std::vector<mint>& a) {
    int n = (int) a.size(), h = 0; while ((1 << h) < n) h++; if (n <= 1) return;
    constexpr int cnt2 = bsf_constexpr(mint::mod() - 1); mint root = mint(g).pow((mint::mod() - 1) >> cnt2);
    for (int ph = 1; ph <= h; ph++) { int w = 1 << (ph - 1), p = 1 << (h - ph);
        for (int s = 0; s < w; s++) { // twiddle: bit-reversed exponent of s among w
            unsigned r = 0; for (int b = 0; b < ph - 1; ++b) if (s >> b & 1) r |= 1u << (ph - 2 - b);
            mint now = root.pow((long long) r << (cnt2 - ph)); int offset = s << (h - ph + 1);
            for (int i = 0; i < p; i++) { auto l = a[i + offset], rr = a[i + offset + p] * now; a[i + offset] = l + rr; a[i + offset + p] = l - rr; } } }
}
template <class mint, int g = primitive_root<mint::mod()>, is_static_modint_t<mint>* = nullptr> void butterfly_inv(std::vector<mint>& a) {
    int n = (int) a.size(), h = 0; while ((1 << h) < n) h++; if (n <= 1) return;
    constexpr int cnt2 = bsf_constexpr(mint::mod() - 1); mint root = mint(g).pow((mint::mod() - 1) >> cnt2).inv();
    for (int ph = h; ph >= 1; ph--) { int w = 1 << (ph - 1), p = 1 << (h - ph);
        for (int s = 0; s < w; s++) { unsigned r = 0; for (int b = 0; b < ph - 1; ++b) if (s >> b & 1) r |= 1u << (ph - 2 - b);
            mint inow = root.pow((long long) r << (cnt2 - ph)); int offset = s << (h - ph + 1);
            for (int i = 0; i < p; i++) { auto l = a[i + offset], rr = a[i + offset + p]; a[i + offset] = l + rr; a[i + offset + p] = (l - rr) * inow; } } }
}
template <class mint> std::vector<mint> convolution_naive(const std::vector<mint>& a, const std::vector<mint>& b) { int n = (int) a.size(), m = (int) b.size(); std::vector<mint> r(n + m - 1); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i + j] += a[i] * b[j]; return r; }
}
template <class mint, internal::is_static_modint_t<mint>* = nullptr> std::vector<mint> convolution(std::vector<mint> a, std::vector<mint> b) {
    int n = (int) a.size(), m = (int) b.size(); if (!n || !m) return {}; if (std::min(n, m) <= 60) return internal::convolution_naive(a, b);
    int z = 1 << internal::ceil_pow2(n + m - 1); assert((mint::mod() - 1) % z == 0); a.resize(z); b.resize(z); internal::butterfly(a); internal::butterfly(b); for (int i = 0; i < z; i++) a[i] *= b[i]; internal::butterfly_inv(a); a.resize(n + m - 1);
    mint iz = mint(z).inv(); for (auto& x : a) x *= iz; return a;
}
template <unsigned int mod = 998244353, class T, std::enable_if_t<std::is_integral<T>::value>* = nullptr> std::vector<T> convolution(const std::vector<T>& a, const std::vector<T>& b) {
    using mint = static_modint<mod>; std::vector<mint> x(a.begin(), a.end()), y(b.begin(), b.end()); auto z = convolution(x, y); std::vector<T> r(z.size()); for (size_t i = 0; i < z.size(); ++i) r[i] = (T) z[i].val(); return r;
}
inline std::vector<long long> convolution_ll(const std::vector<long long>& a, const std::vector<long long>& b) { int n = (int) a.size(), m = (int) b.size(); if (!n || !m) return {}; std::vector<long long> r(n + m - 1); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i + j] += (long long) ((unsigned long long) a[i] * (unsigned long long) b[j]); return r; }
}
#endif
