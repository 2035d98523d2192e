// Stand-in for the AtCoder Library (the ac-library directory of the repository is empty in this checkout).
#ifndef STUB_ACL_MODINT
#define STUB_ACL_MODINT 1
#include <cassert>
#include <numeric>
#include <type_traits>
#include <utility>
#include <vector>
#include <cstdint>
namespace atcoder {
namespace internal {
constexpr long long safe_mod(long long x, long long m) { x %= m; if (x < 0) x += m; return x; }
constexpr long long pow_mod_constexpr(long long x, long long n, int m) {
    if (m == 1) return 0; unsigned int _m = (unsigned int) m; unsigned long long r = 1, y = (unsigned long long) safe_mod(x, m);
    while (n) { if (n & 1) r = (r * y) % _m; y = (y * y) % _m; n >>= 1; } return (long long) r;
}
constexpr bool is_prime_constexpr(int n) {
    if (n <= 1) return false; if (n == 2 || n == 7 || n == 61) return true; if (n % 2 == 0) return false;
    long long d = n - 1; while (d % 2 == 0) d /= 2;
    constexpr long long bases[3] = { 2, 7, 61 };
    for (long long a : bases) { long long t = d, y = pow_mod_constexpr(a, t, n); while (t != n - 1 && y != 1 && y != n - 1) { y = y * y % n; t <<= 1; } if (y != n - 1 && t % 2 == 0) return false; }
    return true;
}
template <int n> constexpr bool is_prime = is_prime_constexpr(n);
constexpr std::pair<long long, long long> inv_gcd(long long a, long long b) {
    a = safe_mod(a, b); if (a == 0) return { b, 0 };
    long long s = b, t = a, m0 = 0, m1 = 1;
    while (t) { long long u = s / t; s -= t * u; m0 -= m1 * u; auto tmp = s; s = t; t = tmp; tmp = m0; m0 = m1; m1 = tmp; }
    if (m0 < 0) m0 += b / s; return { s, m0 };
}
constexpr int primitive_root_constexpr(int m) {
    if (m == 2) return 1; if (m == 167772161) return 3; if (m == 469762049) return 3; if (m == 754974721) return 11; if (m == 998244353) return 3;
    int divs[20] = {}; divs[0] = 2; int cnt = 1; int x = (m - 1) / 2; while (x % 2 == 0) x /= 2;
    for (int i = 3; (long long) i * i <= x; i += 2) if (x % i == 0) { divs[cnt++] = i; while (x % i == 0) x /= i; }
    if (x > 1) divs[cnt++] = x;
    for (int g = 2;; g++) { bool ok = true; for (int i = 0; i < cnt; i++) if (pow_mod_constexpr(g, (m - 1) / divs[i], m) == 1) { ok = false; break; } if (ok) return g; }
}
template <int m> constexpr int primitive_root = primitive_root_constexpr(m);
struct modint_base {}; struct static_modint_base : modint_base {};
template <class T> using is_modint = std::is_base_of<modint_base, T>;
template <class T> using is_modint_t = std::enable_if_t<is_modint<T>::value>;
template <class T> using is_static_modint = std::is_base_of<static_modint_base, T>;
template <class T> using is_static_modint_t = std::enable_if_t<is_static_modint<T>::value>;
template <class T> using is_signed_int_t = std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value>;
template <class T> using is_unsigned_int_t = std::enable_if_t<std::is_integral<T>::value && std::is_unsigned<T>::value>;
}
#define STUB_MINT_COMMON(mint) \
    unsigned int val() const { return _v; } \
    mint& operator++() { _v++; if (_v == umod()) _v = 0; return *this; } \
    mint& operator--() { if (_v == 0) _v = umod(); _v--; return *this; } \
    mint operator++(int) { mint r = *this; ++*this; return r; } \
    mint operator--(int) { mint r = *this; --*this; return r; } \
    mint& operator+=(const mint& r) { _v += r._v; if (_v >= umod()) _v -= umod(); return *this; } \
    mint& operator-=(const mint& r) { _v += umod() - r._v; if (_v >= umod()) _v -= umod(); return *this; } \
    mint& operator*=(const mint& r) { unsigned long long z = _v; z *= r._v; _v = (unsigned int) (z % umod()); return *this; } \
    mint& operator/=(const mint& r) { return *this = *this * r.inv(); } \
    mint operator+() const { return *this; } \
    mint operator-() const { return mint() - *this; } \
    mint pow(long long n) const { assert(0 <= n); mint x = *this, r = 1; while (n) { if (n & 1) r *= x; x *= x; n >>= 1; } return r; } \
    friend mint operator+(const mint& l, const mint& r) { return mint(l) += r; } \
    friend mint operator-(const mint& l, const mint& r) { return mint(l) -= r; } \
    friend mint operator*(const mint& l, const mint& r) { return mint(l) *= r; } \
    friend mint operator/(const mint& l, const mint& r) { return mint(l) /= r; } \
    friend bool operator==(const mint& l, const mint& r) { return l._v == r._v; } \
    friend bool operator!=(const mint& l, const mint& r) { return l._v != r._v; }
template <int m, std::enable_if_t<(1 <= m)>* = nullptr>
struct static_modint : internal::static_modint_base {
    using mint = static_modint;
    static constexpr int mod() { return m; }
    static mint raw(int v) { mint x; x._v = (unsigned int) v; return x; }
    constexpr static_modint() : _v(0) {}
    template <class T, internal::is_signed_int_t<T>* = nullptr> constexpr static_modint(T v) : _v(0) { long long x = (long long) (v % (long long) umod()); if (x < 0) x += umod(); _v = (unsigned int) x; }
    template <class T, internal::is_unsigned_int_t<T>* = nullptr> constexpr static_modint(T v) : _v((unsigned int) (v % umod())) {}
    STUB_MINT_COMMON(mint)
    mint inv() const { if (prime) { assert(_v); return pow(umod() - 2); } else { auto eg = internal::inv_gcd(_v, m); assert(eg.first == 1); return eg.second; } }
private:
    unsigned int _v; static constexpr unsigned int umod() { return m; } static constexpr bool prime = internal::is_prime<m>;
};
template <int id> struct dynamic_modint : internal::modint_base {
    using mint = dynamic_modint;
    static int mod() { return (int) umod(); }
    static void set_mod(int m) { assert(1 <= m); bt() = (unsigned int) m; }
    static mint raw(int v) { mint x; x._v = (unsigned int) v; return x; }
    dynamic_modint() : _v(0) {}
    template <class T, internal::is_signed_int_t<T>* = nullptr> dynamic_modint(T v) { long long x = (long long) (v % (long long) mod()); if (x < 0) x += mod(); _v = (unsigned int) x; }
    template <class T, internal::is_unsigned_int_t<T>* = nullptr> dynamic_modint(T v) { _v = (unsigned int) (v % (unsigned int) mod()); }
    STUB_MINT_COMMON(mint)
    mint inv() const { auto eg = internal::inv_gcd(_v, mod()); assert(eg.first == 1); return eg.second; }
private:
    unsigned int _v; static unsigned int& bt() { static unsigned int b = 998244353; return b; } static unsigned int umod() { return bt(); }
};
using modint998244353 = static_modint<998244353>; using modint1000000007 = static_modint<1000000007>; using modint = dynamic_modint<-1>;
namespace internal {
template <class T> struct is_dynamic_modint : std::false_type {}; template <int id> struct is_dynamic_modint<dynamic_modint<id>> : std::true_type {};
template <class T> using is_dynamic_modint_t = std::enable_if_t<is_dynamic_modint<T>::value>;
}
}
#endif
