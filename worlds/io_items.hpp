// Typed values with an independent text form, shared by the input (C14) and output (C15) worlds.
#pragma once
#include <cassert>
#include "library/geom/geometry.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/number/modint.hpp"
#include "library/math/bigint.hpp"
#include "library/integral_geom/point.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/number/rational.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128; using i128 = __int128;
using mint = suisen::modint998244353; using dmint = suisen::dynamic_modint<7>; using IP = suisen::integral_geometry::Point; using GP = suisen::geometry::Point; using N64 = suisen::nimber64_t; using Aff = suisen::Affine<i64>; using AffC = suisen::AffineClamp<i64>; using Rat = suisen::Rational<i64>; using SB = suisen::static_bitset<70>;
struct big { static std::string digits(sim::Rng& r, int maxlen) { int n = 1 + (int) r.below((u64) maxlen); std::string s; for (int i = 0; i < n; ++i) s += char('0' + (r.chance(1, 4) ? 0 : r.below(10))); while (s.size() > 1 && s[0] == '0') s.erase(s.begin()); return s; } };
// V<T>: a value together with its text; want(x): does x hold that value
template <typename T> struct Gen;
inline u64 rbits(sim::Rng& r) { u64 x = r.next(); return r.chance(1, 8) ? 0 : r.chance(1, 8) ? ~0ull : x >> r.below(64); }
inline std::string s128(u128 v) { if (!v) return "0"; std::string s; while (v) s += char('0' + (int) (v % 10)), v /= 10; std::reverse(s.begin(), s.end()); return s; }
// SEP: separators between the parts of a composite (input: any whitespace; output: exactly one blank)
struct Sep { sim::Rng* r; bool canon; std::string operator()() const { if (canon) return " "; std::string s; static const char* w = " \n\t\r "; do s += w[r->below(5)]; while (r->chance(1, 4)); return s; } };
template <typename T> struct Item { std::string text; std::function<bool(const T&)> is; T shape; T val; };
template <typename I> Item<I> int_item(sim::Rng& r) { I v; if (r.chance(1, 6)) v = std::numeric_limits<I>::min(); else if (r.chance(1, 6)) v = std::numeric_limits<I>::max(); else v = (I) rbits(r); return { std::to_string(v), [v](const I& x) { return x == v; }, I(0), v }; }
template <> struct Gen<int> { static Item<int> make(sim::Rng& r, const Sep&) { return int_item<int>(r); } };
template <> struct Gen<i64> { static Item<i64> make(sim::Rng& r, const Sep&) { return int_item<i64>(r); } };
template <> struct Gen<u64> { static Item<u64> make(sim::Rng& r, const Sep&) { return int_item<u64>(r); } };
template <> struct Gen<bool> { static Item<bool> make(sim::Rng& r, const Sep&) { bool v = r.chance(1, 2); return { v ? "1" : "0", [v](const bool& x) { return x == v; }, false, v }; } };
template <> struct Gen<char> { static Item<char> make(sim::Rng& r, const Sep&) { char v = (char) ('!' + r.below(90)); return { std::string(1, v), [v](const char& x) { return x == v; }, 0, v }; } };
template <> struct Gen<std::string> { static Item<std::string> make(sim::Rng& r, const Sep&) { std::string v; size_t n = 1 + r.below(r.chance(1, 6) ? 100 : 8); while (v.size() < n) v += (char) ('!' + r.below(90)); return { v, [v](const std::string& x) { return x == v; }, "", v }; } };
template <> struct Gen<u128> { static Item<u128> make(sim::Rng& r, const Sep&) { u128 v = (u128) rbits(r) << 64 | r.next(); if (r.chance(1, 3)) v = rbits(r); if (r.chance(1, 8)) v = ~(u128) 0; return { s128(v), [v](const u128& x) { return x == v; }, 0, v }; } };
template <> struct Gen<i128> { static Item<i128> make(sim::Rng& r, const Sep&) { u128 a = ((u128) rbits(r) << 64 | r.next()) >> 1; if (r.chance(1, 3)) a = rbits(r); if (r.chance(1, 8)) a = ~(u128) 0 >> 1; bool neg = r.chance(1, 2); if (r.chance(1, 8)) a = (u128) 1 << 127, neg = true; i128 v = neg ? (i128) (0 - a) : (i128) a; return { (neg && a ? "-" : "") + s128(a), [v](const i128& x) { return x == v; }, 0, v }; } };
template <> struct Gen<double> { static Item<double> make(sim::Rng& r, const Sep&) { double v = (double) (i64) rbits(r) / (double) (1 + r.below(1000)); char b[64]; snprintf(b, sizeof b, "%g", v); v = strtod(b, nullptr); return { b, [v](const double& x) { return x == v; }, 0., v }; } };
template <typename M> Item<M> mod_item(sim::Rng& r, const Sep& s, i64 p) { i64 v = s.canon ? (i64) r.below((u64) p) : r.chance(1, 4) ? (i64) rbits(r) : (i64) r.below((u64) p * 2) - p / 2; i64 w = ((v % p) + p) % p; return { std::to_string(v), [w](const M& x) { return (i64) x.val() == w; }, M(0), M(v) }; }
template <> struct Gen<mint> { static Item<mint> make(sim::Rng& r, const Sep& s) { return mod_item<mint>(r, s, 998244353); } };
template <> struct Gen<dmint> { static Item<dmint> make(sim::Rng& r, const Sep& s) { return mod_item<dmint>(r, s, (i64) dmint::mod()); } };
template <> struct Gen<suisen::unsigned_bigint> { using B = suisen::unsigned_bigint; static Item<B> make(sim::Rng& r, const Sep& s) { std::string c = big::digits(r, r.chance(1, 5) ? 400 : 25), t = c; B v(c); if (!s.canon && r.chance(1, 4)) t = std::string(r.below(20), '0') + t; return { t, [v, c](const B& x) { return std::string(x) == c && (c == "0" ? !bool(x) && x == B(0) : bool(x)) && x == v && !(x < v) && !(v < x) && std::string(x + B(1)) == std::string(v + B(1)); }, B(), v }; } };
template <> struct Gen<suisen::bigint> { using B = suisen::bigint; static Item<B> make(sim::Rng& r, const Sep& s) { std::string c = big::digits(r, r.chance(1, 5) ? 400 : 25), t = c; bool neg = c != "0" && r.chance(1, 2); if (!s.canon && r.chance(1, 4)) t = std::string(r.below(20), '0') + t; if (neg || (!s.canon && c == "0" && r.chance(1, 3))) t = "-" + t; if (neg) c = "-" + c; B v(c); return { t, [v, c](const B& x) { return std::string(x) == c && x == v && !(x < v) && !(v < x) && bool(x) == (c != "0") && std::string(x + v) == std::string(v + v); }, B(), v }; } };
template <> struct Gen<IP> { static Item<IP> make(sim::Rng& r, const Sep& s) { i64 a = (i64) rbits(r), b = (i64) rbits(r); return { std::to_string(a) + s() + std::to_string(b), [a, b](const IP& p) { return p.x == a && p.y == b; }, IP(), IP(a, b) }; } };
template <> struct Gen<GP> { static Item<GP> make(sim::Rng& r, const Sep& s) { auto a = Gen<double>::make(r, s), b = Gen<double>::make(r, s); long double x = strtold(a.text.c_str(), nullptr), y = strtold(b.text.c_str(), nullptr); return { a.text + s() + b.text, [x, y](const GP& p) { return suisen::geometry::getx(p) == x && suisen::geometry::gety(p) == y; }, GP(0, 0), GP(x, y) }; } };
template <> struct Gen<N64> { static Item<N64> make(sim::Rng& r, const Sep&) { u64 v = rbits(r); return { std::to_string(v), [v](const N64& x) { N64 y = x; return (uint64_t) y == v; }, N64(0), N64(v) }; } };
template <> struct Gen<Aff> { static Item<Aff> make(sim::Rng& r, const Sep& s) { i64 a = (i64) rbits(r), b = (i64) rbits(r); return { std::to_string(a) + s() + std::to_string(b), [a, b](const Aff& f) { return f.a == a && f.b == b; }, Aff(), Aff(a, b) }; } };
template <> struct Gen<AffC> { static Item<AffC> make(sim::Rng& r, const Sep& s) { i64 a = (i64) rbits(r), b = (i64) rbits(r), l = (i64) rbits(r), u = (i64) rbits(r); return { std::to_string(a) + s() + std::to_string(b) + s() + std::to_string(l) + s() + std::to_string(u), [=](const AffC& f) { return f.a == a && f.b == b && f.l == l && f.r == u; }, AffC(), AffC(a, b, l, u) }; } };
template <typename A, typename B> struct Gen<std::pair<A, B>> { static Item<std::pair<A, B>> make(sim::Rng& r, const Sep& s) { auto a = Gen<A>::make(r, s); auto b = Gen<B>::make(r, s); return { a.text + s() + b.text, [a, b](const std::pair<A, B>& p) { return a.is(p.first) && b.is(p.second); }, { a.shape, b.shape }, { a.val, b.val } }; } };
template <typename A, typename B, typename C> struct Gen<std::tuple<A, B, C>> { static Item<std::tuple<A, B, C>> make(sim::Rng& r, const Sep& s) { auto a = Gen<A>::make(r, s); auto b = Gen<B>::make(r, s); auto d = Gen<C>::make(r, s); return { a.text + s() + b.text + s() + d.text, [a, b, d](const std::tuple<A, B, C>& p) { return a.is(std::get<0>(p)) && b.is(std::get<1>(p)) && d.is(std::get<2>(p)); }, { a.shape, b.shape, d.shape }, { a.val, b.val, d.val } }; } };
template <typename C> Item<C> seq_item(sim::Rng& r, const Sep& s, size_t n, C c0) { using T = typename C::value_type; auto is = std::make_shared<std::vector<std::function<bool(const T&)>>>(); std::string t; C sh = c0, v = c0; auto i1 = sh.begin(); auto i2 = v.begin(); for (size_t i = 0; i < n; ++i, ++i1, ++i2) { auto e = Gen<T>::make(r, s); if (i) t += s(); t += e.text; is->push_back(e.is); *i1 = e.shape; *i2 = e.val; } return { t, [is](const C& x) { size_t i = 0; for (auto& e : x) if (i >= is->size() || !(*is)[i++](e)) return false; return i == is->size(); }, sh, v }; }
template <typename T> struct Gen<std::vector<T>> { static Item<std::vector<T>> make(sim::Rng& r, const Sep& s) { size_t n = 1 + r.below(5); return seq_item(r, s, n, std::vector<T>(n)); } };
template <typename T> struct Gen<std::list<T>> { static Item<std::list<T>> make(sim::Rng& r, const Sep& s) { size_t n = 1 + r.below(5); return seq_item(r, s, n, std::list<T>(n)); } };
template <typename T> struct Gen<std::deque<T>> { static Item<std::deque<T>> make(sim::Rng& r, const Sep& s) { size_t n = 1 + r.below(5); return seq_item(r, s, n, std::deque<T>(n)); } };
template <typename T, size_t N> struct Gen<std::array<T, N>> { static Item<std::array<T, N>> make(sim::Rng& r, const Sep& s) { return seq_item(r, s, N, std::array<T, N>{}); } };
template <> struct Gen<Rat> { static Item<Rat> make(sim::Rng& r, const Sep&) { i64 n = (i64) (int) rbits(r), d = 1 + (i64) r.below(1000); i64 g = std::gcd(n, d); return { std::to_string(n / g) + "/" + std::to_string(d / g), [](const Rat&) { return true; }, Rat(0), Rat(n, d) }; } };
template <> struct Gen<SB> { static Item<SB> make(sim::Rng& r, const Sep&) { SB b; std::string t(70, '0'); for (int i = 0; i < 70; ++i) if (r.chance(1, 2)) b.flip((size_t) i), t[(size_t) (69 - i)] = '1'; return { t, [](const SB&) { return true; }, SB(), b }; } };
#define IO_TYPES(X) X(int) X(i64) X(u64) X(char) X(std::string) X(u128) X(i128) X(double) X(bool) X(mint) X(dmint) X(suisen::unsigned_bigint) X(suisen::bigint) X(IP) X(GP) X(N64) X(Aff) X(AffC) \
    X(PIS) X(TUP) X(VI) X(VVB) X(LM) X(DI) X(AP) X(VU) X(PVB)
using PIS = std::pair<int, std::string>; using TUP = std::tuple<i64, u128, mint>; using VI = std::vector<int>; using VVB = std::vector<std::vector<suisen::bigint>>; using LM = std::list<mint>; using DI = std::deque<i128>; using AP = std::array<std::pair<int, i64>, 2>; using VU = std::vector<suisen::unsigned_bigint>; using PVB = std::pair<std::vector<IP>, Aff>;
