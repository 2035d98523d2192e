#ifndef STUB_ACL_STR
#define STUB_ACL_STR 1
#include <algorithm>
#include <numeric>
#include <string>
#include <vector>
namespace atcoder {
template <class V> std::vector<int> stub_sa(const V& s) { int n = (int) s.size(); std::vector<int> sa(n); std::iota(sa.begin(), sa.end(), 0); std::sort(sa.begin(), sa.end(), [&](int a, int b) { while (a < n && b < n) { if (s[a] != s[b]) return s[a] < s[b]; ++a; ++b; } return a > b && a == n && b < n; }); return sa; }
template <class T> std::vector<int> suffix_array(const std::vector<T>& s) { return stub_sa(s); }
template <class T> std::vector<int> suffix_array(const std::vector<T>& s, int) { return stub_sa(s); }
inline std::vector<int> suffix_array(const std::string& s) { return stub_sa(s); }
template <class V> std::vector<int> stub_lcp(const V& s, const std::vector<int>& sa) { int n = (int) s.size(); std::vector<int> l(n > 0 ? n - 1 : 0); for (int i = 0; i + 1 < n; ++i) { int a = sa[i], b = sa[i + 1], k = 0; while (a + k < n && b + k < n && s[a + k] == s[b + k]) ++k; l[i] = k; } return l; }
template <class T> std::vector<int> lcp_array(const std::vector<T>& s, const std::vector<int>& sa) { return stub_lcp(s, sa); }
inline std::vector<int> lcp_array(const std::string& s, const std::vector<int>& sa) { return stub_lcp(s, sa); }
template <class V> std::vector<int> stub_z(const V& s) { int n = (int) s.size(); std::vector<int> z(n); for (int i = 0; i < n; ++i) { int k = 0; while (i + k < n && s[k] == s[i + k]) ++k; z[i] = k; } return z; }
template <class T> std::vector<int> z_algorithm(const std::vector<T>& s) { return stub_z(s); }
inline std::vector<int> z_algorithm(const std::string& s) { return stub_z(s); }
}
#endif
