#ifndef STUB_ACL_SCC
#define STUB_ACL_SCC 1
#include <algorithm>
#include <cassert>
#include <vector>
namespace atcoder {
struct scc_graph {
    scc_graph() : n(0) {} explicit scc_graph(int n_) : n(n_), g(n_), rg(n_) {}
    void add_edge(int a, int b) { assert(0 <= a && a < n && 0 <= b && b < n); g[a].push_back(b); rg[b].push_back(a); }
    std::vector<int> ids(int& k) { std::vector<int> ord, id(n, -1); std::vector<char> v(n); for (int s = 0; s < n; ++s) if (!v[s]) d1(s, v, ord); k = 0; for (int i = n - 1; i >= 0; --i) if (id[ord[i]] < 0) d2(ord[i], id, k++); return id; }
    std::vector<std::vector<int>> scc() { int k; auto id = ids(k); std::vector<std::vector<int>> r(k); for (int i = 0; i < n; ++i) r[id[i]].push_back(i); return r; }
private: int n; std::vector<std::vector<int>> g, rg;
    void d1(int u, std::vector<char>& v, std::vector<int>& o) { v[u] = 1; for (int w : g[u]) if (!v[w]) d1(w, v, o); o.push_back(u); }
    void d2(int u, std::vector<int>& id, int k) { id[u] = k; for (int w : rg[u]) if (id[w] < 0) d2(w, id, k); }
};
}
#endif
