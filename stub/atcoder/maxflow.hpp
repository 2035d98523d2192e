#ifndef STUB_ACL_MF
#define STUB_ACL_MF 1
#include <algorithm>
#include <cassert>
#include <limits>
#include <queue>
#include <vector>
namespace atcoder {
template <class Cap> struct mf_graph {
    mf_graph() : n(0) {} explicit mf_graph(int n_) : n(n_), g(n_) {}
    struct edge { int from, to; Cap cap, flow; };
    int add_edge(int a, int b, Cap c) { int m = (int) pos.size(); pos.push_back({ a, (int) g[a].size() }); int f = (int) g[a].size(), t = (int) g[b].size(); if (a == b) t++; g[a].push_back({ b, t, c }); g[b].push_back({ a, f, 0 }); return m; }
    edge get_edge(int i) { auto& e = g[pos[i].first][pos[i].second]; auto& r = g[e.to][e.rev]; return { pos[i].first, e.to, e.cap + r.cap, r.cap }; }
    std::vector<edge> edges() { std::vector<edge> r; for (size_t i = 0; i < pos.size(); ++i) r.push_back(get_edge((int) i)); return r; }
    Cap flow(int s, int t) { return flow(s, t, std::numeric_limits<Cap>::max()); }
    Cap flow(int s, int t, Cap lim) { Cap f = 0; while (f < lim) { std::vector<std::pair<int, int>> pr(n, { -1, -1 }); std::queue<int> q; q.push(s); pr[s] = { s, 0 }; while (!q.empty() && pr[t].first < 0) { int u = q.front(); q.pop(); for (int i = 0; i < (int) g[u].size(); ++i) if (g[u][i].cap && pr[g[u][i].to].first < 0) { pr[g[u][i].to] = { u, i }; q.push(g[u][i].to); } }
        if (pr[t].first < 0) break; Cap d = lim - f; for (int v = t; v != s; v = pr[v].first) d = std::min(d, g[pr[v].first][pr[v].second].cap); for (int v = t; v != s; v = pr[v].first) { auto& e = g[pr[v].first][pr[v].second]; e.cap -= d; g[v][e.rev].cap += d; } f += d; } return f; }
    std::vector<bool> min_cut(int s) { std::vector<bool> v(n); std::queue<int> q; q.push(s); v[s] = true; while (!q.empty()) { int u = q.front(); q.pop(); for (auto& e : g[u]) if (e.cap && !v[e.to]) { v[e.to] = true; q.push(e.to); } } return v; }
private: struct E { int to, rev; Cap cap; }; int n; std::vector<std::pair<int, int>> pos; std::vector<std::vector<E>> g;
};
}
#endif
