#ifndef STUB_ACL_TS
#define STUB_ACL_TS 1
#include "scc.hpp"
namespace atcoder {
struct two_sat {
    two_sat() : n(0) {} explicit two_sat(int n_) : n(n_), a(n_), s(2 * n_) {}
    void add_clause(int i, bool f, int j, bool g) { s.add_edge(2 * i + (f ? 0 : 1), 2 * j + (g ? 1 : 0)); s.add_edge(2 * j + (g ? 0 : 1), 2 * i + (f ? 1 : 0)); }
    bool satisfiable() { int k; auto id = s.ids(k); for (int i = 0; i < n; ++i) { if (id[2 * i] == id[2 * i + 1]) return false; a[i] = id[2 * i] < id[2 * i + 1]; } return true; }
    std::vector<bool> answer() { return a; }
private: int n; std::vector<bool> a; scc_graph s;
};
}
#endif
