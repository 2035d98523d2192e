// Input streams fed in arbitrary pieces, cut short, or failing in the middle.
#include "io_items.hpp"
enum Mode { FULL, MUSTFAIL, UNSPEC };
using In = suisen::io::InputStream<std::istream&>;
struct Entry { size_t s, e; std::function<void(sim::Ctx&, In&, int mode, int how)> read; };
template <typename T> static Entry entry(std::string& doc, sim::Rng& r, const Sep& sep) {
    auto it = Gen<T>::make(r, sep); size_t s = doc.size(); doc += it.text; auto other = Gen<T>::make(r, sep);
    return { s, doc.size(), [it, other](sim::Ctx& c, In& in, int mode, int how) {
        // the target holds some other value before the read (containers: of the right size unless the read must fail)
        constexpr bool flat = (!suisen::is_iterable_v<T> || std::is_same_v<T, std::string>) && !std::is_same_v<T, PVB>; T x = mode == MUSTFAIL || flat ? other.val : it.shape; bool ret = false; sim::scribble_stack();
        if constexpr (std::is_same_v<T, GP>) suisen::geometry::operator>>(in.get_stream(), x); // an alias of std::complex: found by qualified name only
        else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, mint> || std::is_same_v<T, dmint> || std::is_same_v<T, suisen::bigint> || std::is_same_v<T, suisen::unsigned_bigint> || std::is_same_v<T, u128> || std::is_same_v<T, i128> || std::is_same_v<T, Aff> || std::is_same_v<T, N64>) { if (how == 2) { T y = in.read(); x = y; ret = true; } else if (how == 1) in.read(x); else in >> x; }
        else { if (how == 1) in.read(x); else in >> x; }
        bool ok = !in.get_stream().fail();
        if (mode == FULL) { c.require(ok, "a complete value was available but the read failed", it.text); c.require(it.is(x), "value read differs from the text", it.text); }
        if (mode == MUSTFAIL) { c.require(!ok, "a read past the end of the data reported success"); bool same; if constexpr (std::is_same_v<T, N64>) { N64 a = x, b = ret ? T{} : other.val; same = (uint64_t) a == (uint64_t) b; } else if constexpr (std::is_same_v<T, AffC>) same = x.a == other.val.a && x.b == other.val.b && x.l == other.val.l && x.r == other.val.r; else same = x == (ret ? T{} : other.val); if (how == 2 && std::is_same_v<T, N64>) same = true; c.require(same, "a failed read changed its target"); }
    } };
}
using Maker = Entry (*)(std::string&, sim::Rng&, const Sep&);
#define X(T) &entry<T>,
static const Maker makers[] = { IO_TYPES(X) };
#undef X
struct Doc { sim::InBuf buf; std::istream is; In in; std::vector<Entry> es; size_t next = 0; bool global = false; Doc() : buf(""), is(&buf), in(is) {} };
enum { OPEN, READ, READ2, CUT, FAIL_AT, HEAL, GLOBAL };
static void run(sim::Ctx& c) {
    static const int ps[] = { 998244353, 1000000007, 2, 97, 2147483647, 1 }; dmint::set_mod(ps[c.cfg(0, 5)]); bool faults = c.faults_on(); std::vector<std::unique_ptr<Doc>> ds;
    auto open = [&](sim::Rng& r) { auto d = std::make_unique<Doc>(); Sep sep{ &r, false }; std::string doc; if (r.chance(1, 2)) doc += sep(); int n = (int) r.below(14); int only = r.chance(1, 4) ? (int) r.below(std::size(makers)) : -1; for (int i = 0; i < n; ++i) { d->es.push_back(makers[only >= 0 ? (size_t) only : r.below(std::size(makers))](doc, r, sep)); if (i + 1 < n || r.chance(1, 2)) doc += sep(); } d->buf.data = doc; int m = (int) r.below(4); for (int i = 0; i < m; ++i) d->buf.chunks.push_back((int) (1 + r.below(r.chance(1, 2) ? 3 : 40))); return d; };
    { sim::Rng r(c.s.seed ^ 3); ds.push_back(open(r)); }
    while (c.next()) {
        sim::Rng r = c.rng(2); size_t k = (size_t) c.arg(0, 0, (i64) ds.size() - 1); Doc& d = *ds[k];
        auto limit = [&](bool& err) { size_t L = d.buf.data.size(); err = false; if (d.buf.eof_at >= 0 && (size_t) d.buf.eof_at < L) L = (size_t) d.buf.eof_at; if (d.buf.err_at >= 0 && (size_t) d.buf.err_at <= L) L = (size_t) d.buf.err_at, err = true; return L; };
        auto one = [&] {
            if (d.next >= d.es.size()) { int x = 12345; std::string z = "q"; if (r.chance(1, 2)) { d.in >> x; c.eq(x, 12345, "target after end of data"); } else { d.in >> z; c.require(z == "q", "target after end of data"); } c.require(d.is.fail(), "a read past the end of the data reported success"); sim::probe("read_past_end"); return; }
            Entry& e = d.es[d.next]; bool err; size_t L = limit(err); bool was = !d.is.good(); int mode = was || L <= e.s ? MUSTFAIL : (err ? L > e.e : L >= e.e) ? FULL : UNSPEC;
            sim::probe(mode == FULL ? "read_complete" : mode == MUSTFAIL ? "read_refused" : "read_torn");
            e.read(c, d.in, mode, (int) r.below(3));
            if (mode == FULL) ++d.next; if (mode == UNSPEC) { c.require(!err || L >= e.e || d.is.fail(), "a read through a device error reported success"); d.next = d.es.size() + 1000; } };
        switch (c.cur->code) {
        case OPEN: if (ds.size() < 4) ds.push_back(open(r)); else ds[r.below(4)] = open(r); break;
        case READ: if (d.next <= d.es.size()) one(); break;
        case READ2: for (int i = (int) r.below(6); i >= 0 && d.next <= d.es.size(); --i) one(); break;
        case CUT: if (faults) { size_t lo = d.buf.pos; d.buf.eof_at = (i64) (lo + r.below(d.buf.data.size() - lo + 1)); if (d.next < d.es.size() && r.chance(1, 2)) d.buf.eof_at = std::max<i64>((i64) lo, (i64) d.es[d.next + r.below(d.es.size() - d.next)].s - (i64) r.below(2)); } break;
        case FAIL_AT: if (faults) { size_t lo = d.buf.pos; d.buf.err_at = (i64) (lo + r.below(d.buf.data.size() - lo + 1)); if (d.next < d.es.size() && r.chance(1, 2)) d.buf.err_at = std::max<i64>((i64) lo, (i64) d.es[d.next + r.below(d.es.size() - d.next)].s); } break;
        case HEAL: if (d.next <= d.es.size() && (d.buf.eof_at >= 0 || d.buf.err_at >= 0)) { d.buf.eof_at = d.buf.err_at = -1; d.is.clear(); sim::probe("stream_healed"); } break;
        case GLOBAL: { // the process-wide reader over std::cin
            sim::InBuf b(""); std::string doc; Sep sep{ &r, false }; auto a = Gen<int>::make(r, sep); auto v = Gen<VI>::make(r, sep); auto w = Gen<i128>::make(r, sep); doc = a.text + sep() + v.text + sep() + w.text + sep(); b.data = doc; b.chunks = { 1 + (int) r.below(4) }; bool cut = faults && r.chance(1, 3); if (cut) b.eof_at = (i64) (a.text.size() + 1);
            auto* old = std::cin.rdbuf(&b); std::cin.clear(); sim::scribble_stack(); int x = suisen::read(); VI y = v.shape; i128 z = 0; suisen::read(y, z); bool failed = std::cin.fail(); std::cin.rdbuf(old); std::cin.clear(); c.require(a.is(x), "value read differs from the text"); if (cut) c.require(failed, "a read past the end of the data reported success"); else { c.require(!failed && v.is(y) && w.is(z), "value read differs from the text"); }
            { suisen::io::InputStream s{ std::istringstream(doc) }; int x2 = s.read(); VI y2 = v.shape; s >> y2; i128 z2 = s.read(); c.require(a.is(x2) && v.is(y2) && w.is(z2), "owned stream: value read differs from the text"); } break; }
        }
        u64 h = ds.size(); for (auto& q : ds) h = sim::mix64(h ^ (q->next * 64 + q->es.size()) ^ (u64) q->is.rdstate() << 20 ^ (u64) q->buf.pos << 32); c.state(h);
    }
}
static sim::RegisterWorld w([] { sim::WorldDef d; d.prop = "C14"; d.name = "input"; d.run = run; d.max_ops = 60; d.ncfg = 1; d.faults = true; d.real = "io/input_stream.hpp, stream extraction of number/modint.hpp, math/bigint.hpp, math/unsigned_bigint.hpp, integral_geom/point.hpp, geom/geometry.hpp, algebra/field/nimber.hpp, algebra/monoid/affine*.hpp"; d.stub = "byte source (sim::InBuf), ac-library stand-in";
    d.ops = { {"open", 4, 3}, {"read", 12, 3}, {"read_many", 8, 3}, {"cut", 2, 3}, {"fail_at", 2, 3}, {"heal", 4, 3}, {"global", 1, 3} }; return d; }());
