// Output streams over sinks that accept bytes in pieces, fill up, fail or throw; and the way back through the reader.
#include "io_items.hpp"
using Out = suisen::io::OutputStream<std::ostream&>; using In = suisen::io::InputStream<std::istream&>;
struct Sink { sim::OutBuf buf; std::ostream os; Out out; std::string want; bool broken = false; size_t mark = 0; std::vector<std::function<void(sim::Ctx&, In&)>> back; bool canread = true; explicit Sink(size_t chunk) : buf(chunk), os(&buf), out(os) {} };
struct Part { std::string text; std::function<void(Out&)> put; std::function<void(sim::Ctx&, In&)> get; };
template <typename T> static Part part(sim::Rng& r, const Sep& sep) {
    auto it = Gen<T>::make(r, sep); Part p; p.text = it.text;
    p.put = [it](Out& o) { if constexpr (std::is_same_v<T, GP>) suisen::geometry::operator<<(o.get_stream(), it.val); else if constexpr (std::is_same_v<T, Rat>) ::operator<<(o.get_stream(), it.val); else o << it.val; };
    p.get = [it](sim::Ctx& c, In& in) { if constexpr (!std::is_same_v<T, Rat> && !std::is_same_v<T, SB>) { T x = it.shape; if constexpr (std::is_same_v<T, GP>) suisen::geometry::operator>>(in.get_stream(), x); else in >> x; c.require(!in.get_stream().fail() && it.is(x), "what was written is not read back", it.text); } else { std::string s; in >> s; c.require(s == it.text, "what was written is not read back", it.text); } };
    return p; }
using Maker = Part (*)(sim::Rng&, const Sep&);
#define X(T) &part<T>,
static const Maker makers[] = { IO_TYPES(X) &part<Rat>, &part<SB> };
#undef X
enum { OPEN, PUT, PUTM, PRINT, ALL, FLUSH, FULL_DISK, HEAL, READBACK, GLOBAL };
static void run(sim::Ctx& c) {
    static const int ps[] = { 998244353, 1000000007, 2, 97, 2147483647 }; dmint::set_mod(ps[c.cfg(0, 4)]); bool faults = c.faults_on(); std::vector<std::unique_ptr<Sink>> ss;
    auto open = [&](sim::Rng& r) { auto s = std::make_unique<Sink>(r.chance(1, 3) ? 0 : 1 + r.below(r.chance(1, 2) ? 5 : 60)); s->buf.throws = faults && r.chance(1, 3); return s; };
    { sim::Rng r(c.s.seed ^ 9); ss.push_back(open(r)); }
    auto verify = [&](Sink& s, bool flushed) { // what arrived is exactly what was written, up to the point where the sink refused
        const std::string& o = s.buf.out; if (o.size() > s.want.size() || s.want.compare(0, o.size(), o) != 0) c.fail("bytes in the sink differ from what was written", "sink \"" + o.substr(0, 200) + "\" written \"" + s.want.substr(0, 200) + "\"");
        if (flushed && s.os.good() && o.size() != s.want.size()) c.fail("bytes are missing although no error was reported", "sink " + std::to_string(o.size()) + " written " + std::to_string(s.want.size()));
        if (flushed && s.buf.refused > (i64) s.mark && s.os.good()) c.fail("the sink refused bytes but no error was reported", ""); 
        if (s.buf.cap < 0 && s.buf.refused == (i64) s.mark) c.require(s.os.good(), "an error was reported without a cause"); };
    while (c.next()) {
        sim::Rng r = c.rng(2); Sink& s = *ss[(size_t) c.arg(0, 0, (i64) ss.size() - 1)]; Sep sep{ &r, true };
        auto note = [&](const std::string& t) { s.want += t; };
        auto guard = [&](auto&& f) { i64 before = s.buf.refused; try { f(); if (s.buf.refused > before && s.os.good()) c.fail("the sink refused bytes but no error was reported", "right after the write"); } catch (const sim::InjectedFault&) { c.fail("a sink error escaped as a foreign exception", ""); } };
        switch (c.cur->code) {
        case OPEN: if (ss.size() < 4) ss.push_back(open(r)); else ss[r.below(4)] = open(r); continue;
        case PUT: { Part p = makers[r.below(std::size(makers))](r, sep); std::string end = r.chance(1, 2) ? " " : "\n"; note(p.text + end); s.back.push_back(p.get); guard([&] { p.put(s.out); s.out << end; }); break; }
        case PUTM: { int n = 1 + (int) r.below(6); int only = r.chance(1, 2) ? (int) r.below(std::size(makers)) : -1; for (int i = 0; i < n; ++i) { Part p = makers[only >= 0 ? (size_t) only : r.below(std::size(makers))](r, sep); note(p.text + " "); s.back.push_back(p.get); guard([&] { p.put(s.out); s.out << ' '; }); } break; }
        case PRINT: { auto a = Gen<i128>::make(r, sep); auto b = Gen<VI>::make(r, sep); auto d = Gen<std::string>::make(r, sep); auto e = Gen<TUP>::make(r, sep); int k = (int) r.below(4); if (k == 0) { note("\n"); guard([&] { s.out.print(); }); } else if (k == 1) { note(a.text + "\n"); guard([&] { s.out.print(a.val); }); } else if (k == 2) { note(a.text + " " + b.text + " " + d.text + "\n"); guard([&] { s.out.print(a.val, b.val, d.val); }); } else { note(e.text + " " + a.text + "\n"); guard([&] { s.out.print(e.val, a.val); }); }
            auto rd = [](auto it) { return [it](sim::Ctx& c, In& in) { auto x = it.shape; in >> x; c.require(it.is(x), "what was written is not read back", it.text); }; }; if (k == 1) s.back.push_back(rd(a)); else if (k == 2) s.back.push_back(rd(a)), s.back.push_back(rd(b)), s.back.push_back(rd(d)); else if (k == 3) s.back.push_back(rd(e)), s.back.push_back(rd(a)); break; }
        case ALL: { static const std::string seps[] = { " ", "\n", ", ", "" , "::", std::string("\0", 1), std::string("a\0b", 3), std::string(50, '-') }; std::string sp = seps[r.below(8)], end = r.chance(1, 2) ? "\n" : r.chance(1, 2) ? "" : "!"; size_t n = r.below(5); std::vector<i128> v; std::string t; for (size_t i = 0; i < n; ++i) { auto e = Gen<i128>::make(r, sep); v.push_back(e.val); t += (i ? sp : "") + e.text; } note(t + end); s.canread = false; guard([&] { if (sp == " " && end == "\n" && r.chance(1, 2)) s.out.print_all(v); else s.out.print_all(std::list<i128>(v.begin(), v.end()), sp, end); }); break; }
        case FLUSH: guard([&] { s.os.flush(); }); verify(s, true); break;
        case FULL_DISK: if (faults && s.os.good()) { s.os.flush(); s.buf.cap = (i64) (s.buf.out.size() + r.below(r.chance(1, 2) ? 8 : 60)); s.buf.once = r.chance(1, 3); } break;
        case HEAL: { guard([&] { s.os.flush(); }); verify(s, true); if (s.buf.cap >= 0 || s.buf.refused > (i64) s.mark) { // space again: the writer restarts from what arrived
            s.buf.cap = -1; s.mark = (size_t) s.buf.refused; s.os.clear(); if (s.buf.out.size() != s.want.size()) s.canread = false; s.want = s.buf.out; sim::probe("sink_healed"); } break; }
        case READBACK: { guard([&] { s.os.flush(); }); verify(s, true); if (s.canread && s.os.good()) { sim::InBuf b(s.buf.out); b.chunks = { 1 + (int) r.below(20), 1 + (int) r.below(5) }; std::istream is(&b); In in(is); for (auto& f : s.back) f(c, in); int x; in >> x; c.require(is.fail(), "extra bytes after the last value"); sim::probe("read_back"); } break; }
        case GLOBAL: { sim::OutBuf b(r.below(10)); auto* old = std::cout.rdbuf(&b); auto a = Gen<i128>::make(r, sep); auto v = Gen<VI>::make(r, sep); suisen::print(a.val, v.val); suisen::print_all(v.val); suisen::print(); suisen::io::cout << a.val; std::cout.flush(); std::cout.rdbuf(old); std::string w = a.text + " " + v.text + "\n" + v.text + "\n\n" + a.text; if (b.out != w) c.fail("bytes in the sink differ from what was written", b.out + " want " + w);
            { suisen::io::OutputStream o{ std::ostringstream() }; o.print(a.val, v.val); c.require(o.get_stream().str() == a.text + " " + v.text + "\n", "owned stream: text"); } break; }
        }
        verify(s, false); u64 h = ss.size(); for (auto& q : ss) h = sim::mix64(h ^ sim::hash_of(q->buf.out) ^ (u64) q->os.rdstate()); c.state(h);
    }
}
static sim::RegisterWorld w([] { sim::WorldDef d; d.prop = "C15"; d.name = "output"; d.run = run; d.max_ops = 60; d.ncfg = 1; d.faults = true; d.real = "io/output_stream.hpp, io/input_stream.hpp, stream insertion of number/modint.hpp, number/rational.hpp, math/bigint.hpp, math/unsigned_bigint.hpp, integral_geom/point.hpp, geom/geometry.hpp, algebra/field/nimber.hpp, algebra/monoid/affine*.hpp, datastructure/util/static_bitset.hpp"; d.stub = "byte sink and source (sim::OutBuf, sim::InBuf), ac-library stand-in";
    d.ops = { {"open", 3, 3}, {"put", 8, 3}, {"put_many", 6, 3}, {"print", 5, 3}, {"print_all", 2, 3}, {"flush", 4, 3}, {"full_disk", 2, 3}, {"heal", 3, 3}, {"read_back", 3, 3}, {"global", 1, 3} }; return d; }());
