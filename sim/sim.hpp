// Deterministic simulator core.  A run is a pure function of a Script (world + environment +
// operations); a Script is a pure function of (VERIF_SEED, world, run index).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <streambuf>
#include <istream>
#include <ostream>
#include <type_traits>
#include <new>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5851f42d4c957f2dULL)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- entropy seam
uint64_t entropy_draw(int bits);              // decided by the script's entropy mode
template <typename R, int BITS> struct Engine {
    using result_type = R;
    static constexpr result_type mask = BITS == 64 ? ~result_type(0) : ((result_type(1) << (BITS % 64)) - 1);
    static constexpr result_type default_seed = 5489u;
    Engine() {}
    template <typename S> explicit Engine(S&&) {}
    template <typename S> void seed(S&&) {}
    void seed() {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return mask; }
    result_type operator()() { return result_type(entropy_draw(BITS)) & mask; }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    friend bool operator==(const Engine&, const Engine&) { return true; }
    friend bool operator!=(const Engine&, const Engine&) { return false; }
};
struct RandomDevice {
    using result_type = unsigned int;
    RandomDevice() {}
    explicit RandomDevice(const std::string&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0u; }
    result_type operator()() { return (result_type) entropy_draw(32); }
    double entropy() const noexcept { return 32; }
};

// ---------------------------------------------------------------- scripts
struct Op { int code; int64_t a[6]; };
enum Env { E_ENTROPY_MODE, E_ENTROPY_SEED, E_ENTROPY_PREFIX, E_MEM_FILL, E_MEM_REUSE, E_MEM_SEED,
           E_STACK, E_FAULTS, E_CLOCK, E_AUX, E_COUNT };
struct Script {
    std::string world;
    uint64_t seed = 0;
    std::vector<int64_t> env = std::vector<int64_t>(E_COUNT, 0);
    std::vector<int64_t> cfg;
    std::vector<Op> ops;
};

struct OpDef { const char* name; int weight; int nargs; };
struct Ctx;
struct WorldDef {
    const char* prop; const char* name;
    std::vector<OpDef> ops;
    void (*run)(Ctx&);
    int min_ops = 1, max_ops = 120;
    int ncfg = 8;
    int share = 1;              // relative share of the run budget
    bool faults = false;        // does the world inject operation faults (E_FAULTS != 0 in half the runs)
    const char* real = "";      // components executed as shipped
    const char* stub = "";      // components replaced
};
struct RegisterWorld { RegisterWorld(const WorldDef&); };

// ---------------------------------------------------------------- faults, probes, steps
void fault(const char* kind, uint64_t n = 1);   // a fault actually fired
void probe(const char* name, uint64_t n = 1);   // a rare condition was reached
void step(uint64_t n = 1);                      // one unit of simulated progress (bounded)

struct InjectedFault : std::exception { const char* what() const noexcept override { return "injected"; } };

// user-supplied callbacks (monoid operations, predicates...) report here
void callback();
uint64_t callbacks();                           // how many so far
void arm_callback_throw(int64_t kth);           // throw InjectedFault at the kth callback from now
bool disarm_callback_throw();                   // true if it fired
void set_preempt(std::function<void()>* f, int64_t kth);   // run *f inside the kth callback
// allocator seam
void arm_alloc_failure(int64_t kth, int64_t count = 1);
bool disarm_alloc_failure();                    // true if it fired
uint64_t live_blocks();                         // blocks currently allocated
uint64_t live_bytes();
void check_heap(const char* where);             // redzones of all live blocks
struct Armed {                                  // operations inside are "library code"
    Armed(); ~Armed();
};
uint64_t alloc_count();
// clock seam
void clock_set_step(int64_t ns_per_read);
void clock_advance(int64_t ns);                 // true time passes
void clock_jump_wall(int64_t ns);               // wall clock is stepped (NTP, operator)
int64_t clock_true();                           // ns of true elapsed time
uint64_t clock_reads();
void scribble_stack();

// ---------------------------------------------------------------- run context
struct Ctx {
    const Script& s;
    size_t pc = 0;                // current op
    const Op* cur = nullptr;
    int cfg_next = 0;
    explicit Ctx(const Script& s_) : s(s_) {}
    bool next();                  // advance to the next scheduled step
    // configuration value in [lo, hi]
    int64_t cfg(int64_t lo, int64_t hi);
    bool faults_on() const { return s.env[E_FAULTS] != 0; }
    // argument k of the current op in [lo, hi]; 1/8 lo, 1/8 hi, else spread
    int64_t arg(int k, int64_t lo, int64_t hi) const;
    uint64_t raw(int k) const { return (uint64_t) cur->a[k]; }
    Rng rng(int k) const { return Rng(raw(k)); }
    // observation: mixes into the event-log hash
    void obs(uint64_t v);
    void obs(const std::string& v);
    // state of the reference model, for the coverage measure
    void state(uint64_t h);
    [[noreturn]] void fail(const char* cls, const std::string& msg);
    template <typename A, typename B> void eq(const A& got, const B& want, const char* what);
    void require(bool ok, const char* what, const std::string& detail = "") { if (!ok) fail(what, detail); }
};
extern Ctx* g_ctx;

template <typename T, typename = void> struct Printable : std::false_type {};
template <typename T> struct Printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
std::string fmt_u128(unsigned __int128 v, bool neg);
template <typename T> std::string show(const T& v);
template <typename A, typename B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <typename T> std::string show(const std::vector<T>& v) {
    std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; if (i == 60) { r += "..."; break; } T x = v[i]; r += show(x); } return r + "]";
}
std::string show_s(const std::string&);
std::string show_ll(long long); std::string show_ull(unsigned long long); std::string show_d(long double);
template <typename T> std::string show(const T& v) {
    if constexpr (std::is_same_v<T, __int128>) return v < 0 ? fmt_u128((unsigned __int128)0 - (unsigned __int128) v, true) : fmt_u128(v, false);
    else if constexpr (std::is_same_v<T, unsigned __int128>) return fmt_u128(v, false);
    else if constexpr (std::is_same_v<T, std::string>) return show_s(v);
    else if constexpr (std::is_convertible_v<T, const char*>) return show_s(std::string(v));
    else if constexpr (std::is_floating_point_v<T>) return show_d(v);
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) return show_ll(v);
    else if constexpr (std::is_integral_v<T>) return show_ull(v);
    else if constexpr (std::is_enum_v<T>) return show_ll((long long) v);
    else return "<obj>";
}
inline uint64_t hash_of(const std::string& v) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : v) h = (h ^ c) * 1099511628211ULL; return h; }
template <typename T> uint64_t hash_of(const T& v) {
    if constexpr (std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>) return mix64((uint64_t) v) ^ mix64((uint64_t) (v >> 64) + 77);
    else if constexpr (std::is_floating_point_v<T>) { double d = (double) v; uint64_t u; __builtin_memcpy(&u, &d, 8); return mix64(u); }
    else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return mix64((uint64_t) v);
    else return hash_of(show(v));
}
template <typename A, typename B> uint64_t hash_of(const std::pair<A, B>& p) { return mix64(hash_of(p.first) * 3 + hash_of(p.second)); }
template <typename T> uint64_t hash_of(const std::vector<T>& v) {
    uint64_t h = mix64(v.size()); for (size_t i = 0; i < v.size(); ++i) { T x = v[i]; h = mix64(h * 31 + hash_of(x)); } return h;
}
template <typename A, typename B> void Ctx::eq(const A& got, const B& want, const char* what) {
    obs(hash_of(got));
    if (!(got == want)) fail(what, "got " + show(got) + " want " + show(want));
}

// ---------------------------------------------------------------- stream seam
// Input: hands the bytes out in chunks; can end early, or fail by throwing (stream sets badbit).
struct InBuf : std::streambuf {
    std::string data; size_t pos = 0; std::vector<int> chunks; size_t ci = 0;
    int64_t eof_at = -1; int64_t err_at = -1; int64_t reads = 0;
    char buf[64];
    explicit InBuf(std::string d) : data(std::move(d)) {}
    size_t limit() const;
    size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
protected:
    int_type underflow() override;
};
// Output: accepts bytes in chunks up to a capacity, then refuses (or throws).
struct OutBuf : std::streambuf {
    std::string out; int64_t cap = -1; bool throws = false, once = false; bool unbuffered = false; int64_t refused = 0;
    std::vector<char> b; size_t chunk;
    explicit OutBuf(size_t chunk_ = 0);
protected:
    bool push(const char* s, size_t n, size_t& took);
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override;
};

int main_entry(int argc, char** argv);
} // namespace sim
