#include <bits/stdc++.h>
#include "sim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>

extern "C" void __gcov_dump() __attribute__((weak));
namespace sim {

// =================================================================== shared result of one run
struct Named { char name[40]; uint64_t n; };
struct Result {
    volatile int status;            // 0 running/crashed, 1 ok, 2 violation, 3 simulator error
    char cls[96]; char msg[1500];
    uint64_t hash; uint64_t steps; uint32_t nops; uint32_t op_at;
    uint32_t nfaults, nprobes, nstates;
    Named faults[32]; Named probes[96];
    uint64_t states[512];
    int64_t sim_ns;
};
static Result* R = nullptr;
Ctx* g_ctx = nullptr;
static Script const* g_script = nullptr;
static bool active = false;           // inside a simulated run

static void bump(Named* t, uint32_t& cnt, uint32_t cap, const char* name, uint64_t n) {
    for (uint32_t i = 0; i < cnt; ++i) if (!strcmp(t[i].name, name)) { t[i].n += n; return; }
    if (cnt < cap) { snprintf(t[cnt].name, sizeof t[cnt].name, "%s", name); t[cnt].n = n; ++cnt; }
}
void fault(const char* k, uint64_t n) { if (R) bump(R->faults, R->nfaults, 32, k, n); }
void probe(const char* k, uint64_t n) { if (R) bump(R->probes, R->nprobes, 96, k, n); }

[[noreturn]] static void die(int status, const char* cls, const char* msg) {
    if (R) {
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        snprintf(R->msg, sizeof R->msg, "%s", msg);
        R->status = status;
    }
    _exit(status == 2 ? 31 : 32);
}
static const uint64_t STEP_BUDGET = 60'000'000;
static uint64_t g_steps = 0;
void step(uint64_t n) {
    g_steps += n;
    if (g_steps > STEP_BUDGET && active) die(2, "no-progress", "step budget exhausted: an operation did not complete within the bound");
}

// =================================================================== entropy
static struct { int mode; uint64_t prefix, n; Rng r; uint64_t few[4]; uint64_t cnt; } ent;
static void entropy_init(const Script& s) {
    ent.mode = int(uint64_t(s.env[E_ENTROPY_MODE]) % 9);
    ent.prefix = uint64_t(s.env[E_ENTROPY_PREFIX]) % 400;
    ent.r = Rng(uint64_t(s.env[E_ENTROPY_SEED]));
    for (auto& f : ent.few) f = ent.r.next();
    ent.n = 0; ent.cnt = 0;
}
static uint64_t uniform_draws_left = ~0ull;
uint64_t entropy_draw(int bits) {
    step();
    if (!active) { static Rng r0(1); return r0.next() >> (64 - bits); }
    uint64_t u = ent.r.next(), i = ent.n++;
    int mode = ent.mode;
    if (mode != 0 && mode != 2 && mode != 5 && i >= ent.prefix) mode = 0;   // adversary gives up: fair from here on
    uint64_t v = mix64(u ^ 0x6a09e667f3bcc909ULL);     // independent of the bits that select the adversary's moves
    switch (mode) {
        case 0: break;
        case 1: v = ent.few[0]; fault("entropy_constant"); break;
        case 2: if (u % 16) { v = ent.few[(u >> 8) & 3]; fault("entropy_tie"); } break;
        case 3: v = i << 40; if (bits == 32) v = i << 48; fault("entropy_increasing"); break;
        case 4: v = ~(i << 44); fault("entropy_decreasing"); break;
        case 5: if (u % 8) { v = (u & 256) ? ~0ull : 0; fault("entropy_extreme"); } break;
        case 6: v = (u & 15) << (64 - bits); fault("entropy_small"); break;
        case 7: v = 0; fault("entropy_zero"); break;
        case 8: v = ~0ull; fault("entropy_max"); break;
    }
    (void) uniform_draws_left;
    return v >> (64 - bits);
}

// =================================================================== callbacks
static uint64_t cb_count = 0; uint64_t callbacks() { return cb_count; }
static int64_t cb_throw = -1; static bool cb_fired = false;
static std::function<void()>* pre_f = nullptr; static int64_t pre_k = -1;
void arm_callback_throw(int64_t k) { cb_throw = k; cb_fired = false; }
bool disarm_callback_throw() { cb_throw = -1; return cb_fired; }
void set_preempt(std::function<void()>* f, int64_t k) { pre_f = f; pre_k = k; }
void callback() {
    step(); ++cb_count;
    if (pre_k >= 0 && pre_k-- == 0 && pre_f) {
        auto* f = pre_f; pre_f = nullptr; fault("preempt_in_callback"); (*f)();
    }
    if (cb_throw >= 0 && cb_throw-- == 0) { cb_fired = true; fault("callback_throw"); throw InjectedFault(); }
}

// =================================================================== allocator
static char* const ARENA = (char*) 0x200000000000ULL;
static const size_t ARENA_SZ = size_t(3) << 30;
static size_t arena_used = 0;
static bool arena_ok = false;
struct Hdr { uint64_t magic; uint64_t size; Hdr* prev; Hdr* next; unsigned char rz[16]; };
static const uint64_t LIVE = 0xA110CA7EDB10C5ULL, DEAD = 0xDEADB10CDEADULL;
static Hdr head;
static uint64_t n_live = 0, b_live = 0, n_alloc = 0;
static int64_t af_k = -1, af_count = 0; static bool af_fired = false; static int armed_depth = 0;
static Hdr* fl[64]; static int fln = 0;
static Rng mrng(0); static int mem_fill = 0, mem_reuse = 0;
Armed::Armed() { ++armed_depth; } Armed::~Armed() { --armed_depth; }
void arm_alloc_failure(int64_t k, int64_t count) { af_k = k; af_count = count; af_fired = false; }
bool disarm_alloc_failure() { af_k = -1; af_count = 0; return af_fired; }
uint64_t live_blocks() { return n_live; } uint64_t live_bytes() { return b_live; } uint64_t alloc_count() { return n_alloc; }
static void mem_init(const Script& s) {
    mem_fill = int(uint64_t(s.env[E_MEM_FILL]) % 6); mem_reuse = int(uint64_t(s.env[E_MEM_REUSE]) % 3);
    mrng = Rng(uint64_t(s.env[E_MEM_SEED])); head.prev = head.next = &head;
    if (mem_fill) fault("mem_garbage_fill");
    if (mem_reuse) fault("mem_address_reuse");
}
static void fill(char* p, size_t n) {
    switch (mem_fill) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xCD, n); break;
        case 2: { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = mrng.next(); memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = char(mrng.next()); break; }
        case 3: memset(p, 0xFF, n); break;
        case 4: { size_t i = 0; for (; i + 4 <= n; i += 4) { uint32_t v = uint32_t(mrng.next() & 7); memcpy(p + i, &v, 4); } for (; i < n; ++i) p[i] = char(mrng.next() & 1); break; }
        case 5: memset(p, 0x01, n); break;
    }
}
static void check_block(Hdr* h, const char* where) {
    char* u = (char*) (h + 1);
    for (int i = 0; i < 16; ++i) if (h->rz[i] != 0xAB) die(2, "heap-underrun", where);
    for (int i = 0; i < 16; ++i) if ((unsigned char) u[h->size + i] != 0xBA) die(2, "heap-overrun", where);
}
void check_heap(const char* where) {
    if (!active) return;
    for (Hdr* h = head.next; h != &head; h = h->next) {
        if (h->magic != LIVE) die(2, "heap-corrupt", where);
        check_block(h, where);
    }
}
static void* arena_alloc(size_t n, size_t align) {
    ++n_alloc;
    if (armed_depth && af_k >= 0) {
        if (af_k == 0) { if (--af_count <= 0) af_k = -1; af_fired = true; fault("alloc_failure"); throw std::bad_alloc(); }
        --af_k;
    }
    if (n > (size_t(1) << 30)) throw std::bad_alloc();
    if (align < 16) align = 16;
    Hdr* h = nullptr;
    if (mem_reuse && align == 16) {
        for (int i = fln - 1; i >= 0; --i) if (fl[i]->size == n && (mem_reuse == 1 || (mrng.next() & 1))) { h = fl[i]; fl[i] = fl[--fln]; break; }
    }
    if (!h) {
        size_t off = arena_used + (mem_fill >= 2 ? (mrng.next() & 3) * 16 : 0);
        char* u = (char*) ((uintptr_t(ARENA + off + sizeof(Hdr)) + align - 1) / align * align);
        h = (Hdr*) (u - sizeof(Hdr));
        arena_used = size_t(u - ARENA) + n + 16;
        arena_used = (arena_used + 15) / 16 * 16;
        if (arena_used > ARENA_SZ) die(2, "memory-exhausted", "run allocated more than the simulated memory");
    }
    h->magic = LIVE; h->size = n; memset(h->rz, 0xAB, 16);
    h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h;
    char* u = (char*) (h + 1);
    fill(u, n); memset(u + n, 0xBA, 16);
    ++n_live; b_live += n;
    return u;
}
static void arena_free(void* p) {
    Hdr* h = ((Hdr*) p) - 1;
    if (h->magic == DEAD) die(2, "double-free", "block freed twice");
    if (h->magic != LIVE) die(2, "bad-free", "free of a pointer that is not a live block");
    check_block(h, "detected at free");
    h->prev->next = h->next; h->next->prev = h->prev; h->magic = DEAD;
    --n_live; b_live -= h->size;
    if (h->size < (1u << 20)) memset(p, 0xDD, h->size);
    if (mem_reuse) { if (fln < 64) fl[fln++] = h; else fl[mrng.next() & 63] = h; }
}
static void* do_new(size_t n, size_t align) {
    if (active && arena_ok) return arena_alloc(n, align);
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if ((char*) p >= ARENA && (char*) p < ARENA + ARENA_SZ) { if (active) arena_free(p); }
    else free(p);
}

// =================================================================== clocks
static int64_t clk_true = 0, clk_wall_off = 0, clk_step = 0; static uint64_t clk_reads = 0;
static const int64_t WALL0 = 1700000000LL * 1000000000LL, MONO0 = 5000LL * 1000000000LL;
void clock_set_step(int64_t ns) { clk_step = ns; }
void clock_advance(int64_t ns) { clk_true += ns; }
void clock_jump_wall(int64_t ns) { clk_wall_off += ns; fault(ns < 0 ? "wall_clock_jump_back" : "wall_clock_jump_forward"); }
int64_t clock_true() { return clk_true; }
uint64_t clock_reads() { return clk_reads; }
static int64_t read_wall() { ++clk_reads; clk_true += clk_step; return WALL0 + clk_true + clk_wall_off; }
static int64_t read_mono() { ++clk_reads; clk_true += clk_step; return MONO0 + clk_true; }

// =================================================================== misc
__attribute__((noinline)) static void scribble(int depth, unsigned char v) {
    volatile unsigned char b[512];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = v;
    if (depth > 0) scribble(depth - 1, v);
    asm volatile("" ::: "memory");
}
void scribble_stack() {
    int64_t m = g_script ? g_script->env[E_STACK] : 0;
    static const unsigned char pats[] = { 0x00, 0xFF, 0x01, 0xCD, 0x7F };
    if (m) scribble(12, pats[uint64_t(m) % 5]);
}
int64_t Ctx::cfg(int64_t lo, int64_t hi) {
    if (cfg_next >= (int) s.cfg.size()) return lo;
    uint64_t raw = (uint64_t) s.cfg[cfg_next++];
    if (hi <= lo) return lo;
    return lo + int64_t((raw >> 3) % (uint64_t(hi - lo) + 1));
}
int64_t Ctx::arg(int k, int64_t lo, int64_t hi) const {
    if (hi <= lo) return lo;
    uint64_t raw = (uint64_t) cur->a[k], m = raw & 7;
    if (m == 0) return lo;
    if (m == 1) return hi;
    uint64_t span = uint64_t(hi - lo) + 1;
    return span ? lo + int64_t((raw >> 3) % span) : int64_t(raw);
}
bool Ctx::next() {
    // memory and steps bound one operation, not a whole history: a history that has used up most of either ends here
    if (pc >= s.ops.size() || arena_used > ARENA_SZ / 2 || g_steps > STEP_BUDGET / 2) return false;
    cur = &s.ops[pc++]; step(); obs((uint64_t) cur->code); if (R) R->op_at = uint32_t(pc); scribble_stack(); return true; }
void Ctx::obs(uint64_t v) { if (R) R->hash = mix64(R->hash * 0x100000001b3ULL + v); }
void Ctx::obs(const std::string& v) { obs(hash_of(v)); }
void Ctx::state(uint64_t h) {
    if (!R) return;
    if (R->nstates < 512) R->states[R->nstates++] = h; else R->states[mix64(h) % 512] = h;
}
void Ctx::fail(const char* cls, const std::string& msg) {
    char b[1400];
    std::string opn = "end";
    snprintf(b, sizeof b, "step %zu: %s", pc, msg.c_str());
    if (R) { R->op_at = uint32_t(pc); R->steps = g_steps; }
    die(2, cls, b);
}
std::string fmt_u128(unsigned __int128 v, bool neg) {
    std::string r; do { r += char('0' + int(v % 10)); v /= 10; } while (v); if (neg) r += '-';
    std::reverse(r.begin(), r.end()); return r;
}
std::string show_s(const std::string& s) {
    std::string r = "\""; for (unsigned char c : s) { if (c >= 32 && c < 127) r += char(c); else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } } return r + "\"";
}
std::string show_ll(long long v) { return std::to_string(v); }
std::string show_ull(unsigned long long v) { return std::to_string(v); }
std::string show_d(long double v) { char b[64]; snprintf(b, 64, "%.20Lg", v); return b; }

// =================================================================== streams
size_t InBuf::limit() const {
    size_t l = data.size();
    if (eof_at >= 0 && (size_t) eof_at < l) l = (size_t) eof_at;
    if (err_at >= 0 && (size_t) err_at < l) l = (size_t) err_at;
    return l;
}
InBuf::int_type InBuf::underflow() {
    step();
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    ++reads;
    if (err_at >= 0 && pos >= (size_t) err_at) { fault("io_read_error"); throw InjectedFault(); }
    if (pos >= limit()) { if (eof_at >= 0 && pos >= (size_t) eof_at && (size_t) eof_at < data.size()) fault("io_early_eof"); return traits_type::eof(); }
    size_t n = sizeof buf;
    if (!chunks.empty()) { n = size_t(chunks[ci++ % chunks.size()]); if (n < 1) n = 1; if (n > sizeof buf) n = sizeof buf; if (n < sizeof buf) fault("io_short_read"); }
    n = std::min(n, limit() - pos);
    memcpy(buf, data.data() + pos, n); pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
}
OutBuf::OutBuf(size_t chunk_) : b(chunk_), chunk(chunk_) { if (chunk) setp(b.data(), b.data() + chunk); }
bool OutBuf::push(const char* s, size_t n, size_t& took) {
    took = n;
    if (cap >= 0 && out.size() + n > (size_t) cap) took = (size_t) cap > out.size() ? (size_t) cap - out.size() : 0;
    out.append(s, took);
    if (took < n) {
        ++refused; fault(took ? "io_short_write" : "io_disk_full");
        if (once) cap = -1;                      // a passing refusal: there is room again for whoever writes next
        if (throws) { fault("io_write_throw"); throw InjectedFault(); }
        return false;
    }
    return true;
}
int OutBuf::sync() {
    if (!chunk) return 0;
    size_t n = size_t(pptr() - pbase()), took = 0;
    if (!n) return 0;
    setp(b.data(), b.data() + chunk);            // also when push throws: what was refused is gone
    bool ok = push(b.data(), n, took);
    return ok ? 0 : -1;
}
OutBuf::int_type OutBuf::overflow(int_type c) {
    step();
    if (chunk) { if (sync() != 0) return traits_type::eof(); }
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c); size_t took;
    if (chunk) { *pptr() = ch; pbump(1); return c; }
    return push(&ch, 1, took) ? c : traits_type::eof();
}
std::streamsize OutBuf::xsputn(const char* s, std::streamsize n) {
    step();
    if (chunk) {
        std::streamsize i = 0;
        for (; i < n; ++i) { if (pptr() == epptr()) { if (traits_type::eq_int_type(overflow(traits_type::to_int_type(s[i])), traits_type::eof())) return i; } else { *pptr() = s[i]; pbump(1); } }
        return i;
    }
    size_t took; push(s, (size_t) n, took); return (std::streamsize) took;
}

// =================================================================== worlds, scripts
static std::vector<WorldDef>& worlds() { static std::vector<WorldDef> w; return w; }
RegisterWorld::RegisterWorld(const WorldDef& d) { worlds().push_back(d); }
static const WorldDef* find_world(const std::string& n) { for (auto& w : worlds()) if (n == w.name) return &w; return nullptr; }

static Script generate(const WorldDef& w, uint64_t seed) {
    Rng r(seed); Script s; s.world = w.name; s.seed = seed;
    s.env[E_ENTROPY_MODE] = r.chance(2, 5) ? 0 : (int64_t) r.below(9);
    s.env[E_ENTROPY_SEED] = (int64_t) (r.next() >> 1);
    s.env[E_ENTROPY_PREFIX] = r.chance(1, 2) ? 399 : (int64_t) r.below(60);
    s.env[E_MEM_FILL] = (int64_t) r.below(6); s.env[E_MEM_REUSE] = (int64_t) r.below(3); s.env[E_MEM_SEED] = (int64_t) (r.next() >> 1);
    s.env[E_STACK] = (int64_t) r.below(6);
    s.env[E_FAULTS] = w.faults ? (r.chance(1, 2) ? (int64_t) (1 + r.below(7)) : 0) : 0;
    s.env[E_CLOCK] = (int64_t) (r.next() >> 1); s.env[E_AUX] = (int64_t) (r.next() >> 1);
    for (int i = 0; i < w.ncfg; ++i) s.cfg.push_back((int64_t) (r.next() >> 1));
    // swarm: per-run op mix
    std::vector<uint64_t> wt; uint64_t tot = 0;
    for (auto& o : w.ops) {
        uint64_t x = uint64_t(o.weight) * (r.chance(1, 3) ? 4 : 1);
        if (o.weight > 0 && r.chance(1, 5)) x = 0;
        if (o.weight >= 1000) x = uint64_t(o.weight);     // mandatory
        wt.push_back(x); tot += x;
    }
    if (!tot) for (size_t i = 0; i < wt.size(); ++i) { wt[i] = uint64_t(std::max(1, w.ops[i].weight)); tot += wt[i]; }
    int lo = w.min_ops, hi = w.max_ops, n;
    switch (r.below(4)) { case 0: n = (int) r.range(lo, std::max(lo, hi / 8)); break; case 1: n = (int) r.range(lo, std::max(lo, hi / 3)); break; default: n = (int) r.range(lo, hi); }
    int last = -1;
    for (int i = 0; i < n; ++i) {
        Op o{}; int code = 0;
        if (last >= 0 && r.chance(1, 6)) code = last;
        else { uint64_t x = r.below(tot); while (x >= wt[(size_t) code]) x -= wt[(size_t) code++]; }
        o.code = code; last = code;
        for (int k = 0; k < 6; ++k) { uint64_t v = r.next() >> 1; o.a[k] = k < w.ops[(size_t) code].nargs ? (int64_t) v : 0; }
        s.ops.push_back(o);
    }
    return s;
}
static std::string to_text(const Script& s, const WorldDef& w, const std::string& comment) {
    std::ostringstream o; std::istringstream ci(comment); std::string l;
    while (std::getline(ci, l)) o << "# " << l << "\n";
    o << "world " << s.world << "\nseed " << s.seed << "\nenv";
    for (auto v : s.env) o << ' ' << v;
    o << "\ncfg";
    for (auto v : s.cfg) o << ' ' << v;
    o << "\n";
    for (auto& op : s.ops) { o << "op " << w.ops[(size_t) op.code].name; for (int k = 0; k < w.ops[(size_t) op.code].nargs; ++k) o << ' ' << op.a[k]; o << "\n"; }
    return o.str();
}
static bool from_text(const std::string& t, Script& s) {
    std::istringstream in(t); std::string l; const WorldDef* w = nullptr; s = Script(); s.env.clear();
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream is(l); std::string k; is >> k;
        if (k == "world") { is >> s.world; w = find_world(s.world); if (!w) return false; }
        else if (k == "seed") is >> s.seed;
        else if (k == "env") { int64_t v; while (is >> v) s.env.push_back(v); }
        else if (k == "cfg") { int64_t v; while (is >> v) s.cfg.push_back(v); }
        else if (k == "op") {
            std::string n; is >> n; Op o{}; bool f = false; if (!w) return false;
            for (size_t i = 0; i < w->ops.size(); ++i) if (n == w->ops[i].name) { o.code = (int) i; f = true; }
            if (!f) return false;
            for (int k2 = 0; k2 < 6; ++k2) { int64_t v; if (is >> v) o.a[k2] = v; }
            s.ops.push_back(o);
        }
    }
    s.env.resize(E_COUNT, 0);
    return w != nullptr;
}

// =================================================================== one run
static double now_s() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9; }
static bool quiet_child = true;
static int watchdog_s = 20;

static void child_body(const WorldDef& w, const Script& s) {
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    struct itimerval it{}; it.it_value.tv_sec = watchdog_s; setitimer(ITIMER_PROF, &it, nullptr);
    if (quiet_child) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
    g_script = &s; g_steps = 0;
    entropy_init(s); mem_init(s);
    active = true;
    {
        Ctx c(s); g_ctx = &c;
        try { w.run(c); }
        catch (const InjectedFault&) { c.fail("escaped-injected-fault", "an injected fault escaped the world (harness)"); }
        catch (const std::bad_alloc&) { c.fail("unexpected-bad_alloc", "allocation failure without an injected fault"); }
        catch (const std::exception& e) { c.fail("unexpected-exception", e.what()); }
        catch (...) { c.fail("unexpected-exception", "unknown"); }
        check_heap("at end of run");
        R->nops = (uint32_t) c.pc;
    }
    R->steps = g_steps; R->sim_ns = clk_true;
    R->status = 1;
    active = false; if (__gcov_dump) __gcov_dump();  // only in the coverage build (tools/cover)
    _exit(0);
}
static void run_forked(const WorldDef& w, const Script& s, Result* res) {
    R = res; memset((void*) res, 0, offsetof(Result, states));
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) child_body(w, s);
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (res->status == 0) {
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st); res->status = 2;
            if (sg == SIGKILL) { res->status = 3; snprintf(res->cls, sizeof res->cls, "killed"); }
            else snprintf(res->cls, sizeof res->cls, "%s", sg == SIGPROF ? "no-progress-watchdog" : sg == SIGABRT ? "abort" : sg == SIGSEGV ? "crash-SEGV" : sg == SIGFPE ? "crash-FPE" : sg == SIGILL ? "crash-ILL" : sg == SIGBUS ? "crash-BUS" : "crash");
            snprintf(res->msg, sizeof res->msg, "process ended by signal %d during the run", sg);
        } else { res->status = 2; snprintf(res->cls, sizeof res->cls, "exit"); snprintf(res->msg, sizeof res->msg, "process exited with status %d during the run", WEXITSTATUS(st)); }
    }
}
static Result* new_shm() {
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Result*) p;
}

// =================================================================== minimiser
static Script minimise(const WorldDef& w, Script s, const std::string& cls, Result* shm, double budget, int& tried) {
    double t0 = now_s(); tried = 0;
    auto fails = [&](const Script& c) {
        if (now_s() - t0 > budget || tried > 6000) return false;
        ++tried; run_forked(w, c, shm); return shm->status == 2 && cls == shm->cls;
    };
    // drop everything after the failing step
    run_forked(w, s, shm);
    if (shm->status == 2 && shm->op_at && shm->op_at < s.ops.size()) { Script c = s; c.ops.resize(shm->op_at); if (fails(c)) s = c; }
    for (int round = 0; round < 3; ++round) {
        bool any = false;
        size_t n = s.ops.size();
        for (size_t ch = std::max<size_t>(1, n / 2); ch >= 1; ch /= 2) {
            for (size_t i = 0; i < s.ops.size();) {
                Script c = s; size_t e = std::min(s.ops.size(), i + ch);
                c.ops.erase(c.ops.begin() + (long) i, c.ops.begin() + (long) e);
                if (fails(c)) { s = c; any = true; } else i += ch;
            }
            if (ch == 1) break;
        }
        auto try_set = [&](auto get, int64_t v) { Script c = s; int64_t& x = get(c); if (x == v) return; x = v; if (fails(c)) { s = c; any = true; } };
        for (size_t i = 0; i < s.env.size(); ++i) try_set([i](Script& c) -> int64_t& { return c.env[i]; }, 0);
        for (size_t i = 0; i < s.cfg.size(); ++i) for (int64_t v : { 0, 8, 16, 32 }) try_set([i](Script& c) -> int64_t& { return c.cfg[i]; }, v);
        for (size_t i = 0; i < s.ops.size(); ++i) for (int k = 0; k < w.ops[(size_t) s.ops[i].code].nargs; ++k) {
            if (s.ops[i].a[k] >= 0 && s.ops[i].a[k] < 64) continue;
            for (int64_t v : { 0, 1, 2, 10, 18, 26, 34 }) { int64_t b = s.ops[i].a[k]; try_set([i, k](Script& c) -> int64_t& { return c.ops[i].a[k]; }, v); if (s.ops[i].a[k] != b) break; }
        }
        if (!any) break;
    }
    return s;
}

// =================================================================== batch
struct Viol { uint64_t idx; int world; std::string cls, msg; };
struct Agg {
    uint64_t runs = 0, ops = 0, steps = 0; int64_t sim_ns = 0; std::map<std::string, uint64_t> faults, probes;
    std::map<std::string, uint64_t> wruns, wops; std::unordered_set<uint64_t> states, hist, nontriv; std::vector<Viol> viols; uint64_t errors = 0;
    uint64_t fault_runs = 0;
};
static void wr(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
static uint64_t rd(FILE* f) { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) { fprintf(stderr, "short worker result\n"); exit(2); } return v; }
static void wrs(FILE* f, const std::string& s) { wr(f, s.size()); fwrite(s.data(), 1, s.size(), f); }
static std::string rds(FILE* f) { std::string s(rd(f), 0); if (!s.empty() && fread(&s[0], 1, s.size(), f) != s.size()) exit(2); return s; }
static void dump(const Agg& a, FILE* f) {
    wr(f, a.runs); wr(f, a.ops); wr(f, a.steps); wr(f, (uint64_t) a.sim_ns); wr(f, a.errors); wr(f, a.fault_runs);
    for (auto* m : { &a.faults, &a.probes, &a.wruns, &a.wops }) { wr(f, m->size()); for (auto& [k, v] : *m) { wrs(f, k); wr(f, v); } }
    for (auto* m : { &a.states, &a.hist, &a.nontriv }) { wr(f, m->size()); for (auto v : *m) wr(f, v); }
    wr(f, a.viols.size()); for (auto& v : a.viols) { wr(f, v.idx); wr(f, (uint64_t) v.world); wrs(f, v.cls); wrs(f, v.msg); }
}
static void merge(Agg& a, FILE* f) {
    a.runs += rd(f); a.ops += rd(f); a.steps += rd(f); a.sim_ns += (int64_t) rd(f); a.errors += rd(f); a.fault_runs += rd(f);
    for (auto* m : { &a.faults, &a.probes, &a.wruns, &a.wops }) { uint64_t n = rd(f); while (n--) { std::string k = rds(f); (*m)[k] += rd(f); } }
    for (auto* m : { &a.states, &a.hist, &a.nontriv }) { uint64_t n = rd(f); while (n--) m->insert(rd(f)); }
    uint64_t n = rd(f); while (n--) { Viol v; v.idx = rd(f); v.world = (int) rd(f); v.cls = rds(f); v.msg = rds(f); a.viols.push_back(v); }
}
static std::vector<int> sched;    // world indices, expanded by share
static uint64_t run_seed(uint64_t seed, uint64_t idx) { return mix64(mix64(seed) ^ (idx * 0x9e3779b97f4a7c15ULL + 0x1234567)); }

struct StopLine { volatile uint64_t first; volatile uint64_t count; volatile double t; };   // shared by the workers: stop soon after the first violation
static StopLine* stopline;
static void worker(int id, int W, uint64_t seed, uint64_t nruns, double deadline, FILE* out) {
    Result* shm = new_shm(); Agg a; int bad = 0;
    for (uint64_t idx = (uint64_t) id; idx < nruns; idx += (uint64_t) W) {
        if (now_s() > deadline) break;
        if (idx > stopline->first && (stopline->count >= 4 || now_s() > stopline->t + 4)) break;
        int wi = sched[idx % sched.size()]; const WorldDef& w = worlds()[(size_t) wi];
        Script s = generate(w, run_seed(seed, idx));
        run_forked(w, s, shm);
        ++a.runs; a.wruns[w.name]++; a.ops += shm->nops; a.wops[w.name] += shm->nops; a.steps += shm->steps; a.sim_ns += shm->sim_ns;
        uint64_t fsum = 0;
        for (uint32_t i = 0; i < shm->nfaults; ++i) { a.faults[shm->faults[i].name] += shm->faults[i].n; fsum += shm->faults[i].n; }
        for (uint32_t i = 0; i < shm->nprobes; ++i) a.probes[shm->probes[i].name] += shm->probes[i].n;
        if (fsum) ++a.fault_runs;
        for (uint32_t i = 0; i < shm->nstates; ++i) if (a.states.size() < 1500000) a.states.insert(mix64(shm->states[i] + hash_of(std::string(w.name))));
        a.hist.insert(shm->hash);
        if (shm->nops >= 2 && shm->nstates >= 2) a.nontriv.insert(shm->hash);
        if (shm->status == 2) { a.viols.push_back({ idx, wi, shm->cls, shm->msg }); if (stopline->count == 0) stopline->t = now_s(); if (idx < stopline->first) stopline->first = idx; __sync_fetch_and_add(&stopline->count, 1); if (++bad >= 4) break; }
        else if (shm->status != 1) ++a.errors;
    }
    dump(a, out); fflush(out);
}

static std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += char(c); } return r;
}
static std::string jmap(const std::map<std::string, uint64_t>& m) { std::string r = "{"; bool f = true; for (auto& [k, v] : m) { r += (f ? "" : ", ") + std::string("\"") + jesc(k) + "\": " + std::to_string(v); f = false; } return r + "}"; }

int main_entry(int argc, char** argv) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) { std::string k = argv[i]; if (k.rfind("--", 0) == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) opt[k.substr(2)] = argv[++i]; else opt[k.substr(2)] = "1"; } }
    // fixed address layout and stack limit where the kernel lets us (replay does not depend on it)
    if (!getenv("SIM_REEXEC")) {
        int cur = personality(0xffffffff);
        setenv("SIM_REEXEC", "1", 1);
        if (cur != -1) personality((unsigned long) cur | ADDR_NO_RANDOMIZE);
        struct rlimit st{ 256u << 20, 256u << 20 }; setrlimit(RLIMIT_STACK, &st);
        execv("/proc/self/exe", argv);
    }
    void* ar = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (ar != ARENA) { fprintf(stderr, "cannot reserve arena\n"); return 2; }
    arena_ok = true;

    std::string prop = opt["prop"], tier = opt.count("tier") ? opt["tier"] : "quick", only = opt["world"];
    uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
    if (opt.count("list")) { for (auto& w : worlds()) printf("%s %s\n", w.prop, w.name); return 0; }

    std::sort(worlds().begin(), worlds().end(), [](const WorldDef& a, const WorldDef& b) { return strcmp(a.name, b.name) < 0; });
    if (opt.count("replay")) {
        std::ifstream in(opt["replay"]); std::stringstream ss; ss << in.rdbuf(); Script s;
        if (!from_text(ss.str(), s)) { fprintf(stderr, "bad replay file\n"); return 2; }
        const WorldDef* w = find_world(s.world); Result* shm = new_shm(); quiet_child = !opt.count("verbose");
        run_forked(*w, s, shm);
        if (shm->status == 2) { printf("REPLAY violation class=%s hash=%016llx\n  %s\n", shm->cls, (unsigned long long) shm->hash, shm->msg); return 1; }
        printf("REPLAY %s hash=%016llx steps=%llu\n", shm->status == 1 ? "ok" : "error", (unsigned long long) shm->hash, (unsigned long long) shm->steps);
        return shm->status == 1 ? 0 : 2;
    }
    for (size_t i = 0; i < worlds().size(); ++i) if (only.empty() || only == worlds()[i].name) for (int k = 0; k < worlds()[i].share; ++k) sched.push_back((int) i);
    if (sched.empty()) { fprintf(stderr, "no worlds\n"); return 2; }
    { // interleave shares deterministically
        Rng r(42); for (size_t i = sched.size(); i > 1; --i) std::swap(sched[i - 1], sched[r.below(i)]);
    }
    if (opt.count("gen")) { uint64_t idx = strtoull(opt["gen"].c_str(), nullptr, 10); const WorldDef& w = worlds()[(size_t) sched[idx % sched.size()]]; fputs(to_text(generate(w, run_seed(seed, idx)), w, "").c_str(), stdout); return 0; }
    uint64_t nruns = opt.count("runs") ? strtoull(opt["runs"].c_str(), nullptr, 10) : 100000;
    if (opt.count("hashes")) {          // determinism log: one line per run
        Result* shm = new_shm();
        uint64_t from = opt.count("from") ? strtoull(opt["from"].c_str(), nullptr, 10) : 0;
        for (uint64_t idx = from; idx < from + nruns; ++idx) { const WorldDef& w = worlds()[(size_t) sched[idx % sched.size()]]; Script s = generate(w, run_seed(seed, idx)); run_forked(w, s, shm);
            uint64_t sh = 0; for (uint32_t i = 0; i < shm->nstates; ++i) sh = mix64(sh + shm->states[i]);
            printf("%llu %s %d %s %016llx %llu %016llx\n", (unsigned long long) idx, w.name, shm->status, shm->cls, (unsigned long long) shm->hash, (unsigned long long) shm->steps, (unsigned long long) sh); }
        return 0;
    }
    double wall = opt.count("wall") ? atof(opt["wall"].c_str()) : 60; int W = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
    if (opt.count("watchdog")) watchdog_s = atoi(opt["watchdog"].c_str());
    printf("seed %llu property %s tier %s worlds %zu runs<=%llu wall<=%.0fs workers %d\n", (unsigned long long) seed, prop.c_str(), tier.c_str(), worlds().size(), (unsigned long long) nruns, wall, W);
    fflush(stdout);
    stopline = (StopLine*) mmap(nullptr, sizeof(StopLine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); stopline->first = ~0ull;
    double t0 = now_s(); std::vector<std::pair<pid_t, FILE*>> ws;
    for (int i = 0; i < W; ++i) {
        FILE* f = tmpfile(); if (!f) { perror("tmpfile"); return 2; }
        pid_t p = fork(); if (p == 0) { worker(i, W, seed, nruns, t0 + wall, f); _exit(0); }
        ws.push_back({ p, f });
    }
    Agg a; bool bad = false;
    for (auto& [p, f] : ws) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad = true; continue; } rewind(f); merge(a, f); fclose(f); }
    double el = now_s() - t0;
    if (bad) { fprintf(stderr, "worker died\n"); return 2; }
    if (a.errors) { fprintf(stderr, "%llu runs ended abnormally (killed)\n", (unsigned long long) a.errors); if (a.viols.empty()) return 2; }
    std::sort(a.viols.begin(), a.viols.end(), [](const Viol& x, const Viol& y) { return x.idx < y.idx; });

    int rc = 0; std::string vio_json;
    if (!a.viols.empty()) {
        Result* shm = new_shm(); rc = 2; double tm0 = now_s(); int attempts = 0;
        for (auto& v : a.viols) {
            if (++attempts > 6 || now_s() - tm0 > 240) break;
            const WorldDef& w = worlds()[(size_t) v.world]; Script s = generate(w, run_seed(seed, v.idx)); int tried = 0;
            Script m = minimise(w, s, v.cls, shm, 60, tried);
            bool done = false;
            for (const Script* c : { &m, &s }) {
                run_forked(w, *c, shm); if (shm->status != 2) continue; uint64_t h1 = shm->hash; std::string c1 = shm->cls, m1 = shm->msg;
                run_forked(w, *c, shm); if (shm->status != 2 || shm->hash != h1 || c1 != shm->cls) continue;
                std::string dir = opt.count("replays") ? opt["replays"] : "replays"; mkdir(dir.c_str(), 0777);
                char fn[512]; snprintf(fn, sizeof fn, "%s/%s-%s-%016llx.replay", dir.c_str(), prop.c_str(), w.name, (unsigned long long) mix64(hash_of(to_text(*c, w, ""))));
                std::ofstream o(fn); o << to_text(*c, w, "property " + prop + "\nviolation " + c1 + "\n" + m1 + "\nbatch seed " + std::to_string(seed) + " run index " + std::to_string(v.idx) + " (" + std::to_string(s.ops.size()) + " steps before minimisation, " + std::to_string(tried) + " candidate runs)"); o.close();
                // fresh process
                char cmd[1200]; snprintf(cmd, sizeof cmd, "'%s' --replay '%s'", argv[0], fn); FILE* p = popen(cmd, "r"); std::string outp; char b[512]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) outp.append(b, k); pclose(p);
                char want[256]; snprintf(want, sizeof want, "REPLAY violation class=%s hash=%016llx", c1.c_str(), (unsigned long long) h1);
                if (outp.find(want) == std::string::npos) { fprintf(stderr, "fresh-process replay differs: %s (want %s)\n", outp.c_str(), want); continue; }
                printf("world %s run %llu class %s: %s\n", w.name, (unsigned long long) v.idx, c1.c_str(), m1.c_str());
                printf("minimised from %zu to %zu steps\n", s.ops.size(), c->ops.size());
                printf("VIOLATION property=%s replay=%s\n", prop.c_str(), fn);
                vio_json = std::string(", \"violation\": {\"world\": \"") + w.name + "\", \"class\": \"" + jesc(c1) + "\", \"message\": \"" + jesc(m1) + "\", \"replay\": \"" + jesc(fn) + "\"}";
                rc = 1; done = true; break;
            }
            if (done) break;
        }
        // The watchdog (CPU time) is the one verdict that depends on the machine; a change that does not terminate hits it again in a fresh process.
        if (rc == 2 && std::all_of(a.viols.begin(), a.viols.end(), [](const Viol& x) { return x.cls == "no-progress-watchdog"; })) { fprintf(stderr, "note: %zu watchdog hits, none repeated in a fresh process: machine noise, not a verdict\n", a.viols.size()); rc = 0; }
        if (rc == 2) fprintf(stderr, "violations seen but none passed the reproduction gate (first: %s %s)\n", a.viols[0].cls.c_str(), a.viols[0].msg.c_str());
    }
    if (opt.count("evidence")) {
        std::ofstream o(opt["evidence"]);
        std::set<std::string> real, stub; for (auto& w : worlds()) { if (*w.real) real.insert(w.real); if (*w.stub) stub.insert(w.stub); }
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << el << ",\n \"coverage\": {\n";
        o << "  \"evaluations\": " << a.runs << ",\n  \"distinct_nontrivial\": " << a.nontriv.size() << ",\n";
        o << "  \"rule\": \"one evaluation = one simulated run (one seed -> one script of operations, client switches, environment choices and faults, executed in its own process). Non-trivial = at least 2 operations executed and at least 2 reference-model states reached; distinct = distinct event-log hash (operations and every observed result).\",\n";
        o << "  \"simulated_runs_per_hour\": " << (uint64_t) (double(a.runs) / el * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t) (double(a.runs) / el * 3600) << ",\n";
        o << "  \"operations\": " << a.ops << ",\n  \"simulated_steps\": " << a.steps << ",\n  \"simulated_clock_seconds\": " << double(a.sim_ns) * 1e-9 << ",\n";
        o << "  \"simulated_time_note\": \"logical time: one step per entropy draw, user callback, stream refill and scheduled operation; simulated_clock_seconds is nonzero only where a clock is read\",\n";
        o << "  \"distinct_states\": " << a.states.size() << ",\n  \"distinct_states_measure\": \"distinct reference-model state hashes per world (capped at 1.5M per worker)\",\n";
        o << "  \"distinct_histories\": " << a.hist.size() << ",\n  \"runs_with_faults\": " << a.fault_runs << ",\n";
        o << "  \"faults_fired\": " << jmap(a.faults) << ",\n  \"probes\": " << jmap(a.probes) << ",\n  \"runs_per_world\": " << jmap(a.wruns) << ",\n  \"operations_per_world\": " << jmap(a.wops) << ",\n";
        o << "  \"real_components\": ["; bool f = true; for (auto& s : real) { o << (f ? "" : ", ") << "\"" << jesc(s) << "\""; f = false; } o << "],\n";
        o << "  \"stub_components\": [\"entropy source\", \"heap allocator\", \"clocks\""; for (auto& s : stub) o << ", \"" << jesc(s) << "\""; o << "],\n";
        o << "  \"samples\": ["; f = true;
        for (uint64_t idx = 0, got = 0; idx < sched.size() * 3 && got < 3; idx += std::max<size_t>(1, sched.size() / 3)) { const WorldDef& w = worlds()[(size_t) sched[idx % sched.size()]]; std::string t = to_text(generate(w, run_seed(seed, idx)), w, "run index " + std::to_string(idx)); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; o << (f ? "" : ", ") << "\"" << jesc(t) << "\""; f = false; ++got; }
        o << "]" << vio_json << "\n }\n}\n";
    }
    printf("%s: %llu runs, %llu ops, %zu distinct histories, %zu states, %.1fs\n", rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR", (unsigned long long) a.runs, (unsigned long long) a.ops, a.hist.size(), a.states.size(), el);
    return rc;
}
} // namespace sim

// =================================================================== interposed symbols
void* operator new(size_t n) { return sim::do_new(n, 16); }
void* operator new[](size_t n) { return sim::do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n, 16); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }

namespace std { namespace chrono { inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept { return time_point(duration(sim::read_wall())); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sim::read_mono())); }
} } }
extern "C" {
    int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
        if (!sim::active) return (int) syscall(SYS_clock_gettime, id, ts);
        int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? sim::read_wall() : sim::read_mono();
        ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
    }
    int gettimeofday(struct timeval* tv, void*) noexcept { int64_t v = sim::read_wall(); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
    time_t time(time_t* t) noexcept { time_t v = (time_t) (sim::read_wall() / 1000000000); if (t) *t = v; return v; }
    clock_t clock() noexcept { return (clock_t) (sim::read_mono() / 1000); }
    void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
        if (sim::R && sim::active) { char b[600]; const char* s = strrchr(f, '/'); snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, s ? s + 1 : f, l); char cl[90]; snprintf(cl, sizeof cl, "assert: %s", e); sim::die(2, cl, b); }
        fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort();
    }
}
namespace std { void __glibcxx_assert_fail_dummy(); }

int main(int argc, char** argv) { return sim::main_entry(argc, argv); }
