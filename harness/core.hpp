// Harness core: runs calls on real containers under a guard, records every step
// (abstract value, call, verdict, result, next abstract value) for validation by TLC.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/resource.h>
#include <sys/time.h>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <vector>

#include "fixed_containers/source_location.hpp"
#include "fixed_containers/string_literal.hpp"

namespace h
{
// ------------------------------------------------------------------ the harness's own dynamic memory, told apart from the containers'
inline long long g_allocs = 0;      // every allocation of the program (counted only by programs that replace operator new)
inline long long g_own_allocs = 0;  // those of the harness itself
template <class T>
struct HAlloc
{
    using value_type = T;
    constexpr HAlloc() = default;
    template <class U> constexpr HAlloc(const HAlloc<U>&) {}
    constexpr T* allocate(std::size_t n) { if (!std::is_constant_evaluated()) g_own_allocs++; return std::allocator<T>{}.allocate(n); }
    constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    template <class U> constexpr bool operator==(const HAlloc<U>&) const { return true; }
};
template <class T> using HV = std::vector<T, HAlloc<T>>;
using HStr = std::basic_string<char, std::char_traits<char>, HAlloc<char>>;
using Vec = HV<int>;
// everything allocated while one is in scope is the harness's own
struct Own
{
    long long a = g_allocs, o = g_own_allocs;
    ~Own() { g_own_allocs = o + (g_allocs - a); }
};

// ------------------------------------------------------------------ hashing of call names
constexpr std::uint64_t H(const char* s)
{
    std::uint64_t x = 1469598103934665603ULL;
    for (; *s; ++s) { x ^= static_cast<unsigned char>(*s); x *= 1099511628211ULL; }
    return x;
}

// ------------------------------------------------------------------ JSON fragments
struct Js
{
    HStr b;
    constexpr void sep() { if (!b.empty() && b.back() != '[') b += ','; }
    constexpr Js& open() { sep(); b += '['; return *this; }
    constexpr Js& close() { b += ']'; return *this; }
    constexpr Js& i(long long v)
    {
        sep();
        char t[24] = {};
        int n = 0;
        const bool neg = v < 0;
        unsigned long long u = neg ? 0ULL - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
        do { t[n++] = static_cast<char>('0' + u % 10); u /= 10; } while (u != 0);
        if (neg) b += '-';
        while (n > 0) b += t[--n];
        return *this;
    }
    constexpr Js& vec(const Vec& v) { open(); for (int x : v) i(x); return close(); }
    constexpr void reset() { b.clear(); }
};
constexpr std::string js(const Vec& v) { Js j; j.vec(v); return std::string(j.b); }

// ------------------------------------------------------------------ calls
struct Op
{
    std::string_view name;      // interned
    std::uint64_t id = 0;
    int a[6] = {0, 0, 0, 0, 0, 0};
    int na = 0;
    std::string json() const
    {
        std::string r = "[\"" + std::string(name) + "\"";
        for (int i = 0; i < na; i++) { r += ','; r += std::to_string(a[i]); }
        return r + "]";
    }
};
struct Sig { std::string_view name; std::uint64_t id; std::string sorts; };
inline std::string_view intern(const std::string& s) { static std::set<std::string> pool; return *pool.insert(s).first; }

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
};

// ------------------------------------------------------------------ guard
enum class K { ok, length_error, out_of_range, empty, invalid, abort, crash, hang, canary, corrupt, missing, duplicate };
inline const char* kname(K k)
{
    switch (k)
    {
    case K::ok: return "ok";
    case K::length_error: return "length_error";
    case K::out_of_range: return "out_of_range";
    case K::empty: return "empty";
    case K::invalid: return "invalid";
    case K::abort: return "abort";
    case K::crash: return "crash";
    case K::hang: return "hang";
    case K::canary: return "wrote_outside";
    case K::missing: return "missing_entries";
    case K::duplicate: return "duplicate_entries";
    default: return "corrupt";
    }
}
inline jmp_buf g_jb;
inline volatile sig_atomic_t g_armed = 0;
inline volatile K g_kind = K::ok;
inline volatile unsigned long g_epoch = 0, g_seen = 0;
inline volatile int g_ticks = 0;
inline volatile long g_cpu = 0, g_cpu_stop = 1L << 60;  // ticks used; half of the CPU limit
inline volatile int g_slow = 0;  // calls that used 300 ms of CPU or more
inline int g_hang_ticks = 15;  // x 100ms
inline std::string* g_doing = nullptr;

[[noreturn]] inline void fail(K k)
{
    if (!g_armed)
    {
        // outside a guarded call: the harness itself failed
        std::fprintf(stderr, "harness: unguarded failure %s\n", kname(k));
        _exit(3);
    }
    g_kind = k;
    g_armed = 0;
    _longjmp(g_jb, 1);
}
inline void on_signal(int sig)
{
    if (sig == SIGPROF)
    {
        g_cpu = g_cpu + 1;
        if (!g_armed) { g_ticks = 0; return; }
        if (g_seen != g_epoch) { g_seen = g_epoch; g_ticks = 0; return; }
        g_ticks = g_ticks + 1;
        if (g_ticks == 3) g_slow = g_slow + 1;
        if (g_ticks < g_hang_ticks) return;
        g_ticks = 0;
        fail(K::hang);
    }
    if (sig == SIGABRT) fail(K::abort);
    fail(K::crash);
}
alignas(16) inline unsigned char g_altstack[1 << 16];
inline void install_signals()
{
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
    rlimit rl{};
    if (getrlimit(RLIMIT_CPU, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY) g_cpu_stop = static_cast<long>(rl.rlim_cur) * 5;
    itimerval tv{};
    tv.it_interval.tv_usec = 100000;
    tv.it_value.tv_usec = 100000;
    setitimer(ITIMER_PROF  /* CPU time: a loaded machine is not a hang */, &tv, nullptr);
}
template <class F>
[[gnu::noinline]] K guarded(F&& f)
{
    g_kind = K::ok;
    g_epoch = g_epoch + 1;
    if (_setjmp(g_jb) == 0)
    {
        g_armed = 1;
        f();
        g_armed = 0;
        return K::ok;
    }
    g_armed = 0;
    return g_kind;
}

// ------------------------------------------------------------------ checking policies
using Loc = fixed_containers::std_transition::source_location;
struct SeqChk
{
    [[noreturn]] static void out_of_range(std::size_t, std::size_t, const Loc&) { fail(K::out_of_range); }
    [[noreturn]] static void length_error(std::size_t, const Loc&) { fail(K::length_error); }
    [[noreturn]] static void empty_container_access(const Loc&) { fail(K::empty); }
    [[noreturn]] static void invalid_argument(const fixed_containers::StringLiteral&, const Loc&) { fail(K::invalid); }
};
struct SeqChk2 : SeqChk {};
template <class Key>
struct MapChk
{
    [[noreturn]] static void out_of_range(const Key&, std::size_t, const Loc&) { fail(K::out_of_range); }
    [[noreturn]] static void length_error(std::size_t, const Loc&) { fail(K::length_error); }
    [[noreturn]] static void invalid_argument(const fixed_containers::StringLiteral&, const Loc&) { fail(K::invalid); }
};
template <class Key>
struct SetChk
{
    [[noreturn]] static void out_of_range(const Key&, std::size_t, const Loc&) { fail(K::out_of_range); }
    [[noreturn]] static void length_error(std::size_t, const Loc&) { fail(K::length_error); }
    [[noreturn]] static void invalid_argument(const fixed_containers::StringLiteral&, const Loc&) { fail(K::invalid); }
};

template <class Key> struct MapChk2 : MapChk<Key> {};
template <class Key> struct SetChk2 : SetChk<Key> {};
template <class Key>
struct EnumMapChk
{
    [[noreturn]] static void out_of_range(const Key&, std::size_t, const Loc&) { fail(K::out_of_range); }
    [[noreturn]] static void missing_enum_entries(const Loc&) { fail(K::missing); }
    [[noreturn]] static void duplicate_enum_entries(const Loc&) { fail(K::duplicate); }
};

// an argument far beyond any capacity
constexpr std::size_t far_(int d) { return d == 0 ? ~std::size_t{0} : d == 1 ? std::size_t{1} << 63 : std::size_t{1} << 32; }

// ------------------------------------------------------------------ recording
struct Recorder
{
    std::unordered_map<std::string, int> seen;  // unique steps
    std::ofstream out, meta;
    long long executed = 0;
    long long paths = 0;
    std::map<std::string, long long> per_variant;
    std::map<std::string, long long> notes;
    std::size_t limit = 4000000;
    bool mute = false;
    void open(const std::string& base)
    {
        out.open(base + ".ndjson");
        meta.open(base + ".meta");
    }
    // returns true if new
    template <class PathFn>
    bool rec(const char* t, int cap, const std::string& s, const std::string& o, K k, const std::string& r,
             const std::string& n, const std::string& variant, PathFn&& path)
    {
        std::string line;
        line.reserve(96 + s.size() + o.size() + r.size() + n.size());
        line += "{\"t\":\""; line += t;
        line += "\",\"c\":"; line += std::to_string(cap);
        line += ",\"s\":"; line += s;
        line += ",\"o\":"; line += o;
        line += ",\"k\":\""; line += kname(k);
        line += "\",\"r\":"; line += r;
        line += ",\"n\":"; line += n;
        line += "}";
        return this->line(k, std::move(line), variant, path);
    }
    template <class PathFn>
    bool line(K k, std::string line, const std::string& variant, PathFn&& path)
    {
        executed++;
        const bool stop = (k == K::hang && ++notes["hangs"] >= 3) || g_slow >= 12 || g_cpu > g_cpu_stop;
        if (mute && !stop) return false;
        auto [it, fresh] = seen.try_emplace(std::move(line), 0);
        if (!fresh) { if (stop) finish("hang or slow"); return false; }
        out << it->first << '\n';
        meta << variant << " | " << path() << '\n';
        if (stop) finish("hang or slow");
        return true;
    }
    [[noreturn]] void finish(const char* why)
    {
        std::printf("STOPPED %s\n", why);
        report();
        out.flush(); meta.flush();
        std::fflush(stdout);
        _exit(0);
    }
    void report()
    {
        std::printf("EXECUTED %lld\nUNIQUE %zu\nPATHS %lld\n", executed, seen.size(), paths);
        for (auto& [k, v] : per_variant) std::printf("VARIANT %s %lld\n", k.c_str(), v);
        for (auto& [k, v] : notes) std::printf("NOTE %s %lld\n", k.c_str(), v);
    }
};

struct Conf
{
    std::string out;
    std::uint64_t seed = 1;
    int scale = 1;          // effort multiplier
    std::string only;       // run only this variant
    std::map<std::string, std::vector<Sig>> sigs;  // per kind
    std::map<std::string, long long> num;
    long long get(const std::string& k, long long d) const
    {
        auto it = num.find(k);
        return it == num.end() ? d : it->second;
    }
};
inline Conf g_conf;
inline Recorder g_rec;

inline Conf parse(int argc, char** argv)
{
    Conf c;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
        if (k == "out") c.out = v;
        else if (k == "seed") c.seed = std::stoull(v);
        else if (k == "scale") c.scale = std::stoi(v);
        else if (k == "only") c.only = v;
        else if (k == "sigs")
        {
            std::ifstream f(v);
            std::string line;
            while (std::getline(f, line))
            {
                std::istringstream is(line);
                std::string kind, name, s;
                is >> kind >> name;
                Sig sg{intern(name), H(name.c_str()), ""};
                while (is >> s) sg.sorts += s;
                c.sigs[kind].push_back(sg);
            }
        }
        else c.num[k] = std::stoll(v);
    }
    return c;
}

// ------------------------------------------------------------------ enumeration of calls from signatures
inline bool dom(char sort, int NV, int cap, int len, int prev, int& lo, int& hi)
{
    switch (sort)
    {
    case 'v': lo = 0; hi = NV - 1; break;
    case 'p': lo = 0; hi = len; break;
    case 'e': lo = prev; hi = len; break;
    case 'i': lo = 0; hi = len - 1; break;
    case 'j': lo = 0; hi = len + 1; break;
    case 'n': case 'l': lo = 0; hi = cap + 1; break;
    case 'c': lo = 0; hi = cap; break;
    case 'm': lo = 0; hi = (1 << NV) - 1; break;
    case 'b': lo = 0; hi = 1; break;
    case 'd': lo = 0; hi = 2; break;
    case 'w': lo = 0; hi = 39; break;
    default: std::fprintf(stderr, "bad sort %c\n", sort); _exit(3);
    }
    return lo <= hi;
}
inline void fill(const Sig& sg, Op& op, int d, int NV, int cap, int len, std::vector<Op>& out)
{
    if (d == static_cast<int>(sg.sorts.size())) { op.na = d; out.push_back(op); return; }
    int lo, hi;
    if (!dom(sg.sorts[d], NV, cap, len, d > 0 ? op.a[d - 1] : 0, lo, hi)) return;
    for (int x = lo; x <= hi; x++) { op.a[d] = x; fill(sg, op, d + 1, NV, cap, len, out); }
}
inline std::vector<Op> ops_of(const std::vector<Sig>& sigs, int NV, int cap, int len)
{
    std::vector<Op> r;
    for (auto& sg : sigs) { Op op; op.name = sg.name; op.id = sg.id; fill(sg, op, 0, NV, cap, len, r); }
    return r;
}
inline bool random_op(const Sig& sg, Rng& g, int NV, int cap, int len, Op& op)
{
    op = Op{};
    op.name = sg.name; op.id = sg.id;
    for (std::size_t d = 0; d < sg.sorts.size(); d++)
    {
        int lo, hi;
        if (!dom(sg.sorts[d], NV, cap, len, d > 0 ? op.a[d - 1] : 0, lo, hi)) return false;
        // counts: bias to small values so that big containers are not always overflowed
        if ((sg.sorts[d] == 'n' || sg.sorts[d] == 'c') && hi > 6 && g.below(3) != 0) hi = 4;
        op.a[d] = lo + g.below(hi - lo + 1);
    }
    op.na = static_cast<int>(sg.sorts.size());
    return true;
}

// ------------------------------------------------------------------ a slot holding one container between canaries
template <class C>
struct Slot
{
    static constexpr std::size_t PAD = 64;
    static constexpr std::size_t AL = alignof(C) > 16 ? alignof(C) : 16;
    struct Buf
    {
        alignas(AL) unsigned char pre[(PAD + AL - 1) / AL * AL];
        alignas(AL) unsigned char obj[sizeof(C)];
        unsigned char post[PAD];
    };
    Buf* buf;
    bool alive = false;
    Slot() : buf(new Buf) { wipe(); }
    Slot(const Slot&) = delete;
    ~Slot() { if (alive) get().~C(); delete buf; }
    void wipe()
    {
        std::memset(buf->pre, 0xA5, sizeof(buf->pre));
        std::memset(buf->post, 0xA5, sizeof(buf->post));
        std::memset(buf->obj, 0, sizeof(buf->obj));
    }
    bool canaries() const
    {
        for (auto c : buf->pre) if (c != 0xA5) return false;
        for (auto c : buf->post) if (c != 0xA5) return false;
        return true;
    }
    C* raw() { return reinterpret_cast<C*>(buf->obj); }
    C& get() { return *reinterpret_cast<C*>(buf->obj); }
    const C& cget() const { return *reinterpret_cast<const C*>(buf->obj); }
};
}  // namespace h
