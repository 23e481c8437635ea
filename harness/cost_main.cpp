// Costs (C19): comparator, hash and key-equality evaluations and element operations of single calls after adversarial histories.
// -DORD -DHCC= -DHST= [-DSETK] | -DHSH -DHMODE= -DHBM= [-DSETK] | -DPSEQ -DHK=
#include "core.hpp"
#include <algorithm>
#include <map>
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
namespace h
{
namespace fc = fixed_containers;
long long g_cmp, g_hash, g_el;
// an element whose every construction, assignment and destruction is counted
struct CE
{
    int v;
    CE(int x = 0) : v(x) { g_el++; }
    CE(const CE& o) : v(o.v) { g_el++; }
    CE(CE&& o) noexcept : v(o.v) { g_el++; }
    CE& operator=(const CE& o) { g_el++; v = o.v; return *this; }
    CE& operator=(CE&& o) noexcept { g_el++; v = o.v; return *this; }
    ~CE() { g_el++; }
    bool operator==(const CE& o) const { return v == o.v; }
};
int* g_met = nullptr;      // stored keys met by the current search
int g_nmet, g_probe;
struct Lt
{
    bool operator()(const CE& a, const CE& b) const
    {
        g_cmp++;
        if (g_met)
        {
            const int o = a.v == g_probe ? b.v : a.v;
            int i = 0;
            while (i < g_nmet && g_met[i] != o) i++;
            if (i == g_nmet && g_nmet < 4096) g_met[g_nmet++] = o;
        }
        return a.v < b.v;
    }
};
struct EqK { bool operator()(const CE& a, const CE& b) const { g_cmp++; return a.v == b.v; } };
template <int MODE> constexpr std::uint64_t hash_of(int v)
{
    const auto x = static_cast<std::uint64_t>(v);
    if (MODE == 0) return 0;                                          // one group
    if (MODE == 1) return x << 8 | (x & 0xff);                        // every key a bucket of its own
    if (MODE == 2) return fc::wyhash::hash<std::uint64_t>{}(x / 8);   // groups of eight, well spread
    return fc::wyhash::hash<std::uint64_t>{}(x);                      // well spread
}
template <int MODE> struct Hc { std::uint64_t operator()(const CE& a) const { g_hash++; return hash_of<MODE>(a.v); } };

struct Cost { std::string t; int cap; };
// one measured call
template <class F>
K measure(const Cost& c, const char* op, long long n, long long par, F&& f, const std::string& how)
{
    g_cmp = g_hash = g_el = 0;
    const K k = guarded(f);
    std::string l = "{\"t\":\"" + c.t + "\",\"c\":" + std::to_string(c.cap) + ",\"o\":\"" + op + "\",\"k\":\"" + kname(k) + "\",\"n\":" + std::to_string(n) + ",\"p\":" +
                    std::to_string(par) + ",\"cmp\":" + std::to_string(g_cmp) + ",\"hash\":" + std::to_string(g_hash) + ",\"el\":" + std::to_string(g_el) + "}";
    g_rec.line(k, std::move(l), c.t, [&] { return how; });
    g_rec.per_variant[c.t + "/" + std::to_string(c.cap)]++;
    return k;
}
template <class C>
concept IsMap = requires { typename C::mapped_type; };

// GROUP(v): how many stored keys hash as v does (hashed), 0 otherwise
template <class C, int MODE, bool HASHED>
struct Assoc
{
    Cost id;
    std::unique_ptr<C> c = std::make_unique<C>();
    std::map<int, bool> in;
    std::unordered_map<std::uint64_t, int> grp;
    std::string how;
    Rng g{1};
    bool ok = true;
    int rot = 0;
    long long group(int v) { if (!HASHED) return 0; auto it = grp.find(hash_of<MODE>(v)); return it == grp.end() ? 0 : it->second; }
    long long n() const { return static_cast<long long>(in.size()); }
    long long m(const char* op, int v, auto&& f)
    {
        if (!ok) return 0;
        const CE key(v);
        const K k = measure(id, op, n(), group(v), [&] { f(key); }, how);
        if (k != K::ok) ok = false;
        return g_cmp;
    }
    void put(int v)
    {
        if (!in.count(v) && n() == id.cap) return;
        const int r = rot++ % 6;
        if constexpr (IsMap<C>)
            m("insert", v, [&](const CE& k)
            {
                switch (r)
                {
                case 0: c->insert({k, 1}); break;
                case 1: c->try_emplace(k, 1); break;
                case 2: c->insert_or_assign(k, 1); break;
                case 3: (*c)[k] = 1; break;
                case 4: c->emplace(k, 1); break;
                default: c->insert(typename C::value_type(k, 2)); break;
                }
            });
        else
            m("insert", v, [&](const CE& k)
            {
                switch (r % 3)
                {
                case 0: c->insert(k); break;
                case 1: c->emplace(k); break;
                default: c->insert(CE(k)); break;
                }
            });
        if (in.try_emplace(v, true).second && HASHED) grp[hash_of<MODE>(v)]++;
    }
    void del(int v)
    {
        if (rot++ % 2 == 0 || !in.count(v)) m("erase", v, [&](const CE& k) { c->erase(k); });
        else
        {
            if (!ok) return;
            auto it = c->find(CE(v));
            m("erase_it", v, [&](const CE&) { c->erase(it); });
        }
        if (in.erase(v) && HASHED) if (--grp[hash_of<MODE>(v)] == 0) grp.erase(hash_of<MODE>(v));
    }
    long long look(int v)
    {
        const auto& cc = *c;
        bool has = false;
        long long k = m("find", v, [&](const CE& x) { has = cc.find(x) != cc.end(); });
        if (ok && has != (in.count(v) > 0)) { m("wrong", v, [&](const CE&) { fail(K::corrupt); }); }
        switch (g.below(8))
        {
        case 0: m("find", v, [&](const CE& x) { (void)cc.contains(x); }); break;
        case 1: m("find", v, [&](const CE& x) { (void)cc.count(x); }); break;
        case 2: if constexpr (IsMap<C>) { if (in.count(v)) m("find", v, [&](const CE& x) { (void)cc.at(x); }); } break;
        case 3: m("find", v, [&](const CE& x) { (void)c->find(x); }); break;
        default: break;
        }
        if constexpr (!HASHED)
            switch (g.below(6))
            {
            case 0: m("find", v, [&](const CE& x) { (void)cc.lower_bound(x); }); break;
            case 1: m("find", v, [&](const CE& x) { (void)cc.upper_bound(x); }); break;
            case 2: m("range", v, [&](const CE& x) { (void)cc.equal_range(x); }); break;
            default: break;
            }
        return k;
    }
    // how many stored keys the shortest and the longest search for an absent key meets (keys must be even)
    void balance()
    {
        if (!ok || in.empty()) return;
        static int seen[4096];
        long long mn = 1 << 30, mx = 0;
        auto one = [&](int v)
        {
            const CE key(v);
            g_met = seen; g_nmet = 0; g_probe = v;
            const K k = guarded([&] { (void)c->contains(key); });
            g_met = nullptr;
            if (k != K::ok) ok = false;
            mn = std::min<long long>(mn, g_nmet); mx = std::max<long long>(mx, g_nmet);
        };
        one(in.begin()->first - 1);
        for (auto& [v, b] : in) one(v + 1);
        const K k = ok ? K::ok : K::abort;
        std::string l = "{\"t\":\"" + id.t + "\",\"c\":" + std::to_string(id.cap) + ",\"o\":\"balance\",\"k\":\"" + kname(k) + "\",\"n\":" + std::to_string(n()) + ",\"p\":" +
                        std::to_string(mn) + ",\"cmp\":" + std::to_string(mx) + ",\"hash\":0,\"el\":0}";
        g_rec.line(k, std::move(l), id.t, [&] { return how; });
    }
    void churn(std::uint64_t seed)
    {
        const int N = id.cap;
        g = Rng(seed);
        for (int rd = 0; rd < 12; rd++)
        {
            restart("churn, balance observed after every call");
            const int span = rd % 3 == 0 ? N : rd % 3 == 1 ? 2 * N : 50 * N;
            const int phase = 1 + N * (1 + rd % 4);
            const int steps = N <= 40 ? 1500 : 8 * N;
            for (int i = 0; i < steps && ok; i++)
            {
                const bool fill = (i / phase) % 2 == 0;
                const int v = 2 * g.below(span);
                if (g.below(10) < (fill ? 7 : 3)) put(v);
                else if (!in.empty())
                {
                    auto it = in.lower_bound(v);
                    del(it == in.end() ? in.begin()->first : it->first);
                }
                if (N <= 100 || i % 20 == 0) balance();
            }
        }
        restart("ascending and descending, erased from either side, balance observed after every call");
        for (int rd = 0; rd < 4; rd++)
        {
            for (int i = 0; i < N; i++) { put(2 * (rd & 1 ? i : N - i)); if (N <= 100 || i % 20 == 0) balance(); }
            for (int i = 0; i < N; i++) { del((rd & 2 ? in.begin() : std::prev(in.end()))->first); if (N <= 100 || i % 20 == 0) balance(); }
        }
    }
    void sweep(int lo, int hi, int step) { for (int v = lo; v <= hi && ok; v += step) look(v); }
    void restart(const std::string& what) { how = what; c = std::make_unique<C>(); in.clear(); grp.clear(); ok = true; }

    void patterns(std::uint64_t seed)
    {
        const int N = id.cap;
        g = Rng(seed);
        const int chk = N <= 40 ? 1 : N / 12;
        auto probe = [&](int i) { if (i % chk == 0) sweep(-1, 2 * N + 1, N <= 40 ? 1 : 1 + N / 200); };
        restart("ascending, then a sliding window, then erased from the front");
        for (int i = 0; i < N; i++) { put(i); probe(i); }
        for (int i = 0; i < 2 * N; i++) { del(i); put(N + i); probe(i); }
        for (int i = 0; i < 3 * N; i++) { del(i); probe(i); }
        restart("descending, then a sliding window down, then erased from the back");
        for (int i = 0; i < N; i++) { put(3 * N - i); probe(i); }
        for (int i = 0; i < 2 * N; i++) { del(3 * N - i); put(2 * N - i); probe(i); }
        for (int i = 0; i < N; i++) { del(N - i); probe(i); }
        restart("organ pipe, every second erased, refilled");
        for (int i = 0; i < N; i++) { put(i % 2 ? N - i / 2 : i / 2); probe(i); }
        for (int i = 0; i < N; i += 2) { del(i); probe(i); }
        for (int i = 0; i < N; i += 2) { put(i); probe(i); }
        for (int i = N / 4; i < N; i++) { del(i); probe(i); }
        for (int i = 0; i < N; i++) { put(2 * N - i); probe(i); }
        restart("random churn");
        for (int i = 0; i < 6 * N; i++) { const int v = g.below(2 * N); if (g.below(2)) put(v); else del(v); probe(i); }
        restart("bit reversed, halves erased and refilled");
        for (int rd = 0; rd < 3; rd++)
        {
            for (int i = 0; i < N; i++) { unsigned b = 0; for (int q = 0; q < 11; q++) b |= ((i >> q) & 1u) << (10 - q); put(static_cast<int>(b)); }
            probe(0);
            for (int i = 0; i < 1024 && rd < 2; i++) del(rd == 0 ? i : 1024 + i);
            probe(0);
        }
        // an adversary: erase where searches are short, insert where they are long
        if constexpr (!HASHED)   // (against a hash table it would only find keys whose hashes partly coincide)
        {
            restart("adversary");
            const int span = 1 << 20;
            for (int i = 0; i < N; i++) put(g.below(span));
            const int rounds = N <= 64 ? 40 * N : 3 * N;
            for (int i = 0; i < rounds && ok; i++)
            {
                // sample
                int best = 0, worst = 0;
                long long bc = 1LL << 40, wc = -1;
                auto it = in.begin();
                if (n() > 24) std::advance(it, g.below(static_cast<int>(n()) - 20));
                for (int q = 0; q < 20 && it != in.end(); q++, ++it)
                {
                    const long long k = m("find", it->first, [&](const CE& x) { (void)c->contains(x); });
                    if (k < bc) { bc = k; best = it->first; }
                    if (k > wc) { wc = k; worst = it->first; }
                }
                if (n() >= N || g.below(3) == 0) del(best);
                put(worst + (g.below(2) ? 1 : -1));
                if (i % (N <= 64 ? 10 : N / 4 + 1) == 0) for (auto& [v, b] : std::map<int, bool>(in)) { look(v); look(v + 1); }
            }
            restart("adversary on the spine");
            for (int i = 0; i < N; i++) put(i * 64);
            for (int i = 0; i < rounds && ok && !in.empty(); i++)
            {
                // follow the longest search seen so far, thin out the rest
                int worst = in.begin()->first;
                long long wc = -1;
                int q = 0;
                const int stride = n() > 64 ? static_cast<int>(n()) / 48 : 1;
                for (auto it = in.begin(); it != in.end(); ++it, ++q)
                {
                    if (q % stride) continue;
                    const long long k = m("find", it->first, [&](const CE& x) { (void)c->contains(x); });
                    if (k > wc) { wc = k; worst = it->first; }
                }
                auto vic = in.begin();
                std::advance(vic, g.below(static_cast<int>(n())));
                if (vic->first != worst) del(vic->first);
                put(worst + 1 + g.below(3));
            }
            for (auto& [v, b] : std::map<int, bool>(in)) { look(v); look(v + 1); }
        }
    }
};
template <class C, int MODE, bool HASHED>
void go(const char* t, int cap)
{
    Assoc<C, MODE, HASHED> a{{t, cap}};
    const int rounds = cap <= 40 ? 6 : cap <= 300 ? 2 : 1;
    for (int i = 0; i < rounds * g_conf.scale; i++)
    {
        a.patterns(g_conf.seed * 1000 + i);
        if constexpr (!HASHED) a.churn(g_conf.seed * 1000 + i);
    }
    g_rec.paths += 7 * rounds;
}

// ---- sequences: how many elements a call touches
enum class Kind { vector, deque, list, cdeque, stack, queue, cqueue };
template <class C, Kind KD>
void sequences(const char* t, int cap)
{
    Cost id{t, cap};
    Rng g(g_conf.seed * 31 + cap);
    for (int rd = 0; rd < 4 * g_conf.scale; rd++)
    {
        auto c = std::make_unique<C>();
        bool ok = true;
        auto m = [&](const char* op, long long p, auto&& f)
        {
            if (!ok) return;
            if (measure(id, op, static_cast<long long>(c->size()), p, f, "random calls") != K::ok) ok = false;
        };
        g_rec.paths++;
        for (int i = 0; i < 6 * cap && ok; i++)
        {
            const int n = static_cast<int>(c->size());
            const int r = g.below(12);
            const bool full = n == cap && KD != Kind::cdeque && KD != Kind::cqueue;
            if constexpr (KD == Kind::stack || KD == Kind::queue || KD == Kind::cqueue)
            {
                if (r < 4 && !full) m("push", 0, [&] { c->push(CE(i)); });
                else if (r < 6 && !full) m("push", 0, [&] { c->emplace(i); });
                else if (n > 0) m("pop", 0, [&] { c->pop(); });
                if (c->size() > 0) m("peek", 0, [&] { if constexpr (KD == Kind::stack) (void)c->top(); else { (void)c->front(); (void)c->back(); } });
            }
            else
            {
                constexpr bool front = KD != Kind::vector;
                const bool rising = (i / cap) % 2 == 0;
                if (full) { if (g.below(2)) m("pop", 0, [&] { c->pop_back(); }); }
                else if (r < (rising ? 6 : 2))
                {
                    switch (g.below(front ? 4 : 2))
                    {
                    case 0: m("push", 0, [&] { c->push_back(CE(i)); }); break;
                    case 1: m("push", 0, [&] { c->emplace_back(i); }); break;
                    case 2: if constexpr (front) m("push", 0, [&] { c->push_front(CE(i)); }); break;
                    default: if constexpr (front) m("push", 0, [&] { c->emplace_front(i); }); break;
                    }
                }
                else if (r == 6)
                {
                    const int p = g.below(n + 1);
                    auto it = std::next(c->begin(), p);
                    const CE x(i);
                    m("insert1", n - p, [&] { c->insert(it, x); });
                }
                else if (r == 7 && n > 0)
                {
                    const int p = g.below(n);
                    auto it = std::next(c->begin(), p);
                    m("erase1", n - p, [&] { c->erase(it); });
                }
                else if (n > 0)
                {
                    if (g.below(2) == 0) m("pop", 0, [&] { c->pop_back(); });
                    else if constexpr (front) m("pop", 0, [&] { c->pop_front(); });
                }
                if (c->size() > 0)
                {
                    m("peek", 0, [&] { (void)c->front(); (void)c->back(); (void)c->size(); (void)c->begin(); });
                    if constexpr (requires { (*c)[0]; }) m("peek", 0, [&] { (void)(*c)[static_cast<std::size_t>(g.below(static_cast<int>(c->size())))]; });
                }
            }
        }
    }
}
}  // namespace h
using namespace h;
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
#if defined(ORD)
    constexpr auto CC = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::HCC;
#ifdef SETK
#define MK(N) go<fc::FixedSet<CE, N, Lt, CC, fc::HST>, 0, false>("set", N)
#else
#define MK(N) go<fc::FixedMap<CE, CE, N, Lt, CC, fc::HST>, 0, false>("map", N)
#endif
    MK(7); MK(15); MK(33); MK(100); MK(300); MK(1000);
    if (g_conf.scale > 1) MK(4000);
#elif defined(HSH)
#ifdef SETK
#define MK(N) go<fc::FixedUnorderedSet<CE, N, Hc<HMODE>, EqK, HBM == 0 ? 2 * N : N>, HMODE, true>("uset", N)
#else
#define MK(N) go<fc::FixedUnorderedMap<CE, CE, N, Hc<HMODE>, EqK, HBM == 0 ? 2 * N : N>, HMODE, true>("umap", N)
#endif
    MK(7); MK(15); MK(33); MK(100);
    if (HMODE != 0) { MK(300); MK(1000); }
#else
#define SQ(N) \
    if constexpr (Kind::HK == Kind::vector) sequences<fc::FixedVector<CE, N>, Kind::vector>("vector", N); \
    else if constexpr (Kind::HK == Kind::deque) sequences<fc::FixedDeque<CE, N>, Kind::deque>("deque", N); \
    else if constexpr (Kind::HK == Kind::list) sequences<fc::FixedList<CE, N>, Kind::list>("list", N); \
    else if constexpr (Kind::HK == Kind::cdeque) sequences<fc::FixedCircularDeque<CE, N>, Kind::cdeque>("cdeque", N); \
    else if constexpr (Kind::HK == Kind::stack) sequences<fc::FixedStack<CE, N>, Kind::stack>("stack", N); \
    else if constexpr (Kind::HK == Kind::queue) sequences<fc::FixedQueue<CE, N>, Kind::queue>("queue", N); \
    else sequences<fc::FixedCircularQueue<CE, N>, Kind::cqueue>("cqueue", N)
    SQ(8); SQ(60); SQ(400);
#endif
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
