// Associative containers: how each abstract call of AssocOps.tla is performed on the real type.
#pragma once
#include "elems.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include <algorithm>
#include <iterator>
#include <type_traits>

namespace h
{
namespace fc = fixed_containers;
#ifdef DEFCHK
template <class K2, class V2, std::size_t N> using MapChkFor = fc::customize::MapAbortChecking<K2, V2, N>;
template <class K2, std::size_t N> using SetChkFor = fc::customize::SetAbortChecking<K2, N>;
template <class K2, class V2> using EnumMapChkFor = fc::customize::EnumMapAbortChecking<K2, V2>;
#else
template <class K2, class V2, std::size_t N> using MapChkFor = MapChk<K2>;
template <class K2, std::size_t N> using SetChkFor = SetChk<K2>;
template <class K2, class V2> using EnumMapChkFor = EnumMapChk<K2>;
#endif
constexpr int keys_for(int cap) { return cap <= 4 ? 4 : cap <= 9 ? cap + 1 : 24; }

// Enum-like key types: the expected order is written down here, independently of the library.
template <class T> struct EKeys;
template <class T>
concept EnumLike = requires { EKeys<T>::N; };
template <class T> constexpr T mkk(int k)
{
    if constexpr (EnumLike<T>) return EKeys<T>::at(k);
    else return mk<T>(k);
}
template <class T> constexpr int kval(const T& t)
{
    if constexpr (EnumLike<T>)
    {
        for (int i = 0; i < EKeys<T>::N; i++) if (EKeys<T>::at(i) == t) return i;
        return -5;
    }
    else return val(t);
}
template <class T> constexpr bool copyable_v = std::is_copy_constructible_v<T>;
template <class A, class B> struct ET<std::pair<A, B>> { static constexpr bool copyable = copyable_v<A> && copyable_v<B>; };
template <class T> requires EnumLike<T> struct ET<T> { static constexpr bool copyable = true, dflt = true; static constexpr const char* name = EKeys<T>::name; };

inline long long g_cmp = 0;   // comparator / equality invocations (used by the cost checks)
constexpr void tick() { if (!std::is_constant_evaluated()) g_cmp++; }

// ---- comparators. They carry run-time state whose default-constructed value is wrong on purpose.
struct Probe { int g; };
struct CmpLt
{
    template <class T> constexpr bool operator()(const T& a, const T& b) const { tick(); return kval(a) < kval(b); }
    static constexpr CmpLt make() { return {}; }
};
struct CmpGt
{
    int dir = 1;
    template <class T> constexpr bool operator()(const T& a, const T& b) const { tick(); return dir * kval(a) < dir * kval(b); }
    static constexpr CmpGt make() { return CmpGt{-1}; }
};
struct CmpHf
{
    int div = 1;
    template <class T> constexpr bool operator()(const T& a, const T& b) const { tick(); return kval(a) / div < kval(b) / div; }
    static constexpr CmpHf make() { return CmpHf{2}; }
};
struct CmpTr
{
    using is_transparent = void;
    template <class T> constexpr bool operator()(const T& a, const T& b) const { tick(); return kval(a) < kval(b); }
    template <class T> constexpr bool operator()(const T& a, const Probe& b) const { tick(); return kval(a) / 2 < b.g; }
    template <class T> constexpr bool operator()(const Probe& a, const T& b) const { tick(); return a.g < kval(b) / 2; }
    static constexpr CmpTr make() { return {}; }
};
// ---- hash functions: from constant to well spread; salt again has a wrong default
template <int MODE, int DIV>
struct Hs
{
    std::uint64_t salt = 99;
    template <class T> constexpr std::uint64_t operator()(const T& k) const
    {
        const std::uint64_t x = static_cast<std::uint64_t>(kval(k) / DIV) + (salt - 5);
        if (MODE == 0) return 0;                       // everything collides
        if (MODE == 1) return x << 8;                  // bucket = key, same fingerprint
        if (MODE == 2) return x & 0xff;                // one bucket, distinct fingerprints
        if (MODE == 3) return ~0ULL;                   // all ones
        if (MODE == 4) return 0 - (x << 7);            // descending, straddles the fingerprint boundary
        if (MODE == 5) return (x % 2) << 8 | x;        // two neighbouring buckets
        if (MODE == 6) return ((x * 7) << 8) | (0xff - (x & 0xff));
        return fc::wyhash::hash<std::uint64_t>{}(x);
    }
    static constexpr Hs make() { return Hs{5}; }
};
template <int DIV>
struct Eq
{
    int div = 1000;
    template <class T> constexpr bool operator()(const T& a, const T& b) const { tick(); return kval(a) / div == kval(b) / div; }
    static constexpr Eq make() { return Eq{DIV}; }
};

constexpr int code(bool map, int k, int v)
{
    if (k < 0 || k > 99 || v < 0 || v > 99) return -1000 - (k < 0 ? -k : k % 100) * 100 - (v < 0 ? -v : v % 100);
    return map ? k * 100 + v : k;
}

// CFG: C, Key, Mapped (void for sets), cap, nv, tname(), variant(), make() -> C&& ; flags HASHED, ENUM, TRANSPARENT
template <class CFG>
struct AssocA
{
    using C = typename CFG::C;
    using Cfg_ = CFG;
    using Kt = typename CFG::Key;
    using V = typename CFG::Mapped;
    static constexpr bool MAP = !std::is_void_v<V>;
    static constexpr int cap = CFG::cap;
    static constexpr int nv = CFG::nv;
    static constexpr int lw = logged_v<Kt> + logged_v<V>;
    static constexpr bool trivial = std::is_trivially_copyable_v<C>;
    static constexpr bool KCOPY = copyable_v<Kt>;
    static constexpr bool VCOPY = !MAP || copyable_v<std::conditional_t<MAP, V, int>>;
    static constexpr bool COPY = KCOPY && VCOPY;
    static constexpr bool VDFLT = MAP && std::is_default_constructible_v<std::conditional_t<MAP, V, int>>;
    static constexpr bool HASHED = CFG::HASHED, ENUM = CFG::ENUM, TRANSP = CFG::TRANSPARENT;
    using VT = typename C::value_type;
    static constexpr bool coarse = CFG::equiv(0, 1), descending = CFG::DESC;

    static constexpr bool copyable = COPY, ordered = CFG::ORDERED, stateful = !ENUM;
    template <class E> static constexpr int rcode(const E& e) { return ecode(e); }
    static constexpr bool has(const C& c, int k) { const Kt x = mkk<Kt>(k); return c.contains(x); }
    static const char* tname() { return CFG::tname(); }
    static std::string variant() { return CFG::variant(); }
    static constexpr C fresh() { return CFG::fresh(); }
    static constexpr void create(C* p) { CFG::create(p); }

    template <class E> static constexpr int ecode(const E& e)
    {
        if constexpr (MAP) return code(true, kval(e.first), val(e.second));
        else return code(false, kval(e), 0);
    }
    static constexpr void observe(C& c, Vec& out)
    {
        out.clear();
        int g = 0;
        const C& cc = c;
        for (auto it = cc.begin(); it != cc.end() && g < cap + 3; ++it, ++g) out.push_back(ecode(*it));
    }
    template <class It> static constexpr int pos_of(C& c, const It& it)
    {
        int k = 0;
        typename C::const_iterator w = it;
        for (typename C::const_iterator j = static_cast<const C&>(c).begin();; ++j, ++k)
        {
            if (j == w) return k;
            if (j == static_cast<const C&>(c).end() || k > cap + 2) return -99;
        }
    }
    static constexpr auto cit(C& c, int p) { auto it = static_cast<const C&>(c).begin(); while (p-- > 0) ++it; return it; }
    static constexpr auto mit(C& c, int p) { auto it = c.begin(); while (p-- > 0) ++it; return it; }

    static constexpr VT entry(int k, int v)
    {
        if constexpr (MAP) return VT(mkk<Kt>(k), mk<V>(v)); else { (void)v; return mkk<Kt>(k); }
    }
    struct KV { int k, v; };
    static constexpr HV<KV> run(int k, int n, int b)
    {
        HV<KV> r;
        if (nv == 0) return r;
        for (int j = 0; j < n; j++) r.push_back({b == 0 ? (k + j) % nv : (k + (nv - 1) * j) % nv, (k + j + 1) % 2});
        return r;
    }
    template <class F> static constexpr void with_run(const char* sfx, int k, int n, int b, F&& f)
    {
        HV<VT> data;
        auto r = run(k, n, b);
        data.reserve(r.size() + 1);
        for (auto& e : r) data.push_back(entry(e.k, e.v));
        int cur = 0;
        const int len = static_cast<int>(data.size());
        if (sfx[0] == 'i') { f(InIt<VT>(data.data(), &cur, len), InIt<VT>()); return; }
        if constexpr (COPY) { const VT* p = data.data(); f(p, p + len); }
    }
    template <class F> static constexpr void with_il(int k, int n, int b, F&& f)
    {
        if constexpr (COPY)
        {
            auto r = run(k, n, b);
            auto e = [&](std::size_t j) { return entry(r[j].k, r[j].v); };
            switch (r.size())
            {
            case 0: f(std::initializer_list<VT>{}); break;
            case 1: f(std::initializer_list<VT>{e(0)}); break;
            case 2: f(std::initializer_list<VT>{e(0), e(1)}); break;
            case 3: f(std::initializer_list<VT>{e(0), e(1), e(2)}); break;
            case 4: f(std::initializer_list<VT>{e(0), e(1), e(2), e(3)}); break;
            case 5: f(std::initializer_list<VT>{e(0), e(1), e(2), e(3), e(4)}); break;
            default: std::fprintf(stderr, "il too long\n"); _exit(3);
            }
        }
    }
    static constexpr C made(int k, int n, int b)
    {
        C d(CFG::fresh());
        for (auto& e : run(k, n, b)) d.insert(entry(e.k, e.v));
        return d;
    }

    static bool supports(const Op& o)
    {
        const std::string f(o.name);
        auto ends = [&](const char* x) { return f.size() >= 3 && f.compare(f.size() - 3, 3, x) == 0; };
        if (ends("_il") && o.a[1] > 5) return false;
        if (!COPY)
        {
            static const std::set<std::string> need{"copy", "cassign", "self_assign", "copy_of", "copy_dup", "ctor_mk"};
            if (need.count(f) || ends("_ra") || ends("_il")) return false;
            if (!VCOPY) { static const std::set<std::string> nv_{"ins_c", "ioa_a", "ioa_c", "with_keys", "with_all", "with_all_il", "bld_c"}; if (nv_.count(f)) return false; }
            if (!KCOPY) { static const std::set<std::string> nk{"sins_c", "sins_h", "ins_c", "ins_m", "ins_in", "ctor_in", "ctor_cmp", "idx_c", "te_c", "te_h", "te_hm", "ste_c", "ste_h", "ioa_c", "ioa_h", "em_p", "em_pw", "cassign", "massign", "ioa_a", "bld_c"}; if (nk.count(f)) return false; }
        }
        if (MAP && !VDFLT) { static const std::set<std::string> no{"idx_c", "idx_m", "idx_set", "te_d"}; if (no.count(f)) return false; }
        return CFG::supports(f);
    }
    static bool sane(const Vec& n)
    {
        if (static_cast<int>(n.size()) > cap) return false;
        std::set<int> ks;
        for (int x : n)
        {
            if (x < 0) return false;
            const int k = MAP ? x / 100 : x;
            if (k >= nv || !ks.insert(k).second || (MAP && x % 100 > 1)) return false;
        }
        return true;
    }
    static bool is_ctor(const Op& o)
    {
        return o.name.compare(0, 4, "ctor") == 0 || o.name.compare(0, 4, "bld_") == 0 || o.name.compare(0, 8, "with_all") == 0 ||
               o.name == "all" || o.name == "none";
    }
    static Vec sorted(Vec v) { std::sort(v.begin(), v.end()); return v; }
    static bool arrived(const Vec& s, const Vec& t) { return sorted(s) == sorted(t); }
    static bool towards(const Vec& s, const Vec& target, Rng& g, Op& op)
    {
        auto set = [&](const char* n, int na, int x = 0, int y = 0) { op = Op{}; op.name = n; op.id = H(n); op.na = na; op.a[0] = x; op.a[1] = y; };
        auto in = [](const Vec& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
        Vec extra, missing;
        for (std::size_t i = 0; i < s.size(); i++) if (!in(target, s[i])) extra.push_back(static_cast<int>(i));
        for (int x : target) if (!in(s, x)) missing.push_back(x);
        if (!extra.empty())
        {
            const int i = extra[g.below(static_cast<int>(extra.size()))];
            if constexpr (MAP)
            {
                const int k = s[i] / 100, v = 1 - s[i] % 100;
                if (in(target, k * 100 + v) && g.below(2)) { set("at_set", 2, k, v); return true; }
                if (g.below(2)) set("erase_k", 1, k); else set("erase_cit", 1, i);
            }
            else { if (g.below(2)) set("erase_k", 1, s[i]); else set("erase_cit", 1, i); }
            return true;
        }
        if (missing.empty()) return false;
        const int m = missing[g.below(static_cast<int>(missing.size()))];
        if constexpr (MAP)
            switch (g.below(4))
            {
            case 0: set(KCOPY ? "ins_m" : "te_m", 2, m / 100, m % 100); break;
            case 1: set("te_m", 2, m / 100, m % 100); break;
            case 2: set("em_kv", 2, m / 100, m % 100); break;
            default: set(VDFLT ? "idx_set" : "te_m", 2, m / 100, m % 100); break;
            }
        else { if (g.below(2)) set("sins_m", 1, m); else set("sem", 1, m); }
        if (!CFG::supports(std::string(op.name))) { if constexpr (MAP) set("te_m", 2, m / 100, m % 100); else set("sins_m", 1, m); }
        return true;
    }
    static bool bias(const Op& o, bool shrinking, Rng& g)
    {
        auto has = [&](const char* x) { return o.name.find(x) != std::string::npos; };
        if (has("clear") || has("assign") || has("ctor") || has("_if") || has("erase_rng") || has("bld") || has("with_") || o.name == "all" ||
            o.name == "none" || has("complement"))
            return g.below(12) == 0;
        if (has("ins") || has("em") || has("te_") || has("ioa") || has("idx")) return !shrinking || g.below(3) == 0;
        if (has("erase")) return shrinking || g.below(4) == 0;
        return g.below(3) == 0;
    }
    // every abstract value (as a set of entries) within the capacity
    static std::vector<Vec> states()
    {
        std::vector<Vec> r;
        Vec cur;
        std::function<void(int)> go = [&](int k)
        {
            if (k == nv) { r.push_back(cur); return; }
            go(k + 1);
            if (static_cast<int>(cur.size()) >= cap) return;
            for (int x : cur) if (CFG::equiv(MAP ? x / 100 : x, k)) return;
            for (int v = 0; v < (MAP ? 2 : 1); v++) { cur.push_back(code(MAP, k, v)); go(k + 1); cur.pop_back(); }
        };
        go(0);
        return r;
    }

    template <class P> static constexpr void pf(C& c, Js& r, P&& p) { r.i(pos_of(c, p.first)).i(p.second ? 1 : 0); }
    // calls taking a hint return an iterator or a pair<iterator, bool>, depending on the container
    template <class P> static constexpr void pos_any(C& c, Js& r, P&& p)
    {
        if constexpr (requires { p.second; p.first == static_cast<const C&>(c).begin(); }) r.i(pos_of(c, p.first)); else r.i(pos_of(c, p));
    }

    template <std::size_t... I> static constexpr void factory(C& c, int k, int b, std::index_sequence<I...>)
    {
        auto go = [&](const auto& arr)
        {
            renew(c, [&]() -> C { return CFG::make_typed(arr); });
            auto d = CFG::make_deduced(arr);
            auto it = static_cast<const C&>(c).begin();
            bool same = d.size() == c.size() && d.max_size() == static_cast<std::size_t>(cap);
            for (auto j = d.begin(); same && j != d.end(); ++j, ++it) same = ecode(*j) == ecode(*it);
            if (!same) fail(K::corrupt);
        };
        auto r = run(k, cap, b);
        if constexpr (MAP)
        {
            using P = std::pair<Kt, V>;
            if constexpr (cap == 0) go(std::array<P, 0>{});
            else { const P arr[static_cast<std::size_t>(cap)] = {P(mkk<Kt>(r[I].k), mk<V>(r[I].v))...}; go(arr); }
        }
        else
        {
            if constexpr (cap == 0) go(std::array<Kt, 0>{});
            else { const Kt arr[static_cast<std::size_t>(cap)] = {mkk<Kt>(r[I].k)...}; go(arr); }
        }
    }
    static constexpr void apply(C& c, const Op& o, Js& r)
    {
        const C& cc = c;
        const int* a = o.a;
        auto key = [](int k) { return mkk<Kt>(k); };
        switch (o.id)
        {
        case H("copy"): if constexpr (COPY) { C t(cc); renew(c, [&] { return C(static_cast<const C&>(t)); }); } return;
        case H("move"): { C t(std::move(c)); renew(c, [&] { return C(std::move(t)); }); return; }
        case H("cassign"): if constexpr (COPY) { C d = made(a[0], a[1], a[2]); C& q = (c = static_cast<const C&>(d)); if (&q != &c) fail(K::corrupt); } return;
        case H("massign"): if constexpr (KCOPY) { C d = made(a[0], a[1], a[2]); C& q = (c = std::move(d)); if (&q != &c) fail(K::corrupt); } return;
        case H("self_assign"): if constexpr (COPY) { C& q = c; c = static_cast<const C&>(q); } return;
        case H("clear"): c.clear(); return;
        case H("ctor_in"): case H("ctor_ra"):
            if constexpr (KCOPY) with_run(o.name.data() + 5, a[0], a[1], a[2], [&](auto f, auto l) { renew(c, [&] { return CFG::fresh(f, l); }); }); return;
        case H("ctor_il"): if constexpr (COPY) with_il(a[0], a[1], a[2], [&](std::initializer_list<VT> il) { renew(c, [&] { return CFG::fresh(il); }); }); return;
        case H("ctor_cmp"): if constexpr (KCOPY) { renew(c, [&] { return CFG::fresh(); }); for (auto& e : run(a[0], a[1], a[2])) c.insert(entry(e.k, e.v)); } return;
        case H("ctor_mk"): if constexpr (COPY && !ENUM) factory(c, a[0], a[1], std::make_index_sequence<static_cast<std::size_t>(cap)>()); return;
        case H("ins_in"): case H("ins_ra"):
            if constexpr (KCOPY) with_run(o.name.data() + 4, a[0], a[1], a[2], [&](auto f, auto l) { c.insert(f, l); }); return;
        case H("ins_il"): if constexpr (COPY) with_il(a[0], a[1], a[2], [&](std::initializer_list<VT> il) { c.insert(il); }); return;
        case H("erase_cit"): r.i(pos_of(c, c.erase(cit(c, a[0])))); return;
        case H("erase_rng"): r.i(pos_of(c, c.erase(cit(c, a[0]), cit(c, a[1])))); return;
        case H("erase_k"): { const Kt k = key(a[0]); r.i(static_cast<long long>(c.erase(k))); return; }
        case H("erase_ka"):
            if constexpr (MAP) r.i(static_cast<long long>(c.erase((*cit(c, a[0])).first)));
            else r.i(static_cast<long long>(c.erase(*cit(c, a[0]))));
            return;
        case H("erase_if"):
            r.i(static_cast<long long>(fc::erase_if(c, [&](const auto& e) { return ((a[0] >> ((MAP ? ecode(e) / 100 : ecode(e)))) & 1) != 0; })));
            return;
        case H("find"): { const Kt k = key(a[0]); auto it = c.find(k); r.i(pos_of(c, it)); return; }
        case H("cfind"): { const Kt k = key(a[0]); auto it = cc.find(k); r.i(pos_of(c, it)); return; }
        case H("contains"): { const Kt k = key(a[0]); r.i(cc.contains(k)); return; }
        case H("views"): views(c, cc, r); return;
        case H("iters"): iters(c, cc, r); return;
        default: break;
        }
        if constexpr (!std::is_same_v<C, fc::EnumSet<Kt>>)
            if (o.id == H("count")) { const Kt k = key(a[0]); r.i(static_cast<long long>(cc.count(k))); return; }
        if constexpr (!HASHED && !ENUM)
        {
            switch (o.id)
            {
            case H("lb"): { const Kt k = key(a[0]); r.i(pos_of(c, c.lower_bound(k))); return; }
            case H("ub"): { const Kt k = key(a[0]); r.i(pos_of(c, c.upper_bound(k))); return; }
            case H("eqr"): { const Kt k = key(a[0]); auto p = c.equal_range(k); r.i(pos_of(c, p.first)).i(pos_of(c, p.second)); return; }
            case H("clb"): { const Kt k = key(a[0]); r.i(pos_of(c, cc.lower_bound(k))); return; }
            case H("cub"): { const Kt k = key(a[0]); r.i(pos_of(c, cc.upper_bound(k))); return; }
            case H("ceqr"): { const Kt k = key(a[0]); auto p = cc.equal_range(k); r.i(pos_of(c, p.first)).i(pos_of(c, p.second)); return; }
            default: break;
            }
        }
        if constexpr (TRANSP)
        {
            const Probe p{a[0]};
            switch (o.id)
            {
            case H("hfind"): r.i(pos_of(c, c.find(p))); return;
            case H("hcfind"): r.i(pos_of(c, cc.find(p))); return;
            case H("hcontains"): r.i(cc.contains(p)); return;
            case H("hcount"): r.i(static_cast<long long>(cc.count(p))); return;
            case H("hlb"): r.i(pos_of(c, c.lower_bound(p))); return;
            case H("hclb"): r.i(pos_of(c, cc.lower_bound(p))); return;
            case H("hub"): r.i(pos_of(c, c.upper_bound(p))); return;
            case H("hcub"): r.i(pos_of(c, cc.upper_bound(p))); return;
            case H("heqr"): { auto q = c.equal_range(p); r.i(pos_of(c, q.first)).i(pos_of(c, q.second)); return; }
            case H("hceqr"): { auto q = cc.equal_range(p); r.i(pos_of(c, q.first)).i(pos_of(c, q.second)); return; }
            default: break;
            }
        }
        if constexpr (MAP) map_ops(c, cc, o, r); else set_ops(c, cc, o, r);
    }

    static constexpr void map_ops(C& c, const C& cc, const Op& o, Js& r)
    {
        const int* a = o.a;
        auto key = [](int k) { return mkk<Kt>(k); };
        auto mv = [](int v) { return mk<V>(v); };
        switch (o.id)
        {
        case H("at"): { const Kt k = key(a[0]); r.i(val(c.at(k))); return; }
        case H("cat"): { const Kt k = key(a[0]); r.i(val(cc.at(k))); return; }
        case H("at_set"): { const Kt k = key(a[0]); c.at(k) = mv(a[1]); return; }
        case H("idx_c"): if constexpr (KCOPY && VDFLT) { const Kt k = key(a[0]); r.i(val(c[k])); } return;
        case H("idx_m"): if constexpr (VDFLT) r.i(val(c[key(a[0])])); return;
        case H("idx_set"): if constexpr (VDFLT) c[key(a[0])] = mv(a[1]); return;
        case H("set_it"): { auto it = mit(c, a[0]); it->second = mv(a[1]); return; }
        case H("ins_c"): if constexpr (COPY) { const VT e = entry(a[0], a[1]); pf(c, r, c.insert(e)); } return;
        case H("ins_m"): if constexpr (KCOPY) pf(c, r, c.insert(entry(a[0], a[1]))); return;
        case H("em_kv"): pf(c, r, c.emplace(key(a[0]), a[1])); return;
        case H("em_p"): if constexpr (KCOPY) pf(c, r, c.emplace(std::pair<Kt, V>(key(a[0]), mv(a[1])))); return;
        case H("em_pw"):
            if constexpr (!ENUM) pf(c, r, c.emplace(std::piecewise_construct, std::make_tuple(key(a[0])), std::make_tuple(a[1])));
            return;
        case H("em_h"): pos_any(c, r, c.emplace_hint(cit(c, a[0]), key(a[1]), a[2])); return;
        case H("te_c"): if constexpr (KCOPY) { const Kt k = key(a[0]); pf(c, r, c.try_emplace(k, a[1])); } return;
        case H("te_m"): pf(c, r, c.try_emplace(key(a[0]), mv(a[1]))); return;
        case H("te_d"): if constexpr (VDFLT) pf(c, r, c.try_emplace(key(a[0]))); return;
        case H("te_keep"):
        {
            Kt k = key(a[0]);
            V v = mv(a[1]);
            auto p = c.try_emplace(std::move(k), std::move(v));
            pf(c, r, p);
            if (!p.second) r.i(kval(k)).i(val(v));
            return;
        }
        case H("te_h"): if constexpr (KCOPY) { const Kt k = key(a[1]); pos_any(c, r, c.try_emplace(cit(c, a[0]), k, a[2])); } return;
        case H("te_hm"): if constexpr (!ENUM) pos_any(c, r, c.try_emplace(cit(c, a[0]), key(a[1]), mv(a[2]))); return;
        case H("ioa_c"): if constexpr (COPY) { const Kt k = key(a[0]); const V v = mv(a[1]); pf(c, r, c.insert_or_assign(k, v)); } return;
        case H("ioa_m"): pf(c, r, c.insert_or_assign(key(a[0]), mv(a[1]))); return;
        case H("ioa_h"): if constexpr (KCOPY) { const Kt k = key(a[1]); pos_any(c, r, c.insert_or_assign(cit(c, a[0]), k, mv(a[2]))); } return;
        case H("ioa_hm"): pos_any(c, r, c.insert_or_assign(cit(c, a[0]), key(a[1]), mv(a[2]))); return;
        case H("ioa_a"): if constexpr (COPY) { const Kt k = key(a[0]); pf(c, r, c.insert_or_assign(k, (*cit(c, a[1])).second)); } return;
        case H("erase_it"): r.i(pos_of(c, c.erase(mit(c, a[0])))); return;
        case H("erase_ifv"): r.i(static_cast<long long>(fc::erase_if(c, [&](const auto& e) { return val(e.second) == a[0]; }))); return;
        default: break;
        }
        if constexpr (ENUM) { if (CFG::extra(c, o, r)) return; }
        std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
    }
    static constexpr void set_ops(C& c, const C& cc, const Op& o, Js& r)
    {
        const int* a = o.a;
        (void)cc;
        auto key = [](int k) { return mkk<Kt>(k); };
        switch (o.id)
        {
        case H("sins_c"): if constexpr (KCOPY) { const Kt k = key(a[0]); pf(c, r, c.insert(k)); } return;
        case H("sins_m"): pf(c, r, c.insert(key(a[0]))); return;
        case H("sem"):
            if constexpr (ENUM || EnumLike<Kt>) pf(c, r, c.emplace(key(a[0]))); else pf(c, r, c.emplace(a[0]));
            return;
        case H("sins_h"): if constexpr (KCOPY) { const Kt k = key(a[1]); pos_any(c, r, c.insert(cit(c, a[0]), k)); } return;
        case H("sins_hm"): if constexpr (!ENUM) pos_any(c, r, c.insert(cit(c, a[0]), key(a[1]))); return;
        case H("sem_h"):
            if constexpr (ENUM || EnumLike<Kt>) pos_any(c, r, c.emplace_hint(cit(c, a[0]), key(a[1]))); else pos_any(c, r, c.emplace_hint(cit(c, a[0]), a[1]));
            return;
        case H("ste"): if constexpr (HASHED) pf(c, r, c.try_emplace(key(a[0]))); return;
        case H("ste_c"): if constexpr (HASHED && KCOPY) { const Kt k = key(a[0]); pf(c, r, c.try_emplace(k)); } return;
        case H("ste_h"): if constexpr (HASHED && KCOPY) { const Kt k = key(a[1]); pos_any(c, r, c.try_emplace(cit(c, a[0]), k)); } return;
        case H("ste_hm"): if constexpr (HASHED) pos_any(c, r, c.try_emplace(cit(c, a[0]), key(a[1]))); return;
        default: break;
        }
        if constexpr (ENUM) { if (CFG::extra(c, o, r)) return; }
        std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
    }

    template <class It> static constexpr int acode(const It& it)   // through operator->
    {
        if constexpr (MAP) return code(true, kval(it->first), val(it->second));
        else { const Kt* p = &*it; return code(false, kval(*p), 0); }
    }
    template <class B, class E> static constexpr void walk(Js& r, B b, E e)
    {
        r.open();
        int g = 0;
        for (; b != e && g < cap + 3; ++b, ++g) r.i(acode(b));
        r.close();
    }
    static constexpr void views(C& c, const C& cc, Js& r)
    {
        walk(r, c.begin(), c.end());
        walk(r, cc.cbegin(), cc.cend());
        if constexpr (!HASHED)
        {
            walk(r, c.rbegin(), c.rend());
            walk(r, cc.crbegin(), cc.crend());
        }
        r.open().i(static_cast<long long>(cc.size())).i(cc.empty()).i(static_cast<long long>(cc.max_size())).i(fc::is_full(cc)).close();
        if (C::static_max_size() != cc.max_size()) fail(K::corrupt);
    }
    static constexpr void iters(C& c, const C& cc, Js& r)
    {
        const int L = static_cast<int>(cc.size());
        r.open();
        for (int x = 0; x <= L; x++)
        {
            r.open();
            for (int y = 0; y <= L; y++)
            {
                auto i2 = cit(c, y);
                typename C::const_iterator i1 = mit(c, x);
                const bool eq = i1 == i2;
                r.i((i1 != i2) == eq ? 99 : eq);
            }
            r.close();
        }
        r.close();
        r.open(); { auto it = c.begin(); for (int x = 0; x < L; x++) { auto old = it++; r.i(ecode(*old)); } } r.close();
        if constexpr (HASHED) { r.open().close(); r.open().close(); }
        else
        {
            r.open(); { auto it = cc.end(); for (int x = 0; x < L; x++) { --it; r.i(ecode(*it)); } } r.close();
            r.open(); { auto it = c.rbegin(); for (int x = 0; x < L; x++) { auto old = it++; r.i(ecode(*old)); } } r.close();
        }
    }
};

// ------------------------------------------------------------------ configurations
struct CfgBase
{
    static constexpr bool HASHED = false, ENUM = false, TRANSPARENT = false, ORDERED = true, DESC = false;
    static bool supports(const std::string&) { return true; }
    static constexpr bool equiv(int a, int b) { return a == b; }
};
template <class T> const char* cmp_suffix()
{
    if constexpr (std::is_same_v<T, CmpLt>) return "lt";
    else if constexpr (std::is_same_v<T, CmpGt>) return "gt";
    else if constexpr (std::is_same_v<T, CmpHf>) return "hf";
    else return "tr";
}
template <class Kt, class Vt, std::size_t N, class Cmp, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness CC,
          template <class, std::size_t> class ST, bool ALT = false>
struct OrdCfg : CfgBase
{
    using Key = Kt;
    using Mapped = Vt;
    template <class X, bool M> struct Ty { using type = fc::FixedMap<Kt, X, N, Cmp, CC, ST, std::conditional_t<ALT, MapChk2<Kt>, MapChkFor<Kt, X, N>>>; };
    template <class X> struct Ty<X, false> { using type = fc::FixedSet<Kt, N, Cmp, CC, ST, std::conditional_t<ALT, SetChk2<Kt>, SetChkFor<Kt, N>>>; };
    static constexpr bool MAP = !std::is_void_v<Vt>;
    static constexpr bool pool = std::is_same_v<ST<int, 1>, fc::FixedIndexBasedPoolStorage<int, 1>>;
    static constexpr auto compactness = CC;
    using C = typename Ty<Vt, MAP>::type;
    static constexpr int cap = N, nv = keys_for(N);
    static constexpr bool TRANSPARENT = std::is_same_v<Cmp, CmpTr>, DESC = std::is_same_v<Cmp, CmpGt>;
    static constexpr bool equiv(int a, int b) { return std::is_same_v<Cmp, CmpHf> ? a / 2 == b / 2 : a == b; }
    static const char* tname() { static const std::string s = std::string(MAP ? "map_" : "set_") + cmp_suffix<Cmp>(); return s.c_str(); }
    static std::string variant()
    {
        std::string s = std::string(tname()) + "<" + ET<Kt>::name;
        if constexpr (MAP) s += std::string(",") + ET<Vt>::name;
        s += "," + std::to_string(N) + (CC == fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR ? ",embedded" : ",dedicated");
        s += std::is_same_v<ST<int, 1>, fc::FixedIndexBasedPoolStorage<int, 1>> ? ",pool>" : ",contiguous>";
        return s;
    }
    static constexpr C fresh() { return C(Cmp::make()); }
    static constexpr void create(C* p) { std::construct_at(p, Cmp::make()); }
    template <class It> static constexpr C fresh(It f, It l) { return C(f, l, Cmp::make()); }
    static constexpr C fresh(std::initializer_list<typename C::value_type> il) { return C(il, Cmp::make()); }
    template <class A> static constexpr auto make_typed(const A& arr)
    {
        using Chk = std::conditional_t<MAP, std::conditional_t<ALT, MapChk2<Kt>, MapChkFor<Kt, Vt, N>>, std::conditional_t<ALT, SetChk2<Kt>, SetChkFor<Kt, N>>>;
        if constexpr (MAP) return fc::make_fixed_map<Kt, Vt, Cmp, CC, ST, Chk>(arr, Cmp::make());
        else return fc::make_fixed_set<Kt, Cmp, CC, ST, Chk>(arr, Cmp::make());
    }
    template <class A> static constexpr auto make_deduced(const A& arr)
    {
        if constexpr (MAP) return fc::make_fixed_map(arr, Cmp::make());
        else return fc::make_fixed_set(arr, Cmp::make());
    }
};
// the bucket count the container picks when none is given
template <class T> struct Buckets;
template <class K2, class V2, std::size_t N, class H2, class E2, std::size_t B, class C2>
struct Buckets<fc::FixedUnorderedMap<K2, V2, N, H2, E2, B, C2>> { static constexpr std::size_t value = B; };
template <std::size_t N> constexpr std::size_t default_buckets = Buckets<fc::FixedUnorderedMap<int, int, N>>::value;
template <class Kt, class Vt, std::size_t N, class Hash, int DIV, std::size_t B, bool ALT = false>
struct HashCfg : CfgBase
{
    using Key = Kt;
    using Mapped = Vt;
    template <class X, bool M> struct Ty { using type = fc::FixedUnorderedMap<Kt, X, N, Hash, Eq<DIV>, B, std::conditional_t<ALT, MapChk2<Kt>, MapChkFor<Kt, X, N>>>; };
    template <class X> struct Ty<X, false> { using type = fc::FixedUnorderedSet<Kt, N, Hash, Eq<DIV>, B, std::conditional_t<ALT, SetChk2<Kt>, SetChkFor<Kt, N>>>; };
    static constexpr bool MAP = !std::is_void_v<Vt>;
    using C = typename Ty<Vt, MAP>::type;
    static constexpr int cap = N, nv = keys_for(N);
    static constexpr bool HASHED = true;
    static constexpr bool equiv(int a, int b) { return a / DIV == b / DIV; }
    static const char* tname() { return MAP ? (DIV == 1 ? "umap_eq" : "umap_hf") : (DIV == 1 ? "uset_eq" : "uset_hf"); }
    template <int M, int D> static constexpr int mode(const Hs<M, D>*) { return M; }
    static std::string variant()
    {
        std::string s = std::string(tname()) + "<" + ET<Kt>::name;
        if constexpr (MAP) s += std::string(",") + ET<Vt>::name;
        return s + "," + std::to_string(N) + ",hash" + std::to_string(mode(static_cast<Hash*>(nullptr))) + ",buckets" + std::to_string(B) + ">";
    }
    static constexpr C fresh() { return C(Hash::make(), Eq<DIV>::make()); }
    static constexpr void create(C* p) { std::construct_at(p, Hash::make(), Eq<DIV>::make()); }
    template <class It> static constexpr C fresh(It f, It l) { return C(f, l, Hash::make(), Eq<DIV>::make()); }
    static constexpr C fresh(std::initializer_list<typename C::value_type> il) { return C(il, Hash::make(), Eq<DIV>::make()); }
    template <class A> static constexpr auto make_typed(const A& arr)
    {
        using E = Eq<DIV>;
        using Chk = std::conditional_t<MAP, std::conditional_t<ALT, MapChk2<Kt>, MapChkFor<Kt, Vt, N>>, std::conditional_t<ALT, SetChk2<Kt>, SetChkFor<Kt, N>>>;
        if constexpr (MAP)
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_map<Kt, Vt, Hash, E, Chk, C>(arr, Hash::make(), E::make());
            else return fc::make_fixed_unordered_map<Kt, Vt, Hash, E, Chk, N, B, C>(arr, Hash::make(), E::make());
        }
        else
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_set<Kt, Hash, E, Chk, C>(arr, Hash::make(), E::make());
            else return fc::make_fixed_unordered_set<Kt, Hash, E, Chk, N, B, C>(arr, Hash::make(), E::make());
        }
    }
    template <class A> static constexpr auto make_deduced(const A& arr)
    {
        if constexpr (MAP)
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_map(arr, Hash::make(), Eq<DIV>::make());
            else return fc::make_fixed_unordered_map<Kt, Vt, Hash, Eq<DIV>, N, B>(arr, Hash::make(), Eq<DIV>::make());
        }
        else
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_set(arr, Hash::make(), Eq<DIV>::make());
            else return fc::make_fixed_unordered_set<Kt, Hash, Eq<DIV>, N, B>(arr, Hash::make(), Eq<DIV>::make());
        }
    }
};
}  // namespace h
