// Sequence containers: how each abstract call of SeqOps.tla is performed on the real type.
#pragma once
#include "elems.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <iterator>
#include <type_traits>

namespace h
{
namespace fc = fixed_containers;
inline constexpr int NV = 3;

enum class Kind { vector, deque, list, cdeque, stack, queue, cqueue };
inline const char* kind_name(Kind k)
{
    switch (k)
    {
    case Kind::vector: return "vector";
    case Kind::deque: return "deque";
    case Kind::list: return "list";
    case Kind::cdeque: return "cdeque";
    case Kind::stack: return "stack";
    case Kind::queue: return "queue";
    default: return "cqueue";
    }
}
// a value of another type that an element can be compared with
struct Other { int v; };
template <class T> constexpr bool operator==(const T& a, const Other& b) { return val(a) == b.v; }

template <Kind KD, class T, std::size_t N, class Chk> struct SeqType;
template <class T, std::size_t N, class C> struct SeqType<Kind::vector, T, N, C> { using type = fc::FixedVector<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::deque, T, N, C> { using type = fc::FixedDeque<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::list, T, N, C> { using type = fc::FixedList<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::cdeque, T, N, C> { using type = fc::FixedCircularDeque<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::stack, T, N, C> { using type = fc::FixedStack<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::queue, T, N, C> { using type = fc::FixedQueue<T, N, C>; };
template <class T, std::size_t N, class C> struct SeqType<Kind::cqueue, T, N, C> { using type = fc::FixedCircularQueue<T, N, C>; };

#ifdef DEFCHK
template <class T, std::size_t N> using SeqChkFor = fc::customize::SequenceContainerAbortChecking<T, N>;
#else
template <class T, std::size_t N> using SeqChkFor = SeqChk;
#endif
template <Kind KD, class T, std::size_t N, class Chk = SeqChkFor<T, N>>
struct SeqA
{
    using C = typename SeqType<KD, T, N, Chk>::type;
    static constexpr Kind kind = KD;
    static constexpr int cap = static_cast<int>(N);
    static constexpr int nv = NV;
    static constexpr int lw = logged_v<T>;
    static constexpr bool trivial = std::is_trivially_copyable_v<C> && std::is_trivially_copyable_v<T>;
    static constexpr bool COPY = ET<T>::copyable;
    static constexpr bool DFLT = ET<T>::dflt;
    static constexpr bool RA = KD == Kind::vector || KD == Kind::deque || KD == Kind::cdeque;
    static constexpr bool ENDS = KD == Kind::deque || KD == Kind::cdeque || KD == Kind::list;
    static constexpr bool ADAPT = KD == Kind::stack || KD == Kind::queue || KD == Kind::cqueue;
    static constexpr bool copyable = COPY, ordered = true, stateful = false;
    static constexpr int rcode(const T& x) { return val(x); }
    static const char* tname() { return kind_name(KD); }
    static std::string variant() { return std::string(kind_name(KD)) + "<" + ET<T>::name + "," + std::to_string(N) + ">"; }

    static constexpr C fresh() { return C(); }
    static constexpr void create(C* p) { std::construct_at(p); }

    // abstract value = forward iteration, bounded
    static constexpr void observe(C& c, Vec& out)
    {
        out.clear();
        if constexpr (ADAPT)
        {
            // an adapter shows only its ends: drain a copy (or the object itself, then refill)
            auto drain = [&](C& d)
            {
                for (int g = 0; !d.empty() && g < cap + 2; g++)
                {
                    if constexpr (KD == Kind::stack) out.push_back(val(d.top())); else out.push_back(val(d.front()));
                    d.pop();
                }
            };
            if constexpr (COPY) { C d(c); drain(d); }
            else
            {
                drain(c);
                if constexpr (KD == Kind::stack) for (int i = static_cast<int>(out.size()); i-- > 0;) c.push(mk<T>(out[i]));
                else for (int x : out) c.push(mk<T>(x));
            }
            if constexpr (KD == Kind::stack) out = Vec(out.rbegin(), out.rend());
        }
        else
        {
            int g = 0;
            const C& cc = c;
            for (auto it = cc.begin(); it != cc.end() && g < cap + 3; ++it, ++g) out.push_back(val(*it));
        }
    }

    template <class It> static constexpr int pos_of(C& c, It it)
    {
        if constexpr (RA) return static_cast<int>(it - c.begin());
        else
        {
            int k = 0;
            for (auto j = c.begin();; ++j, ++k)
            {
                if (j == it) return k;
                if (j == c.end() || k > cap + 2) return -99;
            }
        }
    }
    static constexpr auto cit(C& c, int p) { return std::next(static_cast<const C&>(c).begin(), p); }
    static constexpr auto mit(C& c, int p) { return std::next(c.begin(), p); }

    template <class F> static constexpr void with_il(int v, int len, F&& f)
    {
        auto e = [&](int j) { return mk<T>((v + j) % NV); };
        switch (len)
        {
        case 0: f(std::initializer_list<T>{}); break;
        case 1: f(std::initializer_list<T>{e(0)}); break;
        case 2: f(std::initializer_list<T>{e(0), e(1)}); break;
        case 3: f(std::initializer_list<T>{e(0), e(1), e(2)}); break;
        case 4: f(std::initializer_list<T>{e(0), e(1), e(2), e(3)}); break;
        case 5: f(std::initializer_list<T>{e(0), e(1), e(2), e(3), e(4)}); break;
        case 6: f(std::initializer_list<T>{e(0), e(1), e(2), e(3), e(4), e(5)}); break;
        default: std::fprintf(stderr, "il too long\n"); _exit(3);
        }
    }
    // invoke f(first, last) with iterators of the category given by the call name's suffix
    template <class F> static constexpr void with_run(const char* suffix, int v, int len, F&& f)
    {
        Run<T> r(v, len, NV);
        int cur = 0;
        if (suffix[0] == 'i')
        {
            f(InIt<T>(r.data.data(), &cur, len), InIt<T>());
            return;
        }
        if (suffix[0] == 'm')
        {
            f(std::make_move_iterator(r.data.data()), std::make_move_iterator(r.data.data() + len));
            return;
        }
        if constexpr (COPY)
        {
            const T* b = r.data.data();
            if (suffix[0] == 'f') f(FwIt<T>{b}, FwIt<T>{b + len});
            else f(b, b + len);
        }
    }

    // Is this call available for this element type / container?
    // The language forbids pointer arithmetic across the cells of a non-trivial element while evaluating constants.
    static constexpr T& dat(C& c, std::size_t i)
    {
        if (std::is_constant_evaluated() && !std::is_same_v<T, int> && i > 0) return c[i];
        return c.data()[i];
    }
    static bool supports(const Op& o)
    {
        const std::string f(o.name);
        auto ends = [&](const char* x) { return f.size() >= 3 && f.compare(f.size() - 3, 3, x) == 0; };
        if (!COPY)
        {
            static const std::set<std::string> need{"copy", "cassign", "ctor_n", "ctor_nv", "assign_n", "resize", "resize_v", "resize_a",
                "push_back_c", "push_front_c", "insert_c", "push_back_a", "push_front_a", "insert_a", "emplace_a", "emplace_back_a", "emplace_front_a", "push_c", "resize_far", "assign_far", "ctor_far", "ctor_mk", "ctor_bp", "ctor_bi", "ctor_bl", "ctor_bc"};
            if (need.count(f)) return false;
            if (ends("_fw") || ends("_ra") || ends("_il")) return false;
        }
        if (!DFLT && (f == "ctor_n" || f == "resize")) return false;
        if ((ends("_il") || f == "ctor_bl") && o.a[o.na - 1] > 6) return false;
        return true;
    }
    static bool sane(const Vec& n)
    {
        if (static_cast<int>(n.size()) > cap) return false;
        for (int x : n) if (x < 0 || x >= NV) return false;
        return true;
    }
    static bool is_ctor(const Op& o) { return o.name.compare(0, 4, "ctor") == 0; }
    static constexpr bool special(const Op& o, const Vec&, int) { (void)o; return true; }

    static constexpr C made(const Op& o)  // a container holding Rng(v, n), used as source of assignment
    {
        C d;
        for (int j = 0; j < o.a[1]; j++)
        {
            if constexpr (ADAPT) d.push(mk<T>((o.a[0] + j) % NV));
            else d.push_back(mk<T>((o.a[0] + j) % NV));
        }
        return d;
    }

    static constexpr void apply(C& c, const Op& o, Js& r)
    {
        const C& cc = c;
        const int* a = o.a;
        switch (o.id)
        {
        case H("copy"):
            if constexpr (COPY) { C t(cc); renew(c, [&] { return C(static_cast<const C&>(t)); }); } return;
        case H("move"): { C t(std::move(c)); renew(c, [&] { return C(std::move(t)); }); return; }
        case H("cassign"):
            if constexpr (COPY) { C d = made(o); C& rr = (c = static_cast<const C&>(d)); if (&rr != &c) fail(K::corrupt); } return;
        case H("massign"): { C d = made(o); C& rr = (c = std::move(d)); if (&rr != &c) fail(K::corrupt); return; }
        default: break;
        }
        if constexpr (ADAPT) adapter(c, cc, o, r); else seq(c, cc, o, r);
    }


    // one call that brings abstract value s closer to target; false when there
    static bool towards(const Vec& s, const Vec& target, Rng& g, Op& op)
    {
        auto set = [&](const char* n, int na, int x = 0, int y = 0) { op = Op{}; op.name = n; op.id = H(n); op.na = na; op.a[0] = x; op.a[1] = y; };
        if (s == target) return false;
        std::size_t i = 0;
        while (i < s.size() && i < target.size() && s[i] == target[i]) i++;
        if constexpr (ADAPT)
        {
            if (i == s.size()) { if (g.below(2)) set("push_m", 1, target[i]); else set("push_e", 1, target[i]); }
            else set("pop", 0);
            return true;
        }
        const int ii = static_cast<int>(i);
        if (i < s.size())
        {
            if (i < target.size() && g.below(3) == 0) { set("set_it", 2, ii, target[i]); return true; }
            if (static_cast<int>(s.size()) < cap && i < target.size() && g.below(3) == 0) { set("insert_m", 2, ii, target[i]); return true; }
            if constexpr (ENDS) if (i == 0 && g.below(2)) { set("pop_front", 0); return true; }
            if (s.size() > target.size() && g.below(2)) { set("pop_back", 0); return true; }
            set("erase", 1, ii);
            return true;
        }
        if constexpr (ENDS) if (s.empty() && g.below(2)) { set("push_front_m", 1, target[0]); return true; }
        switch (g.below(3))
        {
        case 0: set("push_back_m", 1, target[i]); break;
        case 1: set("emplace_back", 1, target[i]); break;
        default: set("insert_m", 2, ii, target[i]); break;
        }
        return true;
    }
    static bool bias(const Op& o, bool shrinking, Rng& g)
    {
        auto has = [&](const char* x) { return o.name.find(x) != std::string::npos; };
        if (has("clear") || has("assign") || has("resize") || has("ctor") || has("_if") || has("range")) return g.below(12) == 0;
        if (has("push") || has("insert") || has("emplace")) return !shrinking || g.below(3) == 0;
        if (has("pop") || has("erase") || has("remove")) return shrinking || g.below(4) == 0;
        return g.below(3) == 0;
    }

    static constexpr void adapter(C& c, const C& cc, const Op& o, Js& r)
    {
        const int* a = o.a;
        switch (o.id)
        {
        case H("ctor_in"): with_run("in", a[0], a[1], [&](auto f, auto l) { renew(c, [&] { return C(f, l); }); }); return;
        case H("ctor_ra"): if constexpr (COPY) with_run("ra", a[0], a[1], [&](auto f, auto l) { renew(c, [&] { return C(f, l); }); }); return;
        case H("push_c"): if constexpr (COPY) { const T x = mk<T>(a[0]); c.push(x); } return;
        case H("push_m"): c.push(mk<T>(a[0])); return;
        case H("push_e"):
            if constexpr (std::is_void_v<decltype(c.emplace(a[0]))>) c.emplace(a[0]);
            else r.i(val(c.emplace(a[0])));
            return;
        case H("pop"): c.pop(); return;
        default: break;
        }
        if constexpr (KD == Kind::stack)
        {
            switch (o.id)
            {
            case H("top"): r.i(val(c.top())); return;
            case H("ctop"): r.i(val(cc.top())); return;
            case H("set_top"): c.top() = mk<T>(a[0]); return;
            case H("views"):
                r.open().i(cc.size()).i(cc.empty()).i(cc.max_size()).i(fc::is_full(cc)).close();
                r.open(); if (!cc.empty()) r.i(val(cc.top())); r.close();
                return;
            default: break;
            }
        }
        else
        {
            switch (o.id)
            {
            case H("front"): r.i(val(c.front())); return;
            case H("cfront"): r.i(val(cc.front())); return;
            case H("back"): r.i(val(c.back())); return;
            case H("cback"): r.i(val(cc.back())); return;
            case H("set_front"): c.front() = mk<T>(a[0]); return;
            case H("set_back"): c.back() = mk<T>(a[0]); return;
            case H("views"):
                r.open().i(cc.size()).i(cc.empty()).i(cc.max_size()).i(fc::is_full(cc)).close();
                r.open(); if (!cc.empty()) r.i(val(cc.front())).i(val(cc.back())); r.close();
                return;
            default: break;
            }
        }
        std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
    }

    // the two overloads of make_fixed_*: spelled-out type, deduced type (its own checking)
    template <class A> static constexpr auto make_typed(const A& arr)
    {
        if constexpr (KD == Kind::vector) return fc::make_fixed_vector<T, Chk>(arr);
        else if constexpr (KD == Kind::deque) return fc::make_fixed_deque<T, Chk>(arr);
        else if constexpr (KD == Kind::list) return fc::make_fixed_list<T, Chk>(arr);
        else return fc::make_fixed_circular_deque<T, Chk>(arr);
    }
    template <class A> static constexpr auto make_deduced(const A& arr)
    {
        if constexpr (KD == Kind::vector) return fc::make_fixed_vector(arr);
        else if constexpr (KD == Kind::deque) return fc::make_fixed_deque(arr);
        else if constexpr (KD == Kind::list) return fc::make_fixed_list(arr);
        else return fc::make_fixed_circular_deque(arr);
    }
    template <std::size_t... I> static constexpr void factory(C& c, int v, Js& r, std::index_sequence<I...>)
    {
        auto go = [&](const auto& arr)
        {
            renew(c, [&]() -> C { return make_typed(arr); });
            auto d = make_deduced(arr);
            r.open();
            int g = 0;
            for (auto it = d.begin(); it != d.end() && g < cap + 3; ++it, ++g) r.i(val(*it));
            r.close().i(static_cast<long long>(d.max_size()));
        };
        if constexpr (N == 0) go(std::array<T, 0>{});
        else { const T arr[N] = {mk<T>((v + static_cast<int>(I)) % NV)...}; go(arr); }
    }
    static constexpr void builder(C& c, const Op& o)
    {
        const int* a = o.a;
        using B = typename C::Builder;
        switch (o.id)
        {
        case H("ctor_bp"):
        {
            B b;
            for (int j = 0; j < a[1]; j++)
            {
                const T x = mk<T>((a[0] + j) % NV);
                if (j % 2 == 0) { auto& q = b.push_back(x); if (&q != &b) fail(K::corrupt); }
                else b = std::move(b).push_back(x);
            }
            renew(c, [&] { return C(b.build()); });
            return;
        }
        case H("ctor_bi"):
            with_run("ra", a[0], a[1], [&](auto f, auto l)
                     {
                         auto m = f;
                         for (int j = 0; j < a[1] / 2; j++) ++m;
                         renew(c, [&] { B b; b.push_back_all(f, m); return C(std::move(b).push_back_all(m, l).build()); });
                     });
            return;
        case H("ctor_bl"):
            with_il(a[0], a[1], [&](std::initializer_list<T> il)
                    {
                        renew(c, [&] { if (a[1] % 2) return C(B{}.push_back_all(il).build()); B b; b.push_back_all(il); return C(b.build()); });
                    });
            return;
        default:
        {
            HV<T> d;
            for (int j = 0; j < a[1]; j++) d.push_back(mk<T>((a[0] + j) % NV));
            renew(c, [&] { if (a[1] % 2) return C(B{}.push_back_all(d).build()); B b; b.push_back_all(d); return C(b.build()); });
        }
        }
    }
    static constexpr void seq(C& c, const C& cc, const Op& o, Js& r)
    {
        const int* a = o.a;
        auto sfx = [&]() { return o.name.data() + o.name.size() - 2; };
        auto pred = [&](const T& x) { return ((a[0] >> val(x)) & 1) != 0; };
        switch (o.id)
        {
        case H("ctor_n"): if constexpr (COPY && DFLT) { renew(c, [&] { return C(static_cast<std::size_t>(a[0])); }); } return;
        case H("ctor_nv"): if constexpr (COPY) { renew(c, [&] { return C(static_cast<std::size_t>(a[0]), mk<T>(a[1])); }); } return;
        case H("ctor_in"): case H("ctor_fw"): case H("ctor_ra"):
            with_run(sfx(), a[0], a[1], [&](auto f, auto l) { renew(c, [&] { return C(f, l); }); }); return;
        case H("ctor_il"):
            if constexpr (COPY) with_il(a[0], a[1], [&](std::initializer_list<T> il) { renew(c, [&] { return C(il); }); }); return;
        case H("assign_n"): if constexpr (COPY) c.assign(static_cast<std::size_t>(a[0]), mk<T>(a[1])); return;
        case H("assign_in"): case H("assign_fw"): case H("assign_ra"): case H("assign_mv"):
            with_run(sfx(), a[0], a[1], [&](auto f, auto l) { c.assign(f, l); }); return;
        case H("assign_il"):
            if constexpr (COPY) with_il(a[0], a[1], [&](std::initializer_list<T> il) { c.assign(il); }); return;
        case H("resize"): if constexpr (COPY && DFLT) c.resize(static_cast<std::size_t>(a[0])); return;
        case H("resize_v"): if constexpr (COPY) c.resize(static_cast<std::size_t>(a[0]), mk<T>(a[1])); return;
        case H("resize_a"): if constexpr (COPY) c.resize(static_cast<std::size_t>(a[0]), *cit(c, a[1])); return;
        case H("resize_far"): if constexpr (COPY) c.resize(far_(a[0]), mk<T>(1)); return;
        case H("assign_far"): if constexpr (COPY) c.assign(far_(a[0]), mk<T>(1)); return;
        case H("ctor_far"): if constexpr (COPY) { renew(c, [&] { return C(far_(a[0]), mk<T>(1)); }); } return;
        case H("clear"): c.clear(); return;
        case H("push_back_c"): if constexpr (COPY) { const T x = mk<T>(a[0]); c.push_back(x); } return;
        case H("push_back_m"): c.push_back(mk<T>(a[0])); return;
        case H("emplace_back"): r.i(val(c.emplace_back(a[0]))); return;
        case H("push_back_a"): if constexpr (COPY) c.push_back(*cit(c, a[0])); return;
        case H("emplace_back_a"): if constexpr (COPY) r.i(val(c.emplace_back(*cit(c, a[0])))); return;
        case H("pop_back"): c.pop_back(); return;
        case H("insert_c"): if constexpr (COPY) { const T x = mk<T>(a[1]); r.i(pos_of(c, c.insert(cit(c, a[0]), x))); } return;
        case H("insert_m"): r.i(pos_of(c, c.insert(cit(c, a[0]), mk<T>(a[1])))); return;
        case H("emplace"): r.i(pos_of(c, c.emplace(cit(c, a[0]), a[1]))); return;
        case H("insert_a"): if constexpr (COPY) r.i(pos_of(c, c.insert(cit(c, a[0]), *cit(c, a[1])))); return;
        case H("emplace_a"): if constexpr (COPY) r.i(pos_of(c, c.emplace(cit(c, a[0]), *cit(c, a[1])))); return;
        case H("insert_in"): case H("insert_fw"): case H("insert_ra"): case H("insert_mv"):
            with_run(sfx(), a[1], a[2], [&](auto f, auto l) { r.i(pos_of(c, c.insert(cit(c, a[0]), f, l))); }); return;
        case H("insert_il"):
            if constexpr (COPY) with_il(a[1], a[2], [&](std::initializer_list<T> il) { r.i(pos_of(c, c.insert(cit(c, a[0]), il))); }); return;
        case H("erase"): r.i(pos_of(c, c.erase(cit(c, a[0])))); return;
        case H("erase_range"): r.i(pos_of(c, c.erase(cit(c, a[0]), cit(c, a[1])))); return;
        case H("erase_v"): { const T x = mk<T>(a[0]); r.i(static_cast<long long>(fc::erase(c, x))); return; }
        case H("erase_u"): { const Other x{a[0]}; r.i(static_cast<long long>(fc::erase(c, x))); return; }
        case H("erase_if"): r.i(static_cast<long long>(fc::erase_if(c, pred))); return;
        case H("ctor_mk"): if constexpr (COPY) factory(c, a[0], r, std::make_index_sequence<N>()); return;
        case H("ctor_bp"): case H("ctor_bi"): case H("ctor_bl"): case H("ctor_bc"):
            if constexpr (COPY && KD == Kind::vector) builder(c, o); return;
        case H("front"): r.i(val(c.front())); return;
        case H("cfront"): r.i(val(cc.front())); return;
        case H("back"): r.i(val(c.back())); return;
        case H("cback"): r.i(val(cc.back())); return;
        case H("set_it"): *mit(c, a[0]) = mk<T>(a[1]); return;
        case H("set_rit"): *std::next(c.rbegin(), static_cast<std::ptrdiff_t>(c.size()) - 1 - a[0]) = mk<T>(a[1]); return;
        case H("set_front"): c.front() = mk<T>(a[0]); return;
        case H("set_back"): c.back() = mk<T>(a[0]); return;
        case H("views"): views(c, cc, r); return;
        case H("iters"): iters(c, cc, r); return;
        default: break;
        }
        if constexpr (RA)
        {
            switch (o.id)
            {
            case H("at"): r.i(val(c.at(static_cast<std::size_t>(a[0])))); return;
            case H("cat"): r.i(val(cc.at(static_cast<std::size_t>(a[0])))); return;
            case H("idx"): r.i(val(c[static_cast<std::size_t>(a[0])])); return;
            case H("cidx"): r.i(val(cc[static_cast<std::size_t>(a[0])])); return;
            case H("set_idx"): c[static_cast<std::size_t>(a[0])] = mk<T>(a[1]); return;
            case H("set_at"): c.at(static_cast<std::size_t>(a[0])) = mk<T>(a[1]); return;
            case H("at_far"): r.i(val(c.at(far_(a[0])))); return;
            case H("cat_far"): r.i(val(cc.at(far_(a[0])))); return;
            case H("idx_far"): r.i(val(c[far_(a[0])])); return;
            case H("cidx_far"): r.i(val(cc[far_(a[0])])); return;
            case H("erase_past"): r.i(pos_of(c, c.erase(cit(c, a[0]), cc.end() + 1))); return;
            default: break;
            }
        }
        if constexpr (KD == Kind::vector)
        {
            switch (o.id)
            {
            case H("set_data"): dat(c, static_cast<std::size_t>(a[0])) = mk<T>(a[1]); return;
            case H("reserve_far"): c.reserve(far_(a[0])); return;
            case H("reserve"): c.reserve(static_cast<std::size_t>(a[0])); r.i(static_cast<long long>(c.capacity())); return;
            default: break;
            }
        }
        if constexpr (ENDS)
        {
            switch (o.id)
            {
            case H("push_front_c"): if constexpr (COPY) { const T x = mk<T>(a[0]); c.push_front(x); } return;
            case H("push_front_m"): c.push_front(mk<T>(a[0])); return;
            case H("emplace_front"): r.i(val(c.emplace_front(a[0]))); return;
            case H("push_front_a"): if constexpr (COPY) c.push_front(*cit(c, a[0])); return;
            case H("emplace_front_a"): if constexpr (COPY) r.i(val(c.emplace_front(*cit(c, a[0])))); return;
            case H("pop_front"): c.pop_front(); return;
            default: break;
            }
        }
        if constexpr (KD == Kind::list)
        {
            switch (o.id)
            {
            case H("remove"): { const T x = mk<T>(a[0]); r.i(static_cast<long long>(c.remove(x))); return; }
            case H("remove_if"): r.i(static_cast<long long>(c.remove_if(pred))); return;
            case H("remove_a"): r.i(static_cast<long long>(c.remove(*cit(c, a[0])))); return;
            case H("erase_a"): r.i(static_cast<long long>(fc::erase(c, *cit(c, a[0])))); return;
            default: break;
            }
        }
        std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
    }

    template <class B, class E> static constexpr void walk(Js& r, B b, E e)
    {
        r.open();
        int g = 0;
        for (; b != e && g < cap + 3; ++b, ++g) r.i(val(*b));
        r.close();
    }
    static constexpr void views(C& c, const C& cc, Js& r)
    {
        walk(r, c.begin(), c.end());
        walk(r, cc.cbegin(), cc.cend());
        walk(r, c.rbegin(), c.rend());
        walk(r, cc.crbegin(), cc.crend());
        if constexpr (RA)
        {
            r.open(); for (std::size_t i = 0; i < c.size() && i < N + 3; i++) r.i(val(c[i])); r.close();
            r.open(); for (std::size_t i = 0; i < c.size() && i < N + 3; i++) r.i(val(cc.at(i))); r.close();
        }
        if constexpr (KD == Kind::vector)
        {
            r.open(); for (std::size_t i = 0; i < c.size() && i < N + 3; i++) r.i(val(dat(c, i))); r.close();
            if (c.size() > 0 && cc.data() != c.data()) fail(K::corrupt);
        }
        r.open().i(static_cast<long long>(cc.size())).i(cc.empty()).i(static_cast<long long>(cc.max_size())).i(fc::is_full(cc)).close();
        if (C::static_max_size() != cc.max_size()) fail(K::corrupt);
        r.open(); if (!cc.empty()) r.i(val(cc.front())).i(val(cc.back())); r.close();
    }
    static constexpr void iters(C& c, const C& cc, Js& r)
    {
        const int L = static_cast<int>(c.size());
        if constexpr (RA)
        {
            r.open();
            for (int x = 0; x <= L; x++)
            {
                r.open();
                for (int y = 0; y <= L; y++)
                {
                    auto i1 = c.begin(); i1 += x;
                    auto i2 = cc.begin() + y;
                    typename C::const_iterator i1c = i1;
                    r.i(i2 - i1c);
                }
                r.close();
            }
            r.close();
            r.open();
            for (int x = 0; x <= L; x++)
            {
                r.open();
                for (int y = 0; y <= L; y++)
                {
                    auto i1 = c.end(); i1 -= (L - x);
                    auto i2 = c.begin() + y;
                    int s = (i1 < i2) ? -1 : (i1 > i2) ? 1 : 0;
                    bool okk = (i1 == i2) == (s == 0) && (i1 != i2) == (s != 0) && (i1 <= i2) == (s <= 0) && (i1 >= i2) == (s >= 0);
                    r.i(okk ? s : 99);
                }
                r.close();
            }
            r.close();
            r.open();
            for (int x = 0; x < L; x++)
                r.open().i(val(*(c.begin() + x))).i(val(*(x + cc.begin()))).i(val(c.begin()[x])).i(val(*(cc.end() - (L - x)))).close();
            r.close();
            r.open(); { auto it = c.begin(); for (int x = 0; x < L; x++) { r.i(val(*it)); auto& q = ++it; if (&q != &it) r.i(-98); } } r.close();
            r.open(); { auto it = cc.end(); for (int x = 0; x < L; x++) { auto old = it--; (void)old; r.i(val(*it)); } } r.close();
            r.open(); { auto it = c.rbegin(); for (int x = 0; x < L; x++) r.i(val(it[x])); } r.close();
        }
        else
        {
            r.open();
            for (int x = 0; x <= L; x++)
            {
                r.open();
                for (int y = 0; y <= L; y++)
                {
                    auto i1 = std::prev(c.end(), L - x);
                    auto i2 = std::next(cc.begin(), y);
                    typename C::const_iterator i1c = i1;
                    bool eq = i1c == i2;
                    r.i((i1c != i2) == eq ? 99 : eq);
                }
                r.close();
            }
            r.close();
            r.open(); { auto it = c.begin(); for (int x = 0; x < L; x++) { r.i(val(*it)); it++; } } r.close();
            r.open(); { auto it = cc.end(); for (int x = 0; x < L; x++) { it--; r.i(val(*it)); } } r.close();
        }
    }
};
}  // namespace h
