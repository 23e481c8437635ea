// EnumArray: how each abstract call of EArrOps.tla is performed.
#pragma once
#include "enums.hpp"
#include "drive.hpp"
namespace h
{
template <class Kt, class V>
struct EArrA
{
    using C = fc::EnumArray<Kt, V>;
    static constexpr int cap = EKeys<Kt>::N, nv = cap;
    static constexpr int lw = logged_v<V>;
    static constexpr bool trivial = std::is_trivially_copyable_v<C>;
    static constexpr bool copyable = std::is_copy_constructible_v<V>, ordered = true, stateful = false;
    static constexpr void blank(C& c) { c.fill(mk<V>(0)); }
    static constexpr int rcode(const V& x) { return val(x); }
    static constexpr bool DFLT = std::is_default_constructible_v<V>;
    static const char* tname() { return DFLT ? "earr" : "earn"; }
    static std::string variant() { return std::string(tname()) + "<" + EKeys<Kt>::name + "," + ET<V>::name + ">"; }
    using P = std::pair<const Kt, V>;
    template <std::size_t... I> static constexpr C strict(int k, int b, int mode, std::index_sequence<I...>)
    {
        auto key = [&](int j) { return b == 0 ? (k + j) % cap : (k + (cap - 1) * j) % cap; };
        return C({P{mkk<Kt>(key(static_cast<int>(I))), mk<V>(mode ? 0 : (k + static_cast<int>(I) + 1) % 3)}...});
    }
    static constexpr C fresh() { if constexpr (DFLT) return C(); else return strict(0, 0, 1, std::make_index_sequence<cap>{}); }
    static constexpr void create(C* p)
    {
        if constexpr (DFLT) std::construct_at(p); else std::construct_at(p, fresh());
    }
    static constexpr C filled(int v) { C c(fresh()); for (auto& x : c) x = mk<V>(v); return c; }
    static constexpr C ramp(int v) { C c = filled(0); int i = 0; for (auto& x : c) x = mk<V>((v + i++) % 3); return c; }
    static constexpr void observe(C& c, Vec& out) { out.clear(); for (int i = 0; i < cap; i++) out.push_back(val(static_cast<const C&>(c).at(mkk<Kt>(i)))); }
    static bool supports(const Op& o) { return !(o.name == "ctor_il" && o.a[1] > 5); }
    static bool sane(const Vec& n) { for (int x : n) if (x < 0 || x > 2) return false; return static_cast<int>(n.size()) == cap; }
    static bool is_ctor(const Op&) { return false; }
    static bool towards(const Vec& s, const Vec& t, Rng&, Op& op)
    {
        for (int i = 0; i < cap; i++)
            if (s[i] != t[i]) { op = Op{}; op.name = "at_set"; op.id = H("at_set"); op.na = 2; op.a[0] = i; op.a[1] = t[i]; return true; }
        return false;
    }
    static bool bias(const Op& o, bool, Rng& g) { return o.name == "fill" || o.name.find("assign") != std::string::npos ? g.below(6) == 0 : true; }
    static std::vector<Vec> states()
    {
        std::vector<Vec> r;
        for (auto& v : all_seqs(3, cap)) if (static_cast<int>(v.size()) == cap) r.push_back(v);
        return r;
    }
    template <class B, class E> static constexpr void walk(Js& r, B b, E e) { r.open(); for (; b != e; ++b) r.i(val(*b)); r.close(); }
    static constexpr void apply(C& c, const Op& o, Js& r)
    {
        const C& cc = c;
        const int* a = o.a;
        auto key = [](int k) { return mkk<Kt>(k); };
        auto mv = [](int v) { return mk<V>(v); };
        if constexpr (DFLT)
        {
            auto data = [&]
            {
                HV<P> d;
                for (int j = 0; j < a[1]; j++) d.emplace_back(key(a[2] == 0 ? (a[0] + j) % cap : (a[0] + (cap - 1) * j) % cap), mv((a[0] + j + 1) % 3));
                return d;
            };
            switch (o.id)
            {
            case H("ctor_d"): renew(c, [&] { return C(); }); return;
            case H("ctor_rng"): { auto d = data(); renew(c, [&] { return C(fc::std_transition::from_range, d); }); return; }
            case H("ctor_il"):
            {
                auto d = data();
                auto mkil = [&](std::initializer_list<P> il) { renew(c, [&] { return C(il); }); };
                switch (d.size())
                {
                case 0: mkil({}); return;
                case 1: mkil({d[0]}); return;
                case 2: mkil({d[0], d[1]}); return;
                case 3: mkil({d[0], d[1], d[2]}); return;
                case 4: mkil({d[0], d[1], d[2], d[3]}); return;
                default: mkil({d[0], d[1], d[2], d[3], d[4]}); return;
                }
            }
            default: break;
            }
        }
        else if (o.id == H("ctor_strict"))
        {
            renew(c, [&] { return C(strict(a[0], a[1], 0, std::make_index_sequence<cap>{})); });
            return;
        }
        switch (o.id)
        {
        case H("copy"): { C t(cc); renew(c, [&] { return C(static_cast<const C&>(t)); }); return; }
        case H("move"): { C t(std::move(c)); renew(c, [&] { return C(std::move(t)); }); return; }
        case H("self_assign"): { C& q = c; c = static_cast<const C&>(q); return; }
        case H("cassign"): { const C d = filled(a[0]); c = d; return; }
        case H("massign"): { C d = filled(a[0]); c = std::move(d); return; }
        case H("at"): r.i(val(c.at(key(a[0])))); return;
        case H("cat"): r.i(val(cc.at(key(a[0])))); return;
        case H("idx"): r.i(val(c[key(a[0])])); return;
        case H("cidx"): r.i(val(cc[key(a[0])])); return;
        case H("at_set"): c.at(key(a[0])) = mv(a[1]); return;
        case H("idx_set"): c[key(a[0])] = mv(a[1]); return;
        case H("it_set"): *(c.begin() + a[0]) = mv(a[1]); return;
        case H("rit_set"): *(c.rbegin() + a[0]) = mv(a[1]); return;
        case H("data_set"): c.data()[a[0]] = mv(a[1]); return;
        case H("front"): r.i(val(c.front())); return;
        case H("cfront"): r.i(val(cc.front())); return;
        case H("back"): r.i(val(c.back())); return;
        case H("cback"): r.i(val(cc.back())); return;
        case H("front_set"): c.front() = mv(a[0]); return;
        case H("back_set"): c.back() = mv(a[0]); return;
        case H("fill"): c.fill(mv(a[0])); return;
        case H("swap"): { C d = ramp(a[0]); c.swap(d); for (auto& x : d) r.i(val(x)); return; }
        case H("cmp"):
        {
            const C d = ramp(a[0]);
            auto x = cc <=> d;
            r.i(cc == d).i(cc != d).i(x < 0 ? -1 : x > 0 ? 1 : 0);
            return;
        }
        case H("views"):
            walk(r, c.begin(), c.end());
            walk(r, cc.cbegin(), cc.cend());
            walk(r, c.rbegin(), c.rend());
            walk(r, cc.crbegin(), cc.crend());
            walk(r, cc.data(), cc.data() + cc.size());
            r.open().i(static_cast<long long>(cc.size())).i(cc.empty()).i(static_cast<long long>(cc.max_size())).close();
            r.open();
            for (auto& l : cc.labels()) r.i(kval(l));
            r.close();
            return;
        default: std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
        }
    }
};
}  // namespace h
