// Two containers at once: equality, ordering, copies, moves, assignment, swap, independence (PairOps.tla).
#pragma once
#include "drive.hpp"
namespace h
{
struct NoAlt {};

template <class A>
struct Holder
{
    using C = typename A::C;
    Slot<C> sl;
    Vec s;
    std::string hist;
    bool hung = false;
    bool look()
    {
        const bool ok = guarded([&] { A::observe(sl.get(), s); }) == K::ok;
        if (!ok) { sl.alive = false; s = {-999}; }
        return ok;
    }
    void drop()
    {
        if (sl.alive) guarded([&] { std::destroy_at(&sl.get()); });
        sl.alive = false;
        sl.wipe();
    }
    bool fresh()
    {
        drop();
        hung = false;
        hist.clear();
        sl.alive = guarded([&] { A::create(sl.raw()); }) == K::ok;
        return sl.alive && look();
    }
    // an unrecorded call; a call that is not answered normally ends the object's use
    bool call(const Op& op)
    {
        Js r;
        r.b = "[";
        hist += op.json();
        hist += ' ';
        const K k = guarded([&] { A::apply(sl.get(), op, r); });
        if (k == K::hang) { hung = true; sl.alive = false; if (++g_rec.notes["hangs"] >= 6) g_rec.finish("hang"); return false; }
        if (k != K::ok || !sl.canaries()) { sl.alive = false; return false; }
        return look();
    }
    void random(const std::vector<Sig>& sigs, Rng& g, int steps)
    {
        for (int t = 0; t < steps && sl.alive; t++)
        {
            const Sig& sg = sigs[g.below(static_cast<int>(sigs.size()))];
            Op op;
            if (!random_op(sg, g, A::nv, A::cap, static_cast<int>(s.size()), op) || !A::supports(op)) continue;
            if (!A::bias(op, false, g)) continue;
            if (!call(op)) return;
            if (!A::sane(s)) return;
        }
    }
    static bool arrived(const Vec& s, const Vec& t)
    {
        if constexpr (requires { A::arrived(s, t); }) return A::arrived(s, t);
        else return s == t;
    }
    bool steer(const Vec& target, Rng& g)
    {
        if (!sl.alive) return false;
        for (int tries = 0; tries < 4 * A::cap + 8; tries++)
        {
            Op op;
            if (!A::sane(s)) return false;
            if (!A::towards(s, target, g, op)) break;
            if (!call(op)) return false;
        }
        return arrived(s, target);
    }
    bool bring(const Vec& target, const std::vector<Sig>& sigs, Rng& g, int prefix)
    {
        for (int t = 0; t < 3; t++)
        {
            if (!fresh()) return false;
            random(sigs, g, g.below(prefix + 1));
            if (sl.alive && A::sane(s) && steer(target, g)) return true;
        }
        return fresh() && steer(target, g);
    }
    bool reset()     // through the public interface
    {
        if constexpr (requires(C& c) { c.clear(); }) return guarded([&] { sl.get().clear(); }) == K::ok;
        else if constexpr (requires(C& c) { c.pop(); }) return guarded([&] { for (int i = 0; i < A::cap + 2 && !sl.get().empty(); i++) sl.get().pop(); }) == K::ok;
        else return guarded([&] { A::blank(sl.get()); }) == K::ok;
    }
};

// everything a reader can learn about one container
template <class A>
void deep(typename A::C& c, Js& r)
{
    using C = typename A::C;
    const C& cc = c;
    r.open();
    if constexpr (requires { cc.rbegin(); })
    {
        r.open();
        int g = 0;
        for (auto it = cc.rbegin(); it != cc.rend() && g < A::cap + 3; ++it, ++g) r.i(A::rcode(*it));
        r.close();
    }
    r.i(static_cast<long long>(cc.size()));
    if constexpr (requires { A::has(c, 0); }) { r.open(); for (int k = 0; k < A::nv; k++) r.i(A::has(c, k)); r.close(); }
    r.close();
}

template <class A, class X0 = NoAlt, class X1 = NoAlt>
struct PairDriver
{
    using C = typename A::C;
    const std::vector<Sig>& sigs;
    std::string var = A::variant();
    Rng g;
    Holder<A> a, b;
    static constexpr bool COPY = std::is_copy_constructible_v<C> && A::copyable;
    static constexpr bool EQ = requires(const C& x) { x == x; };
    static constexpr bool CMP = A::ordered && requires(const C& x) { x <=> x; x < x; };
    static constexpr bool DCTOR = A::stateful;
    PairDriver(const std::vector<Sig>& s, std::uint64_t seed) : sigs(s), g(seed) {}

    struct Call { const char* n; int m; };
    static std::vector<Call> calls()
    {
        std::vector<Call> r{{"swap", 0}, {"self_m", 0}};
        if constexpr (EQ) { r.push_back({"eq", 0}); if constexpr (!std::is_same_v<X0, NoAlt>) { r.push_back({"xeq", 0}); } if constexpr (!std::is_same_v<X1, NoAlt>) r.push_back({"xeq", 1}); }
        if constexpr (CMP) { r.push_back({"cmp", 0}); if constexpr (!std::is_same_v<X0, NoAlt>) r.push_back({"xcmp", 0}); if constexpr (!std::is_same_v<X1, NoAlt>) r.push_back({"xcmp", 1}); }
        for (int m : {0, 1, 2, 3, 4})
        {
            if (m == 2 && !COPY) continue;
            r.push_back({"massign", m});
            r.push_back({"mctor", m});
        }
        if (COPY)
        {
            for (int m : {0, 1}) { r.push_back({"cassign", m}); r.push_back({"cctor", m}); }
            for (int m : {0, 1, 2, 3}) r.push_back({"ind", m});
            r.push_back({"self_c", 0});
        }
        if (DCTOR) for (int m : {0, 1, 2, 3}) if (COPY || m % 2 == 1) r.push_back({"dassign", m});
        return r;
    }
    template <class O> static int sg(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
    template <class P, class Q> static void eq(const P& x, const Q& y, Js& r) { r.i(x == y).i(y == x).i(x != y).i(y != x); }
    template <class P, class Q> static void cmp(const P& x, const Q& y, Js& r)
    {
        r.i(sg(x <=> y)).i(x < y).i(x <= y).i(x > y).i(x >= y).i(sg(y <=> x));
    }
    void emit(const Vec& sa, const Vec& sb, const Call& c, K k, const std::string& r, const Vec& na, const Vec& nb)
    {
        std::string line = std::string("{\"t\":\"") + A::tname() + "\",\"c\":" + std::to_string(A::cap) + ",\"sa\":" + js(sa) + ",\"sb\":" + js(sb) +
                           ",\"o\":[\"" + c.n + "\"," + std::to_string(c.m) + "],\"k\":\"" + kname(k) + "\",\"r\":" + (k == K::ok ? r : "[]") +
                           ",\"na\":" + (k == K::ok ? js(na) : "[]") + ",\"nb\":" + (k == K::ok ? js(nb) : "[]") + "}";
        g_rec.per_variant[var]++;
        g_rec.line(k, std::move(line), var, [&] { return "a: " + a.hist + " b: " + b.hist; });
    }
    template <class X> void cross(const Vec& sa, const Vec& sb, const Call& c)
    {
        if constexpr (!std::is_same_v<X, NoAlt>)
        {
            Holder<X> x;
            if (!x.bring(sb, sigs, g, 6)) { g_rec.notes["goto_failed"]++; return; }
            b.hist = x.hist;
            const Vec sx = x.s;
            Js r;
            r.b = "[";
            K k = guarded([&]
            {
                if (c.n[1] == 'e') { if constexpr (EQ) eq(static_cast<const C&>(a.sl.get()), static_cast<const typename X::C&>(x.sl.get()), r); }
                else { if constexpr (CMP) cmp(static_cast<const C&>(a.sl.get()), static_cast<const typename X::C&>(x.sl.get()), r); }
            });
            Vec na, nb;
            if (k == K::ok && a.look() && x.look()) { na = a.s; nb = x.s; } else if (k == K::ok) k = K::corrupt;
            emit(sa, sx, c, k, std::string(r.b) + "]", na, nb);
            x.drop();
        }
    }
    // a and b hold sa and sb
    void perform(const Call& c)
    {
        const Vec sa = a.s, sb = b.s;
        const std::uint64_t id = H(c.n);
        if (id == H("xeq") || id == H("xcmp"))
        {
            if (c.m == 0) cross<X0>(sa, sb, c); else cross<X1>(sa, sb, c);
            return;
        }
        Js r;
        r.b = "[";
        C& x = a.sl.get();
        C& y = b.sl.get();
        K k = K::ok;
        bool useb = true;          // is b's value specified afterwards?
        auto build = [&](auto&& f) { std::destroy_at(&x); f(); };
        switch (id)
        {
        case H("eq"): k = guarded([&] { if constexpr (EQ) eq(static_cast<const C&>(x), static_cast<const C&>(y), r); }); break;
        case H("cmp"): k = guarded([&] { if constexpr (CMP) cmp(static_cast<const C&>(x), static_cast<const C&>(y), r); }); break;
        case H("swap"):
            k = guarded([&] { if constexpr (requires { x.swap(y); }) { if (g.below(2)) { x.swap(y); return; } } using std::swap; swap(x, y); });
            break;
        case H("self_c"): k = guarded([&] { if constexpr (COPY) { const C& q = x; C& z = (x = q); if (&z != &x) fail(K::corrupt); } }); break;
        case H("self_m"): k = guarded([&] { C& q = x; C& z = (x = std::move(q)); if (&z != &x) fail(K::corrupt); }); break;
        case H("cassign"): k = guarded([&] { if constexpr (COPY) { C& z = (x = static_cast<const C&>(y)); if (&z != &x) fail(K::corrupt); } }); break;
        case H("massign"): k = guarded([&] { C& z = (x = std::move(y)); if (&z != &x) fail(K::corrupt); }); break;
        case H("cctor"): k = guarded([&] { if constexpr (COPY) build([&] { new (&x) C(static_cast<const C&>(y)); }); }); break;
        case H("mctor"): k = guarded([&] { build([&] { new (&x) C(std::move(y)); }); }); break;
        case H("dassign"):
            k = guarded([&]
            {
                if constexpr (DCTOR)
                {
                    build([&] { new (&x) C(); });
                    if (c.m % 2 == 0) { if constexpr (COPY) x = static_cast<const C&>(y); }
                    else x = std::move(y);
                }
            });
            break;
        case H("ind"):
            k = guarded([&] { if constexpr (COPY) { if (c.m == 0 || c.m == 3) build([&] { new (&x) C(static_cast<const C&>(y)); }); else x = static_cast<const C&>(y); } });
            break;
        default: std::fprintf(stderr, "unknown pair call\n"); _exit(3);
        }
        auto ok = [&](bool v) { if (!v && k == K::ok) k = K::corrupt; };
        if (k != K::ok) { a.sl.alive = b.sl.alive = false; }
        if (k == K::ok && (!a.sl.canaries() || !b.sl.canaries())) { k = K::canary; a.sl.alive = b.sl.alive = false; }
        const bool move = id == H("massign") || id == H("mctor") || (id == H("dassign") && c.m % 2 == 1);
        if (k == K::ok)
        {
            if (move)
            {
                switch (id == H("dassign") ? (c.m == 3 ? 4 : 0) : c.m)
                {
                case 0: ok(b.reset()); break;
                case 1:
                    ok(b.reset());
                    if (k == K::ok) ok(b.look());
                    if (k == K::ok) { b.hist += "| "; b.steer(sa, g); }
                    break;
                case 2: if constexpr (COPY) { const K k2 = guarded([&] { y = static_cast<const C&>(x); }); if (k2 != K::ok) k = k2; } break;
                case 3: b.drop(); useb = false; break;
                default: useb = false; break;
                }
            }
            if (k == K::ok && ((move && c.m == 4) || ((id == H("cassign") || id == H("cctor")) && c.m == 1) || (id == H("dassign") && c.m >= 2)))
            {
                ok(a.look());
                if (k == K::ok) { a.hist += "| "; a.steer(sa, g); }
            }
            if (k == K::ok && id == H("ind"))
            {
                if (c.m == 3) { b.drop(); useb = false; }
                else if (c.m == 2) { ok(a.look()); if (k == K::ok) { a.hist += "| "; a.random(sigs, g, 12); } }
                else { b.hist += "| "; b.random(sigs, g, 12); useb = false; }
            }
        }
        if (k == K::ok && (a.hung || b.hung)) k = K::hang;
        const bool usea = !(id == H("ind") && c.m == 2);
        Vec na, nb;
        std::string da = "[]", db = "[]";
        if (k == K::ok && usea)
        {
            ok(a.sl.alive && a.look());
            na = a.s;
            Js d;
            if (k == K::ok) { const K k2 = guarded([&] { deep<A>(a.sl.get(), d); }); if (k2 != K::ok) { k = k2; a.sl.alive = false; } }
            da = d.b;
        }
        if (k == K::ok && useb)
        {
            ok(b.sl.alive && b.look());
            nb = b.s;
            Js d;
            if (k == K::ok) { const K k2 = guarded([&] { deep<A>(b.sl.get(), d); }); if (k2 != K::ok) { k = k2; b.sl.alive = false; } }
            db = d.b;
        }
        std::string rr = std::string(r.b) + "]";
        if (id != H("eq") && id != H("cmp")) rr = "[" + da + "," + db + "]";
        emit(sa, sb, c, k, rr, na, nb);
    }
    void pair(const Vec& sa, const Vec& sb, int prefix)
    {
        for (const Call& c : calls())
        {
            if (!a.bring(sa, sigs, g, prefix) || !b.bring(sb, sigs, g, prefix)) { g_rec.notes["goto_failed"]++; continue; }
            perform(c);
        }
    }
    void all(const std::vector<Vec>& st, std::size_t limit)
    {
        if (st.size() * st.size() <= limit)
        {
            for (auto& x : st) for (auto& y : st) pair(x, y, 8);
            g_rec.notes["all_pairs " + var] = static_cast<long long>(st.size() * st.size());
        }
        else
            for (std::size_t i = 0; i < limit; i++)
            {
                const Vec& x = st[g.below(static_cast<int>(st.size()))];
                pair(x, g.below(4) == 0 ? x : st[g.below(static_cast<int>(st.size()))], 8);
            }
        a.drop();
        b.drop();
    }
    // larger capacities: values reached by random histories
    void walk(int n)
    {
        for (int i = 0; i < n; i++)
        {
            const int la = g.below(5 * A::cap), lb = g.below(5 * A::cap);
            for (const Call& c : calls())
            {
                const bool same = g.below(5) == 0;
                auto get = [&](Holder<A>& x, int l)
                {
                    for (int t = 0; t < 20; t++) { if (!x.fresh()) return false; x.random(sigs, g, l); if (x.sl.alive && A::sane(x.s)) return true; }
                    return false;
                };
                if (!get(a, la)) { g_rec.notes["goto_failed"]++; continue; }
                if (same ? !b.bring(a.s, sigs, g, 5) : !get(b, lb)) { g_rec.notes["goto_failed"]++; continue; }
                g_rec.paths += 2;
                perform(c);
            }
        }
        a.drop();
        b.drop();
    }
};
inline int pair_report()
{
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
}  // namespace h
