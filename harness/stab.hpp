// Iterators and references held across calls (StabOps.tla).
#pragma once
#include "drive.hpp"
#include "seq.hpp"
#include "enums.hpp"
namespace h
{
template <class A>
struct StabDriver
{
    using C = typename A::C;
    using It = decltype(std::declval<C&>().begin());
    using CIt = decltype(std::declval<const C&>().begin());
    struct Handle
    {
        It it;
        CIt ci;
        const void* p0;
        const void* p1;
    };
    const std::vector<Sig>& sigs;
    std::string var = A::variant();
    Rng g;
    Slot<C> sl;
    Vec s;
    std::vector<Handle> held;
    std::vector<It> ends;
    std::vector<CIt> cends;
    std::vector<Op> hist;
    std::map<int, std::vector<Op>> by_len;
    static constexpr bool BI = requires(It& x) { --x; };
    static constexpr bool SEQ = requires { A::kind; };
    StabDriver(const std::vector<Sig>& sg, std::uint64_t seed) : sigs(sg), g(seed) {}

    const std::vector<Op>& ops(int len)
    {
        auto it = by_len.find(len);
        if (it != by_len.end()) return it->second;
        std::vector<Op> v;
        for (auto& o : ops_of(sigs, A::nv, A::cap, len)) if (A::supports(o)) v.push_back(o);
        return by_len[len] = std::move(v);
    }
    template <class I> static const void* addr0(const I& i)
    {
        if constexpr (SEQ) return &*i;
        else if constexpr (A::MAP) return std::addressof((*i).second);
        else return std::addressof(*i);
    }
    template <class I> static const void* addr1(const I& i)
    {
        if constexpr (!SEQ) { if constexpr (A::MAP) return std::addressof((*i).first); else return nullptr; }
        else return nullptr;
    }
    static int through(const Handle& h)   // the value at the remembered address
    {
        if constexpr (SEQ) { using T = typename C::value_type; return val(*static_cast<const T*>(h.p0)); }
        else if constexpr (A::MAP) return code(true, kval(*static_cast<const typename A::Kt*>(h.p1)), val(*static_cast<const typename A::V*>(h.p0)));
        else return code(false, kval(*static_cast<const typename A::Kt*>(h.p0)), 0);
    }
    Handle grab(int p) { C& c = sl.get(); auto i = A::mit(c, p); auto j = A::cit(c, p); return Handle{i, j, addr0(j), addr1(j)}; }

    bool take()      // fresh handles for everything
    {
        return guarded([&] {
            A::observe(sl.get(), s);
            held.clear();
            for (int i = 0; i < static_cast<int>(s.size()); i++) held.push_back(grab(i));
            ends.clear(); cends.clear();
            ends.push_back(sl.get().end());
            cends.push_back(static_cast<const C&>(sl.get()).end());
        }) == K::ok;
    }
    bool fresh()
    {
        if (sl.alive) guarded([&] { std::destroy_at(&sl.get()); });
        sl.wipe();
        held.clear();
        hist.clear();
        sl.alive = guarded([&] { A::create(sl.raw()); }) == K::ok;
        return sl.alive && take();
    }
    // position of an iterator among the current ones, 1-based; len+1 for end(); 0: none of them
    template <class I> int where(const I& w)
    {
        C& c = sl.get();
        int k = 1;
        if constexpr (std::is_same_v<I, It> && !std::is_same_v<It, CIt>)
        {
            for (auto j = c.begin();; ++j, ++k)
            {
                if (j == w) return k;
                if (j == c.end() || k > A::cap + 2) return 0;
            }
        }
        else
        {
            const C& cc = c;
            for (auto j = cc.begin();; ++j, ++k)
            {
                if (j == w) return k;
                if (j == cc.end() || k > A::cap + 2) return 0;
            }
        }
    }
    template <class I> void follow(const I& it, int& iv, int& fwd, int& back, bool cst)
    {
        C& c = sl.get();
        const C& cc = c;
        if constexpr (SEQ) iv = val(*it); else iv = A::ecode(*it);
        auto f = it;
        fwd = 0;
        if (cst) for (CIt e = cc.end(); !(CIt(f) == e) && fwd < A::cap + 3; ++f) fwd++;
        else for (auto e = c.end(); !(CIt(f) == CIt(e)) && fwd < A::cap + 3; ++f) fwd++;
        back = -1;
        if constexpr (BI)
        {
            auto b = it;
            back = 0;
            for (CIt e = cc.begin(); !(CIt(b) == e) && back < A::cap + 3; --b) back++;
        }
    }
    // returns false when the object is no longer usable
    bool step(const Op& op)
    {
        const Vec before = s;
        Js ret;
        ret.b = "[";
        hist.push_back(op);
        K k = guarded([&] { A::apply(sl.get(), op, ret); });
        if (k != K::ok || !sl.canaries()) { sl.alive = false; return false; }
        Vec n;
        std::string hj = "[";
        int e = -1;
        std::vector<Handle> next;
        k = guarded([&]
        {
            A::observe(sl.get(), n);
            if (!A::sane(n)) return;
            std::vector<Handle> cur;
            for (int i = 0; i < static_cast<int>(n.size()); i++) cur.push_back(grab(i));
            for (auto& x : cur) next.push_back(x);
            for (std::size_t i = 0; i < held.size(); i++)
            {
                Handle& x = held[i];
                int ipos = where(x.it), cpos = where(x.ci), apos = 0;
                for (std::size_t j = 0; j < cur.size(); j++) if (cur[j].p0 == x.p0 && cur[j].p1 == x.p1) { apos = static_cast<int>(j) + 1; break; }
                if (ipos > static_cast<int>(n.size())) ipos = 0;
                if (cpos > static_cast<int>(n.size())) cpos = 0;
                int iv = -1, fwd = -1, back = -1, iv2 = -1, fwd2 = -1, back2 = -1, pv = -1;
                if (ipos > 0) follow(x.it, iv, fwd, back, false);
                if (cpos > 0) follow(x.ci, iv2, fwd2, back2, true);
                if (apos > 0) pv = through(x);
                // the mutable and the const iterator must agree
                if (ipos != cpos) { ipos = -7; }
                else if (iv != iv2 || fwd != fwd2 || back != back2) ipos = -8;
                if (i) hj += ',';
                hj += "[" + std::to_string(ipos) + "," + std::to_string(apos) + "," + std::to_string(iv) + "," + std::to_string(pv) + "," + std::to_string(fwd) + "," + std::to_string(back) + "]";
                // the oldest handle on an element is kept
                if (apos > 0 && ipos == apos) next[apos - 1] = x;
            }
            const int we = where(ends[0]) - 1, wc = where(cends[0]) - 1;
            e = we == wc ? we : -2;
        });
        hj += "]";
        if (k == K::ok && !A::sane(n)) { sl.alive = false; return false; }
        if (k != K::ok) { hj = "[]"; e = -9; sl.alive = false; if (k == K::hang && ++g_rec.notes["hangs"] >= 3) g_rec.finish("hang"); }
        std::string line = std::string("{\"t\":\"") + A::tname() + "\",\"c\":" + std::to_string(A::cap) + ",\"s\":" + js(before) + ",\"o\":" + op.json() +
                           ",\"n\":" + js(n) + ",\"h\":" + hj + ",\"e\":" + std::to_string(e) + "}";
        g_rec.per_variant[var]++;
        g_rec.line(k, std::move(line), var, [&] { std::string r; for (auto& o : hist) { r += o.json(); r += ' '; } return r; });
        if (!sl.alive) return false;
        s = n;
        held = std::move(next);
        if (e != static_cast<int>(n.size())) { ends[0] = sl.get().end(); cends[0] = static_cast<const C&>(sl.get()).end(); }
        return true;
    }
    static bool arrived(const Vec& a, const Vec& t)
    {
        if constexpr (requires { A::arrived(a, t); }) return A::arrived(a, t);
        else return a == t;
    }
    bool goto_state(const Vec& target, int prefix)
    {
        if (!fresh()) return false;
        for (int t = 0; t < prefix; t++)
        {
            const auto& os = ops(static_cast<int>(s.size()));
            if (!step(os[g.below(static_cast<int>(os.size()))]) && !fresh()) return false;
        }
        for (int tries = 0; tries < 4 * A::cap + 8; tries++)
        {
            Op op;
            if (!A::towards(s, target, g, op)) break;
            if (!step(op)) return false;
        }
        return arrived(s, target);
    }
    void cover(const std::vector<Vec>& states, int rounds, int prefix)
    {
        for (int r = 0; r < rounds; r++)
            for (const Vec& st : states)
            {
                const auto os = ops(static_cast<int>(st.size()));
                for (const Op& op : os)
                {
                    if (A::is_ctor(op)) continue;
                    if (!goto_state(st, g.below(prefix + 1))) { g_rec.notes["goto_failed"]++; continue; }
                    g_rec.paths++;
                    step(op);
                }
            }
        fresh();
    }
    void walk(int runs, int steps)
    {
        for (int r = 0; r < runs; r++)
        {
            if (!fresh()) return;
            g_rec.paths++;
            for (int t = 0; t < steps; t++)
            {
                const Sig& sg = sigs[g.below(static_cast<int>(sigs.size()))];
                Op op;
                if (!random_op(sg, g, A::nv, A::cap, static_cast<int>(s.size()), op) || !A::supports(op)) continue;
                if (op.name == "copy" || op.name == "move" || op.name.find("assign") != std::string::npos) if (g.below(8)) continue;
                const bool shrinking = (t / (2 * A::cap + 4)) % 2 == 1;
                if (!A::bias(op, shrinking, g)) continue;
                if (!step(op) && !fresh()) return;
            }
        }
        fresh();
    }
};
}  // namespace h
