// Exploration drivers, generic over an adapter A (see seq.hpp).
#pragma once
#include "elems.hpp"
#ifdef SELF
#include "self.hpp"
#endif
namespace h
{
struct StepOut { bool alive; Vec n; bool fresh; };

template <class A>
struct Driver
{
    using C = typename A::C;
    const std::vector<Sig>& sigs;
    std::string var = A::variant();
    std::map<int, std::vector<Op>> by_len;
    explicit Driver(const std::vector<Sig>& s) : sigs(s)
    {
        if (s.empty()) { std::fprintf(stderr, "no calls known for %s\n", A::tname()); _exit(4); }
    }

    const std::vector<Op>& ops(int len)
    {
        auto it = by_len.find(len);
        if (it != by_len.end()) return it->second;
        std::vector<Op> v;
        for (auto& o : ops_of(sigs, A::nv, A::cap, len)) if (A::supports(o)) v.push_back(o);
        return by_len[len] = std::move(v);
    }

    // observe under guard; verdict "corrupt" when the container cannot even be read
    bool look(Slot<C>& sl, Vec& n)
    {
        K k = guarded([&] { A::observe(sl.get(), n); });
        return k == K::ok;
    }
    Js ret;
    // width in logged objects per element; 0: ordinary value-level recording
    static constexpr int LW = [] { if constexpr (requires { A::lw; }) return A::lw; else return 0; }();
    template <class P>
    StepOut step(Slot<C>& sl, const Vec& s, const std::string& sjs, const Op& op, P&& path)
    {
#ifdef SELF
        (void)s;
        return self_step(sl, sjs, op, path);
#else
        ret.reset();
        ret.b = "[";
        StepOut so{true, {}, false};
        if constexpr (LW > 0) g_life.begin(sl.buf->obj, sizeof(C));
        K k = guarded([&] { A::apply(sl.get(), op, ret); });
        if constexpr (LW > 0) g_life.end();
        std::string r = k == K::ok ? std::string(ret.b) + "]" : "[]";
        std::string n = "[]";
        if (!sl.canaries()) { k = K::canary; sl.wipe(); so.alive = false; }
        if (k == K::ok)
        {
            if (!look(sl, so.n)) { k = K::corrupt; so.alive = false; }
            else { n = js(so.n); if (!A::sane(so.n)) so.alive = false; }
        }
        else so.alive = false;
        sl.alive = so.alive;
        if constexpr (LW > 0)
        {
            g_rec.per_variant[var]++;
            if (k == K::ok || k == K::corrupt || k == K::crash || k == K::hang || k == K::canary)
            {
                const bool good = k == K::ok;
                so.fresh = g_rec.line(k, g_life.json(A::tname(), A::cap, op.json(), k, LW, good ? so.n.size() : 999999), var, path);
            }
            return so;
        }
        so.fresh = g_rec.rec(A::tname(), A::cap, sjs, op.json(), k, r, n, var, path);
        g_rec.per_variant[var]++;
        (void)s;
        return so;
#endif
    }
#ifdef SELF
    // the call is made on a byte copy at another address, the original bytes overwritten; a second copy is watched, then given the same call
    Slot<C> there, twin;
    template <class P>
    StepOut self_step(Slot<C>& sl, const std::string& sjs, const Op& op, P&& path)
    {
        StepOut so{true, {}, false};
        Slot<C>& at = A::trivial ? there : sl;
        if constexpr (A::trivial)
        {
            there.wipe();
            twin.wipe();
            std::memcpy(there.buf->obj, sl.buf->obj, sizeof(C));
            std::memcpy(twin.buf->obj, sl.buf->obj, sizeof(C));
            std::memset(sl.buf->obj, 0xEE, sizeof(C));
        }
        std::string r, n = "[]", w = sjs, r2, n2 = "[]", v;
        long long al = 0;
        auto run = [&](Slot<C>& x, std::string& rr, std::string& nn, Vec& nv, bool& alive) -> K
        {
            ret.reset();
            ret.b.reserve(4096);
            ret.b = "[";
            nv.clear();
            const long long a0 = g_allocs - g_own_allocs;
            K k = guarded([&] { A::apply(x.get(), op, ret); });
            al += g_allocs - g_own_allocs - a0;
            alive = true;
            rr = k == K::ok ? std::string(ret.b) + "]" : "[]";
            if (!x.canaries()) { k = K::canary; alive = false; }
            else if (k == K::ok)
            {
                if (!look(x, nv)) { k = K::corrupt; alive = false; }
                else { nn = js(nv); if (!A::sane(nv)) alive = false; }
            }
            else alive = false;
            return k;
        };
        const K k = run(at, r, n, so.n, so.alive);
        v = n;
        if (so.alive)
        {
            Vec raw;
            const K kv = guarded([&] { if (!raw_read<A>(at.get(), raw)) raw = so.n; });
            v = kv == K::ok ? js(raw) : "[-77]";
        }
        K k2 = k;
        r2 = r; n2 = n;
        if constexpr (A::trivial)
        {
            Vec x;
            w = look(twin, x) ? js(x) : "[-77]";
            bool alive2;
            n2 = "[]";
            k2 = run(twin, r2, n2, x, alive2);
            std::memcpy(sl.buf->obj, there.buf->obj, sizeof(C));
        }
        sl.alive = so.alive;
        g_rec.per_variant[var]++;
        std::string line = std::string("{\"t\":\"") + A::tname() + "\",\"c\":" + std::to_string(A::cap) + ",\"s\":" + sjs + ",\"o\":" + op.json() + ",\"k\":\"" + kname(k) +
                           "\",\"r\":" + r + ",\"n\":" + n + ",\"al\":" + std::to_string(al) + ",\"w\":" + w + ",\"k2\":\"" + kname(k2) + "\",\"r2\":" + r2 + ",\"n2\":" + n2 +
                           ",\"v\":" + v + "}";
        so.fresh = g_rec.line(k, std::move(line), var, path);
        return so;
    }
#endif
    void fresh(Slot<C>& sl)
    {
        if (sl.alive)
        {
            if constexpr (LW > 0) g_life.begin(sl.buf->obj, sizeof(C));
            K k = guarded([&] { std::destroy_at(&sl.get()); });
            if constexpr (LW > 0)
            {
                g_life.end();
                g_rec.line(k, g_life.json(A::tname(), A::cap, "[\"destroy\"]", k, LW, 0), var, [] { return std::string("destructor"); });
            }
        }
        if constexpr (LW > 0) g_life.purge(sl.buf->obj, sizeof(C));
        sl.wipe();
        K k = guarded([&] { A::create(sl.raw()); });
        sl.alive = k == K::ok;
    }

    // ---- exhaustive exploration of concrete (byte-level) states, trivially copyable containers
    void bfs(std::size_t max_states, std::uint64_t seed)
    {
        if (!A::trivial) return;
        struct Node { std::string bytes; Vec abs; int parent; int op; int len; };
        std::deque<Node> nodes;
        std::unordered_set<std::string> known;
        Slot<C> sl;
        fresh(sl);
        auto bytes = [&] { return std::string(reinterpret_cast<char*>(sl.buf->obj), sizeof(C)); };
        Vec s0;
        if (!look(sl, s0)) s0 = {-999};
        nodes.push_back({bytes(), s0, -1, -1, 0});
        known.insert(nodes[0].bytes);
        Rng g(seed);
        bool complete = true;
        std::function<std::string(int)> path = [&](int i) -> std::string
        {
            std::string p;
            std::vector<int> chain;
            for (int x = i; x > 0; x = nodes[x].parent) chain.push_back(x);
            for (auto it = chain.rbegin(); it != chain.rend(); ++it)
                p += ops(nodes[*it].len)[nodes[*it].op].json() + " ";
            return p;
        };
        for (std::size_t i = 0; i < nodes.size(); i++)
        {
            const Vec s = nodes[i].abs;
            const std::string sj = js(s);
            const auto& os = ops(static_cast<int>(s.size()));
            for (std::size_t j = 0; j < os.size(); j++)
            {
                if (A::is_ctor(os[j]) && i != 0) continue;
                std::memcpy(sl.buf->obj, nodes[i].bytes.data(), sizeof(C));
                sl.alive = true;
                auto so = step(sl, s, sj, os[j], [&] { return path(static_cast<int>(i)) + os[j].json(); });
                sl.alive = false;
                if (!so.alive) continue;
                if (nodes.size() >= max_states) { complete = false; continue; }
                std::string b = bytes();
                if (known.insert(b).second) nodes.push_back({std::move(b), so.n, static_cast<int>(i), static_cast<int>(j), static_cast<int>(s.size())});
            }
        }
        g_rec.notes["bfs_states " + var] = static_cast<long long>(nodes.size());
        g_rec.notes[complete ? "bfs_complete" : "bfs_truncated"]++;
    }

    // ---- for every abstract value: bring a container there by a random route, run every call once
    //      (route: random prefix history, then adjust through the public interface)
    static bool arrived(const Vec& s, const Vec& target)
    {
        if constexpr (requires { A::arrived(s, target); }) return A::arrived(s, target);
        else return s == target;
    }
    bool goto_state(Slot<C>& sl, const Vec& target, Rng& g, int prefix, std::vector<Op>& hist, Vec& s)
    {
        fresh(sl);
        hist.clear();
        if (!sl.alive) return false;
        if (!look(sl, s)) return false;
        auto doit = [&](const Op& op) -> bool
        {
            std::string sj = js(s);
            hist.push_back(op);
            auto so = step(sl, s, sj, op, [&] { return hist_str(hist); });
            if (!so.alive) return false;
            s = so.n;
            return true;
        };
        for (int t = 0; t < prefix; t++)
        {
            const auto& os = ops(static_cast<int>(s.size()));
            const Op& op = os[g.below(static_cast<int>(os.size()))];
            if (!doit(op)) { fresh(sl); hist.clear(); if (!look(sl, s)) return false; }
        }
        // adjust
        for (int tries = 0; tries < 4 * A::cap + 8; tries++)
        {
            Op op;
            if (!A::towards(s, target, g, op)) return arrived(s, target);
            if (!doit(op)) return false;
        }
        return arrived(s, target);
    }
    static std::string hist_str(const std::vector<Op>& h)
    {
        std::string r;
        for (auto& o : h) { r += o.json(); r += ' '; }
        return r;
    }
    void cover(const std::vector<Vec>& states, int rounds, int prefix, std::uint64_t seed)
    {
        Rng g(seed);
        Slot<C> sl;
        std::vector<Op> hist;
        for (int rd = 0; rd < rounds; rd++)
            for (const Vec& st : states)
            {
                const auto os = ops(static_cast<int>(st.size()));
                for (const Op& op : os)
                {
                    if (A::is_ctor(op) && !st.empty()) continue;
                    Vec at;
                    if (!goto_state(sl, st, g, g.below(prefix + 1), hist, at)) { g_rec.notes["goto_failed"]++; continue; }
                    hist.push_back(op);
                    g_rec.paths++;
                    step(sl, at, js(at), op, [&] { return hist_str(hist); });
                }
            }
        fresh(sl);
    }
    // ---- long random histories
    void walk(int runs, int steps, std::uint64_t seed)
    {
        Rng g(seed);
        Slot<C> sl;
        for (int rn = 0; rn < runs; rn++)
        {
            fresh(sl);
            if (!sl.alive) return;
            std::vector<Op> hist;
            Vec s;
            if (!look(sl, s)) return;
            g_rec.paths++;
            // phases bias the fill level up and down
            for (int t = 0; t < steps; t++)
            {
                const Sig& sg = sigs[g.below(static_cast<int>(sigs.size()))];
                Op op;
                if (!random_op(sg, g, A::nv, A::cap, static_cast<int>(s.size()), op) || !A::supports(op)) continue;
                const bool shrinking = (t / (2 * A::cap + 4)) % 2 == 1;
                if (!A::bias(op, shrinking, g)) continue;
                std::string sj = js(s);
                hist.push_back(op);
                auto so = step(sl, s, sj, op, [&] { return hist_str(hist); });
                if (!so.alive)
                {
                    fresh(sl);
                    hist.clear();
                    if (!sl.alive || !look(sl, s)) return;
                    continue;
                }
                s = so.n;
            }
        }
        fresh(sl);
    }
};
inline std::vector<Vec> all_seqs(int nv, int maxlen)
{
    std::vector<Vec> r{{}};
    std::size_t from = 0;
    for (int l = 1; l <= maxlen; l++)
    {
        std::size_t to = r.size();
        for (std::size_t i = from; i < to; i++)
            for (int v = 0; v < nv; v++) { Vec x = r[i]; x.push_back(v); r.push_back(x); }
        from = to;
    }
    return r;
}
}  // namespace h
