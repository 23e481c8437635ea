// Iterator operations (IterOps.tla) on any container adapter, and on the integer ranges.
#pragma once
#include "drive.hpp"
namespace h
{
// One iterable thing: how to obtain its begin/end of each direction and constness. DIR 0 forward, 1 reverse; CST 0 mutable, 1 const.
template <class C, int DIR, int CST>
struct Ends
{
    static auto b(C& c)
    {
        if constexpr (DIR == 0) { if constexpr (CST) return c.cbegin(); else return c.begin(); }
        else { if constexpr (CST) return c.crbegin(); else return c.rbegin(); }
    }
    static auto e(C& c)
    {
        if constexpr (DIR == 0) { if constexpr (CST) return c.cend(); else return c.end(); }
        else { if constexpr (CST) return c.crend(); else return c.rend(); }
    }
    static auto cb(const C& c) { if constexpr (DIR == 0) return c.begin(); else return c.rbegin(); }
    static auto ce(const C& c) { if constexpr (DIR == 0) return c.end(); else return c.rend(); }
};
template <class C> concept Reversible = requires(C& c) { c.rbegin(); c.crend(); };

// V: name, cap, code(ref) -> int, write(it, v), rebuild observation of the contents
template <class C, class Probe>
struct IterProbe
{
    static constexpr bool MUT = !std::is_same_v<decltype(std::declval<C&>().begin()), decltype(std::declval<C&>().cbegin())>;
    C& c;
    Probe& pr;
    const Vec& s;       // identification written to the record
    const int L;
    const int lim;
    int route = 0;
    Js r;

    template <int DIR, int CST> auto at(int p)
    {
        using E = Ends<C, DIR, CST>;
        using I = decltype(E::b(c));
        constexpr bool BI = requires(I& x) { --x; };
        constexpr bool RA = std::random_access_iterator<I>;
        const int w = route++ % 5;
        if constexpr (BI) if (w == 1) { auto i = E::e(c); for (int k = L; k > p; k--) --i; return i; }
        if constexpr (RA) if (w == 2) return E::b(c) + p;
        if constexpr (CST == 1 && MUT) if (w == 3) { auto m = Ends<C, DIR, 0>::b(c); for (int k = 0; k < p; k++) ++m; I i = m; return i; }
        if constexpr (CST == 1) if (w == 4) { I i = E::cb(c); for (int k = 0; k < p; k++) i++; return i; }
        auto i = E::b(c);
        for (int k = 0; k < p; k++) ++i;
        return i;
    }
    template <int DIR, int CST, class I> void walk(I i)
    {
        r.open();
        int g = 0;
        for (I e = Ends<C, DIR, CST>::e(c); i != e && g < lim; ++i, ++g) r.i(pr.code(*i));
        r.close();
    }
    template <class I> int arrow(const I& i)
    {
        if constexpr (std::is_pointer_v<I>) return pr.code(*i);
        else
        {
            auto p = i.operator->();
            if constexpr (std::is_pointer_v<decltype(p)>) return pr.code(*p); else return pr.code(*p.operator->());
        }
    }
    template <int DIR, int CST> void one(int p)
    {
        using I = decltype(Ends<C, DIR, CST>::b(c));
        constexpr bool BI = requires(I& x) { --x; };
        constexpr bool RA = std::random_access_iterator<I>;
        auto emit = [&](const std::string& op, auto&& f)
        {
            r.reset();
            r.b = "[";
            K k = guarded([&] { f(); });
            std::string n = "[]", rr = "[]";
            if (k == K::ok) { rr = std::string(r.b) + "]"; Vec v; if (guarded([&] { pr.contents(c, v); }) == K::ok) n = js(v); else k = K::corrupt; }
            pr.record(js(s), "[" + std::to_string(DIR) + "," + std::to_string(CST) + "," + std::to_string(p) + "]", op, k, rr, n);
            return k == K::ok;
        };
        auto W = [&](const I& i) { walk<DIR, CST>(i); };
        emit("[\"walk\"]", [&] { W(at<DIR, CST>(p)); });
        emit("[\"copies\"]", [&] {
            I a = at<DIR, CST>(p);
            I b(a);
            I d{};
            d = a;
            I e = std::move(b);
            if (p < L) { I t(a); ++t; I u = a; u++; }
            W(a); W(d); W(e);
        });
        emit("[\"dflt\"]", [&] { I a{}, b{}; r.i((a == b) && !(a != b)); });
        if (p < L)
        {
            emit("[\"deref\"]", [&] { I a = at<DIR, CST>(p); r.i(pr.code(*a)); r.i(arrow(a)); });
            emit("[\"pre_inc\"]", [&] { I a = at<DIR, CST>(p); auto& q = ++a; r.i(&q == &a); W(a); });
            emit("[\"post_inc\"]", [&] { I a = at<DIR, CST>(p); I o = a++; W(o); W(a); });
        }
        if constexpr (BI)
            if (p > 0)
            {
                emit("[\"pre_dec\"]", [&] { I a = at<DIR, CST>(p); auto& q = --a; r.i(&q == &a); W(a); });
                emit("[\"post_dec\"]", [&] { I a = at<DIR, CST>(p); I o = a--; W(o); W(a); });
            }
        if constexpr (DIR == 1)
            emit("[\"base\"]", [&] { I a = at<DIR, CST>(p); auto b = a.base(); walk<0, CST>(b); });
        for (int q = 0; q <= L; q++)
        {
            const std::string qs = std::to_string(q);
            emit("[\"swap\"," + qs + "]", [&] { I a = at<DIR, CST>(p); I b = at<DIR, CST>(q); using std::swap; swap(a, b); W(a); W(b); });
            if constexpr (RA)
            {
                const auto d = static_cast<std::ptrdiff_t>(q - p);
                emit("[\"move\"," + qs + "]", [&] {
                    const I a = at<DIR, CST>(p);
                    W(a + d); W(d + a);
                    I x = a; auto& x1 = (x += d); W(x);
                    W(a - (-d));
                    I y = a; auto& y1 = (y -= -d); W(y);
                    r.i(&x1 == &x && &y1 == &y);
                    W(a);
                });
                if (q < L) emit("[\"idx\"," + qs + "]", [&] { const I a = at<DIR, CST>(p); r.i(pr.code(a[d])); });
            }
            auto rel = [&](const auto& a, const auto& b) {
                r.i(a == b).i(a != b).i(b == a);
                if constexpr (RA) r.i(a - b).i(b - a).i(a < b).i(a > b).i(a <= b).i(a >= b);
            };
            emit("[\"rel\"," + qs + ",1]", [&] { auto a = at<DIR, CST>(p); auto b = at<DIR, 1>(q); rel(a, b); });
            if constexpr (MUT) emit("[\"rel\"," + qs + ",0]", [&] { auto a = at<DIR, CST>(p); auto b = at<DIR, 0>(q); rel(a, b); });
        }
        if constexpr (CST == 0)
        {
            emit("[\"conv\"]", [&] {
                I a = at<DIR, 0>(p);
                decltype(Ends<C, DIR, 1>::b(c)) x = a;
                walk<DIR, 1>(x);
                r.i(x == a && a == x);
            });
            if constexpr (requires { pr.write(at<DIR, 0>(p), 0); })
                if (p < L)
                    for (int v = 0; v < 2; v++)
                    {
                        int old = -1;
                        if (!emit("[\"write\"," + std::to_string(v) + "]", [&] { I a = at<DIR, 0>(p); old = pr.code(*a); pr.write(a, v); })) return;
                        if (guarded([&] { pr.write(at<DIR, 0>(p), pr.value_of(old)); }) != K::ok) return;
                    }
        }
    }
    template <int DIR> void dir()
    {
        for (int p = 0; p <= L; p++)
        {
            one<DIR, 1>(p);
            if constexpr (MUT) one<DIR, 0>(p);
        }
    }
    void all()
    {
        dir<0>();
        if constexpr (Reversible<C>) dir<1>();
    }
};

// ---- containers: reach a state by the adapter's calls, then probe
template <class A>
struct IterDriver : Driver<A>
{
    using C = typename A::C;
    using Base = Driver<A>;
    explicit IterDriver(const std::vector<Sig>& s) : Base(s) {}
    static constexpr bool SEQ = requires { A::kind; };
    static constexpr bool RA = std::random_access_iterator<decltype(std::declval<C&>().begin())>;
    std::vector<Op>* hist = nullptr;
    int code(const auto& x) const { return A::rcode(x); }
    static int value_of(int code)
    {
        if constexpr (requires { A::MAP; }) { if constexpr (A::MAP) return code % 100; else return code; }
        else return code;
    }
    template <class I> void write(const I& i, int v)
        requires(requires { typename A::V; } ? requires(const I& x) { (*x).second; } : requires(const I& x) { *x = *x; })
    {
        if constexpr (requires { typename A::V; }) (*i).second = mk<typename A::V>(v);
        else if constexpr (requires { A::element(v); }) *i = A::element(v);
        else *i = mk<std::remove_cvref_t<decltype(*i)>>(v);
    }
    // the contents read without iterators where the container offers another way
    void contents(C& c, Vec& out)
    {
        const C& cc = c;
        if constexpr (SEQ && RA) { out.clear(); for (std::size_t i = 0; i < cc.size() && i < A::cap + 3; i++) out.push_back(A::rcode(cc[i])); }
        else if constexpr (requires { A::MAP; })
        {
            if constexpr (!A::HASHED && !A::coarse)
            {
                out.clear();
                for (int j = 0; j < A::nv; j++)
                {
                    const int k = A::descending ? A::nv - 1 - j : j;
                    if (!A::has(cc, k)) continue;
                    if constexpr (A::MAP) { const typename A::Kt x = mkk<typename A::Kt>(k); out.push_back(h::code(true, k, val(cc.at(x)))); }
                    else out.push_back(k);
                }
                if (out.size() != cc.size()) out.push_back(-9);
            }
            else A::observe(c, out);
        }
        else if constexpr (SEQ) { if constexpr (A::COPY) { C d(cc); out.clear(); while (!d.empty() && static_cast<int>(out.size()) < A::cap + 3) { out.push_back(A::rcode(d.front())); d.pop_front(); } } else A::observe(c, out); }
        else A::observe(c, out);
    }
    void record(const std::string& s, const std::string& i, const std::string& op, K k, const std::string& r, const std::string& n)
    {
        std::string line = std::string("{\"t\":\"") + A::tname() + "\",\"s\":" + s + ",\"i\":" + i + ",\"o\":" + op + ",\"k\":\"" + kname(k) + "\",\"r\":" + r + ",\"n\":" + n + "}";
        g_rec.per_variant[this->var]++;
        g_rec.line(k, std::move(line), this->var, [&] { return hist ? Base::hist_str(*hist) : std::string(); });
    }
    int turn = 0;
    bool probe(Slot<C>& sl)
    {
        Vec s;
        if (guarded([&] { contents(sl.get(), s); }) != K::ok) return false;
        if constexpr (requires { A::MAP; }) { if constexpr (A::HASHED) { int g = 0; Vec keys; for (int k = 0; k < A::nv; k++) if (A::has(sl.get(), k)) g++; if (!A::coarse && g != static_cast<int>(s.size())) s.push_back(-9); } }
        IterProbe<C, IterDriver> p{sl.get(), *this, s, static_cast<int>(s.size()), A::cap + 4, turn++};
        p.all();
        return sl.canaries();
    }
    void cover(const std::vector<Vec>& states, int rounds, int prefix, std::uint64_t seed)
    {
        Rng g(seed);
        Slot<C> sl;
        std::vector<Op> h_;
        hist = &h_;
        for (int rd = 0; rd < rounds; rd++)
            for (const Vec& st : states)
            {
                Vec at;
                g_rec.mute = true;
                const bool there = this->goto_state(sl, st, g, g.below(prefix + 1), h_, at);
                g_rec.mute = false;
                if (!there) { g_rec.notes["goto_failed"]++; continue; }
                g_rec.paths++;
                if (!probe(sl)) { sl.wipe(); sl.alive = false; }
            }
        this->fresh(sl);
        hist = nullptr;
    }
    // random histories, probing at random moments
    void far(int runs, int probes, std::uint64_t seed)
    {
        Rng g(seed);
        Slot<C> sl;
        std::vector<Op> h_;
        hist = &h_;
        for (int rn = 0; rn < runs; rn++)
        {
            this->fresh(sl);
            h_.clear();
            Vec s;
            if (!sl.alive || !this->look(sl, s)) return;
            g_rec.paths++;
            for (int t = 0, done = 0; t < 4000 && done < probes; t++)
            {
                const Sig& sg = this->sigs[g.below(static_cast<int>(this->sigs.size()))];
                Op op;
                if (!random_op(sg, g, A::nv, A::cap, static_cast<int>(s.size()), op) || !A::supports(op)) continue;
                if (!A::bias(op, (t / (3 * A::cap + 20)) % 2 == 1, g)) continue;
                h_.push_back(op);
                Js ret;
                if (guarded([&] { A::apply(sl.get(), op, ret); }) != K::ok || !sl.canaries() || !this->look(sl, s) || !A::sane(s)) { sl.alive = false; this->fresh(sl); h_.clear(); if (!sl.alive || !this->look(sl, s)) return; continue; }
                if (g.below(12) == 0 && static_cast<int>(s.size()) * 3 >= A::cap) { done++; if (!probe(sl)) return; }
            }
        }
        this->fresh(sl);
        hist = nullptr;
    }
};
}  // namespace h
