// Constant evaluation: a history is executed by the compiler and its results are kept as text (C17).
#pragma once
#include "earr.hpp"
#include "seq.hpp"
#include "str.hpp"
namespace h
{
struct CtOut
{
    static constexpr int MAX = 12000;
    char b[MAX] = {};
    int n = 0;
    constexpr void put(std::string_view s) { for (char c : s) if (n < MAX - 1) b[n++] = c; }
};
constexpr Op op_of(const char* name, std::initializer_list<int> a)
{
    Op o;
    o.name = name;
    o.id = H(name);
    for (int x : a) o.a[o.na++] = x;
    return o;
}
// one line per call: result \t next value
template <class A, std::size_t M>
constexpr CtOut replay(const Op (&ops)[M])
{
    CtOut out;
    typename A::C c = A::fresh();
    for (const Op& o : ops)
    {
        Js r;
        r.b = "[";
        A::apply(c, o, r);
        Vec n;
        A::observe(c, n);
        out.put(r.b);
        out.put("]\t");
        out.put(js(n));
        out.put("\n");
    }
    return out;
}
inline std::vector<std::string> ct_lines(const CtOut& o)
{
    std::vector<std::string> r;
    std::istringstream is(std::string(o.b, static_cast<std::size_t>(o.n)));
    for (std::string l; std::getline(is, l);) r.push_back(l);
    return r;
}
// the compiler's results are recorded as steps; a difference from the run-time results is a step nothing allows
template <class A, std::size_t M>
void emit(const Op (&ops)[M], const CtOut& ct)
{
    const auto a = ct_lines(ct);
    static CtOut rt;
    const K k = guarded([&] { rt = replay<A>(ops); });
    const auto b = k == K::ok ? ct_lines(rt) : std::vector<std::string>{};
    std::string s = "[]", hist;
    {
        Vec n;
        guarded([&] { typename A::C c = A::fresh(); A::observe(c, n); });
        s = js(n);
    }
    g_rec.paths++;
    for (std::size_t i = 0; i < M; i++)
    {
        hist += ops[i].json() + " ";
        const bool full = ct.n >= CtOut::MAX - 1;
        if (i >= a.size() || (full && i + 1 >= a.size())) { if (!full) g_rec.notes["short"]++; break; }
        const auto t = a[i].find('\t');
        const std::string r = a[i].substr(0, t), n = a[i].substr(t + 1);
        const bool same = i < b.size() && a[i] == b[i];
        g_rec.per_variant[A::variant()]++;
        g_rec.rec(A::tname(), A::cap, s, ops[i].json(), same ? K::ok : k == K::ok ? K::corrupt : k, r, n, A::variant(), [&] { return std::string("constant evaluation: ") + hist; });
        s = n;
    }
}
template <class A> void list_supported(const char* tag)
{
    for (auto& sg : g_conf.sigs[A::tname()])
    {
        Op o;
        o.name = sg.name;
        o.id = sg.id;
        o.na = static_cast<int>(sg.sorts.size());
        std::printf("SUPPORTS %s %s %s %d %d\n", tag, A::tname(), std::string(sg.name).c_str(), A::supports(o) ? 1 : 0, A::cap);
    }
}
}  // namespace h
