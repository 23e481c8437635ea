// Iterator laws.  -DPSEQ -DHK= -DHT= | -DORD ... | -DHSH ... | -DPENUM -DHVT= | -DPEARR -DHVT= | -DPSTR | -DPRANGE
#include "seq.hpp"
#include "enums.hpp"
#include "earr.hpp"
#include "str.hpp"
#include "iter.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/integer_range_iterator.hpp"
using namespace h;
template <class A> void run(const std::vector<Vec>& st, int rounds, int prefix = 8)
{
    IterDriver<A> d(g_conf.sigs[A::tname()]);
    d.cover(st, rounds * g_conf.scale, prefix, g_conf.seed * 57 + A::cap);
}
template <class A> void big(int probes = 3)
{
    IterDriver<A> d(g_conf.sigs[A::tname()]);
    d.far(static_cast<int>(g_conf.get("bigruns", 2)) * g_conf.scale, probes, g_conf.seed * 59 + A::cap);
}
#if defined(PSEQ)
template <std::size_t N> using A = SeqA<Kind::HK, HT, N>;
void main_() { run<A<1>>(all_seqs(NV, 1), 2); run<A<2>>(all_seqs(NV, 2), 3); run<A<3>>(all_seqs(NV, 3), 2); run<A<4>>(all_seqs(2, 4), 1, 12); big<A<7>>(); big<A<11>>(2); }
#elif defined(ORD)
using CCt = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
template <std::size_t N> using A = AssocA<OrdCfg<HKT, HVT, N, HCMP, CCt::HCC, fc::HST>>;
void main_() { run<A<1>>(A<1>::states(), 1); run<A<2>>(A<2>::states(), 1); run<A<3>>(A<3>::states(), 1); big<A<8>>(); big<A<12>>(2); }
#elif defined(HSH)
template <std::size_t N> using A = AssocA<HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, (HBM ? N : default_buckets<N>)>>;
void main_() { run<A<1>>(A<1>::states(), 1); run<A<2>>(A<2>::states(), 1); run<A<3>>(A<3>::states(), 1); big<A<8>>(); big<A<12>>(2); }
#elif defined(PENUM)
template <class K> using A = AssocA<EnumCfg<K, HVT>>;
template <class K> void go() { run<A<K>>(A<K>::states(), 1); }
void main_() { go<E1>(); go<E2>(); go<E3>(); go<R3>(); go<X3>(); go<E4>(); big<A<E17>>(2); }
#elif defined(PEARR)
template <class K> void go() { run<EArrA<K, HVT>>(EArrA<K, HVT>::states(), 1); }
void main_() { go<E1>(); go<E2>(); go<E3>(); go<R3>(); }
#elif defined(PSTR)
void main_() { run<StrA<1>>(all_seqs(NVS, 1), 1); run<StrA<3>>(all_seqs(NVS, 3), 1); big<StrA<9>>(2); }
#else
// ---- ranges: t, parameters; begin/end built from the public iterator types
struct Rec
{
    const char* t;
    Vec cont;
    int code(std::size_t x) const { return x > 1000000 ? -1 : static_cast<int>(x); }
    void contents(auto&, Vec& out) { out = cont; }
    void record(const std::string& s, const std::string& i, const std::string& op, K k, const std::string& r, const std::string& n)
    {
        std::string line = std::string("{\"t\":\"") + t + "\",\"s\":" + s + ",\"i\":" + i + ",\"o\":" + op + ",\"k\":\"" + kname(k) + "\",\"r\":" + r + ",\"n\":" + n + "}";
        g_rec.per_variant[t]++;
        g_rec.line(k, std::move(line), t, [&] { return s; });
    }
};
template <class F> struct Span   // F(dir, at) -> iterator of that direction whose base is `at`
{
    F f;
    std::size_t lo, hi;
    auto begin() const { return f(std::integral_constant<int, 0>{}, lo); }
    auto end() const { return f(std::integral_constant<int, 0>{}, hi); }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto rbegin() const { return f(std::integral_constant<int, 1>{}, hi); }
    auto rend() const { return f(std::integral_constant<int, 1>{}, lo); }
    auto crbegin() const { return rbegin(); }
    auto crend() const { return rend(); }
};
template <int D> constexpr auto DIRN = D == 0 ? fc::IteratorDirection::FORWARD : fc::IteratorDirection::REVERSE;
template <class F> void probe(const char* t, const Vec& params, const Vec& content, std::size_t lo, std::size_t hi, F f)
{
    Rec rec{t, content};
    Span<F> sp{f, lo, hi};
    for (int k = 0; k < 2; k++)
    {
        IterProbe<Span<F>, Rec> p{sp, rec, params, static_cast<int>(content.size()), 40, k * 3};
        p.all();
    }
    g_rec.paths++;
}
struct Mask { unsigned m = 0; std::size_t a = 0; constexpr bool operator()(std::size_t i) const { return ((m >> (i - a)) & 1) != 0; } constexpr bool operator==(const Mask&) const = default; };
template <std::size_t A, std::size_t B> void ct()
{
    Vec c;
    for (std::size_t i = A; i < B; i++) c.push_back(static_cast<int>(i));
    using R = fc::CompileTimeIntegerRange<A, B>;
    probe("irange", {int(A), int(B)}, c, A, B, [](auto d, std::size_t at) { return fc::IntegerRangeIterator<DIRN<decltype(d)::value>, R>(R{}, at); });
}
void main_()
{
    const int W = 4 + (g_conf.scale > 1);
    for (int a = 0; a <= 5; a++)
        for (int b = a; b <= a + W; b++)
        {
            Vec c;
            for (int i = a; i < b; i++) c.push_back(i);
            const auto rg = fc::IntegerRange::closed_open(static_cast<std::size_t>(a), static_cast<std::size_t>(b));
            const auto lo = static_cast<std::size_t>(a), hi = static_cast<std::size_t>(b);
            probe("irange", {a, b}, c, lo, hi, [=](auto d, std::size_t at) { return fc::IntegerRangeIterator<DIRN<decltype(d)::value>>(rg, at); });
            if (a > 2) continue;
            for (int m = 0; m < (1 << (b - a)); m++)
            {
                Vec f;
                for (int i = a; i < b; i++) if ((m >> (i - a)) & 1) f.push_back(i);
                probe("frange", {a, b, m}, f, lo, hi, [=](auto d, std::size_t at) { return fc::FilteredIntegerRangeIterator<Mask, DIRN<decltype(d)::value>>(rg, at, Mask{static_cast<unsigned>(m), lo}); });
            }
            for (int st = a; st < b; st++)
                for (int n = 0; n <= 2 * (b - a) + 1; n++)
                {
                    Vec f;
                    for (int i = 0; i < n; i++) f.push_back(a + (st - a + i) % (b - a));
                    probe("crange", {a, b - a, st, n}, f, 0, static_cast<std::size_t>(n), [=](auto d, std::size_t at)
                          { return fc::CircularIntegerRangeIterator<DIRN<decltype(d)::value>>(rg, fc::StartingIntegerAndDistance{static_cast<std::size_t>(st), at}); });
                }
        }
    ct<0, 0>(); ct<0, 3>(); ct<2, 2>(); ct<2, 5>();
}
#endif
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    main_();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
