// Two-container checks.
// -DPSEQ -DHK=<kind> -DHT=<elem> | -DORD ... | -DHSH ... | -DPENUM -DHVT= | -DPEARR -DHVT= | -DPSTR
#include "pair.hpp"
#if defined(PSEQ)
#include "seq.hpp"
#elif defined(ORD) || defined(HSH)
#include "assoc.hpp"
#elif defined(PENUM)
#include "enums.hpp"
#elif defined(PEARR)
#include "earr.hpp"
#else
#include "str.hpp"
#endif
using namespace h;
template <class A, class X0 = NoAlt, class X1 = NoAlt>
void run(const std::vector<Vec>& st)
{
    PairDriver<A, X0, X1> d(g_conf.sigs[A::tname()], g_conf.seed * 31 + A::cap);
    d.all(st, static_cast<std::size_t>(g_conf.get("pairs", 200)) * g_conf.scale);
}
template <class A, class X0 = NoAlt, class X1 = NoAlt>
void big()
{
    PairDriver<A, X0, X1> d(g_conf.sigs[A::tname()], g_conf.seed * 37 + A::cap);
    d.walk(static_cast<int>(g_conf.get("big", 20)) * g_conf.scale);
}
#if defined(PSEQ)
template <std::size_t N> using A = SeqA<Kind::HK, HT, N>;
template <std::size_t N, class Chk> using B = SeqA<Kind::HK, HT, N, Chk>;
template <std::size_t N> void go() { run<A<N>, B<N + 1, SeqChk>, B<N, SeqChk2>>(all_seqs(NV, static_cast<int>(N))); }
void main_()
{
    if constexpr (Kind::HK != Kind::cdeque && Kind::HK != Kind::cqueue) go<0>();
    go<1>(); go<2>(); go<3>();
    big<A<9>, B<12, SeqChk2>, B<9, SeqChk2>>();
}
#elif defined(ORD)
using CCt = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr CCt CC2 = CCt::HCC == CCt::EMBEDDED_COLOR ? CCt::DEDICATED_COLOR : CCt::EMBEDDED_COLOR;
template <std::size_t N> using A = AssocA<OrdCfg<HKT, HVT, N, HCMP, CCt::HCC, fc::HST>>;
template <std::size_t N> using B = AssocA<OrdCfg<HKT, HVT, N, HCMP, CC2, fc::FixedIndexBasedContiguousStorage, true>>;
template <std::size_t N> using D = AssocA<OrdCfg<HKT, HVT, N, HCMP, CC2, fc::FixedIndexBasedPoolStorage, true>>;
template <std::size_t N> void go() { run<A<N>, B<N + 1>, D<N>>(A<N>::states()); }
void main_() { go<0>(); go<1>(); go<2>(); go<3>(); big<A<9>, B<9>, D<17>>(); }
#elif defined(HSH)
template <std::size_t N> using A = AssocA<HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, (HBM ? N : default_buckets<N>)>>;
template <std::size_t N> using B = AssocA<HashCfg<HKT, HVT, N, Hs<7, HDIV>, HDIV, N + 3, true>>;
template <std::size_t N> using D = AssocA<HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, N, true>>;
template <std::size_t N> void go() { run<A<N>, B<N + 1>, D<N>>(A<N>::states()); }
void main_() { go<0>(); go<1>(); go<2>(); go<3>(); big<A<9>, B<9>, D<17>>(); }
#elif defined(PENUM)
template <class K> using A = AssocA<EnumCfg<K, HVT>>;
template <class K> void go() { run<A<K>>(A<K>::states()); }
void main_() { go<E1>(); go<E2>(); go<R2>(); go<E3>(); go<R3>(); go<X3>(); go<E4>(); big<A<E17>>(); }
#elif defined(PEARR)
template <class K> using A = EArrA<K, HVT>;
template <class K> void go() { run<A<K>>(A<K>::states()); }
void main_() { go<E1>(); go<E2>(); go<R2>(); go<E3>(); go<X3>(); go<E4>(); big<A<E17>>(); }
#else
template <std::size_t N> struct S2 : StrA<N> { };
template <std::size_t N> void go() { run<StrA<N>, StrA<N + 1>, StrA<N + 4>>(all_seqs(NVS, static_cast<int>(N))); }
void main_() { go<0>(); go<1>(); go<2>(); go<3>(); big<StrA<9>, StrA<17>>(); }
#endif
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    main_();
    pair_report();
}
