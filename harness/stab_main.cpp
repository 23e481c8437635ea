// Stability of iterators and references.  -DPSEQ -DHK= -DHT= | -DORD ... | -DHSH ... | -DPENUM -DHVT=
#include "stab.hpp"
using namespace h;
template <class A> void run(const std::vector<Vec>& st, int rounds)
{
    StabDriver<A> d(g_conf.sigs[A::tname()], g_conf.seed * 41 + A::cap);
    d.cover(st, rounds * g_conf.scale, 6);
    d.walk(static_cast<int>(g_conf.get("runs", 30)) * g_conf.scale, 300);
}
template <class A> void big(int steps = 500)
{
    StabDriver<A> d(g_conf.sigs[A::tname()], g_conf.seed * 43 + A::cap);
    d.walk(static_cast<int>(g_conf.get("bigruns", 4)) * g_conf.scale, steps);
}
#if defined(PSEQ)
template <std::size_t N> using A = SeqA<Kind::HK, HT, N>;
void main_() { run<A<1>>(all_seqs(NV, 1), 2); run<A<2>>(all_seqs(NV, 2), 2); run<A<3>>(all_seqs(NV, 3), 1); big<A<5>>(); big<A<8>>(); big<A<13>>(); }
#elif defined(ORD)
using CCt = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
template <std::size_t N> using A = AssocA<OrdCfg<HKT, HVT, N, HCMP, CCt::HCC, fc::HST>>;
void main_() { run<A<1>>(A<1>::states(), 2); run<A<2>>(A<2>::states(), 2); run<A<3>>(A<3>::states(), 1); big<A<6>>(); big<A<9>>(); big<A<17>>(1000); }
#elif defined(HSH)
template <std::size_t N> using A = AssocA<HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, (HBM ? N : default_buckets<N>)>>;
void main_() { run<A<1>>(A<1>::states(), 2); run<A<2>>(A<2>::states(), 2); run<A<3>>(A<3>::states(), 1); big<A<6>>(); big<A<9>>(); big<A<17>>(1000); }
#else
template <class K> using A = AssocA<EnumCfg<K, HVT>>;
template <class K> void go() { run<A<K>>(A<K>::states(), 1); }
void main_() { go<E1>(); go<E2>(); go<E3>(); go<R3>(); go<X3>(); go<E4>(); big<A<E17>>(1000); }
#endif
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    main_();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
