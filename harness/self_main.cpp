// Self-containedness (C18).  -DPSEQ -DHK= -DHT= | -DORD ... | -DHSH ... | -DPENUM -DHVT= | -DPEARR -DHVT= | -DPSTR
#define SELF
#ifdef PSEQ
#define SELF_SEQ
#elif defined(ORD) || defined(HSH)
#define SELF_ASSOC
#endif
#include "drive.hpp"
#include "seq.hpp"
#include "enums.hpp"
#include "earr.hpp"
#include "str.hpp"
using namespace h;
template <class A>
void run(bool small)
{
    Driver<A> d(g_conf.sigs[A::tname()]);
    const int sc = g_conf.scale;
    if (small && A::trivial) d.bfs(static_cast<std::size_t>(g_conf.get("bfs", 60)) * sc, g_conf.seed);
    if constexpr (requires { A::states(); }) { if (small && !A::trivial) d.cover(A::states(), 1, 3, g_conf.seed * 77 + A::cap); }
    d.walk(static_cast<int>(g_conf.get("runs", 20)) * sc, static_cast<int>(g_conf.get("steps", 300)), g_conf.seed * 131 + A::cap);
}
#if defined(PSEQ)
template <std::size_t N> using Ad = SeqA<Kind::HK, HT, N>;
#elif defined(ORD)
template <std::size_t N>
using Ad = AssocA<OrdCfg<HKT, HVT, N, HCMP, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::HCC, fc::HST>>;
#elif defined(HSH)
template <std::size_t N>
using Ad = AssocA<HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, (HBM == 0 ? default_buckets<N> : HBM == 1 ? N : 3 * N + 1)>>;
#elif defined(PSTR)
template <std::size_t N> using Ad = StrA<N>;
#endif
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
#if defined(PENUM)
    run<AssocA<EnumCfg<E2, HVT>>>(true);
    run<AssocA<EnumCfg<R3, HVT>>>(true);
    run<AssocA<EnumCfg<E17, HVT>>>(false);
#elif defined(PEARR)
    run<EArrA<E2, HVT>>(true);
    run<EArrA<R3, HVT>>(true);
    run<EArrA<E17, HVT>>(false);
#else
    run<Ad<1>>(true);
    run<Ad<3>>(true);
    run<Ad<8>>(false);
    run<Ad<17>>(false);
#endif
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
