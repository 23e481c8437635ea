// -DORD -DHKT= -DHVT= -DHCMP= -DHCC= -DHST=     ordered containers
// -DDEFHASH -DHKT= -DHVT= -DHBM=               the library's own hash
// -DHSH -DHKT= -DHVT= -DHMODE= -DHDIV= -DHBM=   hashed containers
#include "assoc.hpp"
#include "drive.hpp"
#ifdef DEFHASH
#include "keys.hpp"
#endif
using namespace h;
#ifdef ORD
template <std::size_t N>
using Cfg = OrdCfg<HKT, HVT, N, HCMP, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::HCC, fc::HST>;
#elif defined(DEFHASH)
template <std::size_t N>
using Cfg = DefHashCfg<HKT, HVT, N, (HBM == 0 ? default_buckets<N> : HBM == 1 ? N : 3 * N + 1)>;
#else
template <std::size_t N>
using Cfg = HashCfg<HKT, HVT, N, Hs<HMODE, HDIV>, HDIV, (HBM == 0 ? default_buckets<N> : HBM == 1 ? N : 3 * N + 1)>;
#endif
template <std::size_t N>
void run()
{
    using A = AssocA<Cfg<N>>;
    Driver<A> d(g_conf.sigs[A::tname()]);
    const int sc = g_conf.scale;
    d.bfs(static_cast<std::size_t>(g_conf.get("bfs", 400)) * sc, g_conf.seed);
    if (N <= 3) d.cover(A::states(), static_cast<int>(g_conf.get("rounds", 1)) * sc, 10, g_conf.seed * 77 + N);
    d.walk(static_cast<int>(g_conf.get("runs", 30)) * sc, static_cast<int>(g_conf.get("steps", 300)), g_conf.seed * 131 + N);
}
template <std::size_t N>
void big()
{
    using A = AssocA<Cfg<N>>;
    Driver<A> d(g_conf.sigs[A::tname()]);
    d.walk(static_cast<int>(g_conf.get("bigruns", 6)) * g_conf.scale, static_cast<int>(g_conf.get("bigsteps", 700)), g_conf.seed * 1311 + N);
}
// every byte-level state reachable by single insertions and erasures (bounded), every lookup in each
template <std::size_t N>
void core()
{
    using A = AssocA<Cfg<N>>;
    static const std::set<std::string> keep{"te_d", "sins_m", "erase_k", "erase_rng", "cfind", "clb", "cub", "views"};
    std::vector<Sig> sg;
    for (auto& x : g_conf.sigs[A::tname()]) if (keep.count(std::string(x.name))) sg.push_back(x);
    Driver<A> d(sg);
    d.bfs(static_cast<std::size_t>(g_conf.get("core", 4000)), g_conf.seed);
    d.walk(static_cast<int>(g_conf.get("coreruns", 20)) * g_conf.scale, 400, g_conf.seed * 7 + N);
}
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    run<0>();
    run<1>();
    run<2>();
    run<3>();
    if (!g_conf.get("skip4", 0)) run<4>();
    core<6>();
    core<8>();
    big<17>();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
