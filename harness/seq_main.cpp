// -DHK=<kind> -DHT=<element type>
#include "drive.hpp"
#include "seq.hpp"
using namespace h;
template <std::size_t N>
void run()
{
    using A = SeqA<Kind::HK, HT, N>;
    Driver<A> d(g_conf.sigs[A::tname()]);
    const int sc = g_conf.scale;
    d.bfs(static_cast<std::size_t>(g_conf.get("bfs", 2000)) * sc, g_conf.seed);
    if (N <= 3)
        d.cover(all_seqs(NV, static_cast<int>(N)), A::trivial ? 1 : static_cast<int>(g_conf.get("rounds", 1)) * sc, 6, g_conf.seed * 77 + N);
    d.walk(static_cast<int>(g_conf.get("runs", 40)) * sc, static_cast<int>(g_conf.get("steps", 300)), g_conf.seed * 131 + N);
}
template <std::size_t N>
void big()
{
    using A = SeqA<Kind::HK, HT, N>;
    Driver<A> d(g_conf.sigs[A::tname()]);
    d.walk(static_cast<int>(g_conf.get("bigruns", 4)) * g_conf.scale, static_cast<int>(g_conf.get("bigsteps", 600)), g_conf.seed * 1311 + N);
}
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    if constexpr (Kind::HK != Kind::cdeque && Kind::HK != Kind::cqueue) run<0>();
    run<1>();
    run<2>();
    run<3>();
    if (!g_conf.get("skip4", 0)) run<4>();
    big<17>();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
