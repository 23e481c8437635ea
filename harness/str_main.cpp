// FixedString. -DREF: the same calls on std::string, to calibrate the specification itself.
#include "str.hpp"
using namespace h;
template <std::size_t N>
void run()
{
    using A = StrA<N>;
    Driver<A> d(g_conf.sigs["str"]);
    const int sc = g_conf.scale;
    d.bfs(static_cast<std::size_t>(g_conf.get("bfs", 200)) * sc, g_conf.seed);
    d.cover(all_seqs(NVS, static_cast<int>(N)), 1, 4, g_conf.seed * 77 + N);
    d.walk(static_cast<int>(g_conf.get("runs", 20)) * sc, static_cast<int>(g_conf.get("steps", 400)), g_conf.seed * 131 + N);
}
template <std::size_t N>
void big()
{
    using A = StrA<N>;
    Driver<A> d(g_conf.sigs["str"]);
    d.walk(static_cast<int>(g_conf.get("bigruns", 8)) * g_conf.scale, 800, g_conf.seed * 1311 + N);
}
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
#ifdef REF
    Driver<StrA<40>> d(g_conf.sigs["str"]);
    d.walk(30 * g_conf.scale, 400, g_conf.seed);
    Driver<StrA<9>>(g_conf.sigs["str"]).cover(all_seqs(NVS, 2), 1, 0, g_conf.seed);
#else
    run<HCAP>();
    if (HCAP == 3) { big<7>(); big<23>(); }
#endif
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
