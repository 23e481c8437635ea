// EnumArray.  -DHVT=<element type>
#include "earr.hpp"
using namespace h;
template <class K>
void run()
{
    using A = EArrA<K, HVT>;
    Driver<A> d(g_conf.sigs[A::tname()]);
    const int sc = g_conf.scale;
    if (A::cap <= 3) d.bfs(static_cast<std::size_t>(g_conf.get("bfs", 400)) * sc, g_conf.seed);
    if (A::cap <= 3) d.cover(A::states(), static_cast<int>(g_conf.get("rounds", 1)) * sc, 3, g_conf.seed * 77 + A::cap);
    d.walk(static_cast<int>(g_conf.get("runs", 10)) * sc, static_cast<int>(g_conf.get("steps", 200)), g_conf.seed * 131 + A::cap);
}
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    run<E1>();
    run<E2>();
    run<R2>();
    run<E3>();
    run<R3>();
    run<X3>();
    run<E4>();
    run<E17>();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
