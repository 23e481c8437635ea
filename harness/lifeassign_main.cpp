// Whole-container assignment of elements whose assignment is trivial but whose construction and destruction are not (C14).
#include "core.hpp"
#include "elems.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
namespace h
{
namespace fc = fixed_containers;
struct LT   // trivial assignment, everything else observed
{
    int v;
    explicit LT(int x) : v(x) { g_life.event(0, this); }
    LT(const LT& o) : v(o.v) { g_life.event(1, this, &o); }
    LT(LT&& o) noexcept : v(o.v) { g_life.event(2, this, &o); }
    LT& operator=(const LT&) = default;
    LT& operator=(LT&&) = default;
    ~LT() { g_life.event(5, this); }
    bool operator==(const LT& o) const { return v == o.v; }
    auto operator<=>(const LT& o) const { return v <=> o.v; }
};
struct HashLT { std::uint64_t operator()(const LT& x) const { return static_cast<std::uint64_t>(x.v) * 0x9E3779B97F4A7C15ULL; } };
// two elements replaced by one
template <class C, class Put>
void scenarios(const char* t, int cap, Put&& put)
{
    const int n = 2, m = 1;
            for (int mv = 0; mv <= 1; mv++)
            {
                alignas(64) static unsigned char buf[sizeof(C) + 64];
                C* a = new (buf) C();
                for (int i = 0; i < n; i++) put(*a, i);
                g_life.begin(buf, sizeof(C));
                std::size_t z = 999999;
                const K k = guarded([&]
                {
                    C b;
                    for (int i = 0; i < m; i++) put(b, 5 + i);
                    if (mv) *a = std::move(b); else *a = b;
                    z = a->size();
                });
                g_life.end();
                const std::string op = std::string("[\"") + (mv ? "move_assign" : "copy_assign") + "\"]";
                g_rec.line(k, g_life.json((std::string(t) + "_trivially_assignable").c_str(), cap, op, k, 1, z), "trivially assignable elements", [&] { return op; });
                g_rec.per_variant[std::string(t) + "/trivially_assignable"]++;
                g_life.purge(buf, sizeof(C));     // the object is abandoned, not destroyed
            }
}
}
using namespace h;
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    auto back = [](auto& c, int v) { c.emplace_back(v); };
    auto key = [](auto& c, int v) { c.emplace(v); };
    auto mapped = [](auto& c, int v) { c.try_emplace(v, v); };
    scenarios<fc::FixedVector<LT, 4>>("vector", 4, back);
    scenarios<fc::FixedDeque<LT, 4>>("deque", 4, back);
    scenarios<fc::FixedList<LT, 4>>("list", 4, back);
    scenarios<fc::FixedCircularDeque<LT, 4>>("cdeque", 4, back);
    scenarios<fc::FixedMap<int, LT, 4>>("map", 4, mapped);
    scenarios<fc::FixedSet<LT, 4>>("set", 4, key);
    scenarios<fc::FixedUnorderedMap<int, LT, 4>>("umap", 4, mapped);
    scenarios<fc::FixedUnorderedSet<LT, 4, HashLT>>("uset", 4, key);
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
