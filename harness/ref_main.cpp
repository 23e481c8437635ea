// Reference semantics.  -DPART=1 optional references, pair views, in_out, out; 2 FixedMap; 3 FixedUnorderedMap; 4 EnumMap
#include "enums.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/in_out.hpp"
#include "fixed_containers/optional_reference.hpp"
#include "fixed_containers/out.hpp"
#include "fixed_containers/pair_view.hpp"
#include <compare>
using namespace h;
static constexpr int NC = 3;
// a value whose address must not be taken with &, ordered only weakly
struct Odd
{
    int v = 0;
    int tag = 0;
    Odd* operator&() = delete;
    const Odd* operator&() const = delete;
    bool operator==(const Odd& o) const { return v == o.v; }
    std::weak_ordering operator<=>(const Odd& o) const { return v <=> o.v; }
};
inline int val(int x) { return x; }
inline int val(double x) { return static_cast<int>(x * 2); }
inline int val(const Odd& x) { return x.v; }
template <class U> U mkv(int v) { if constexpr (std::is_same_v<U, Odd>) { static int n = 0; Odd o; o.v = v; o.tag = n++; return o; } else if constexpr (std::is_same_v<U, double>) return v * 0.5; else return v; }
template <class U> struct World
{
    U cells[NC] = {};
    void set(const Vec& c) { for (int i = 0; i < NC; i++) cells[i] = mkv<U>(c[static_cast<std::size_t>(i)]); }
    int id(const U& x) const { for (int i = 0; i < NC; i++) if (std::addressof(cells[i]) == std::addressof(x)) return i; return -5; }
    Vec vals() const { Vec r; for (auto& c : cells) r.push_back(val(c)); return r; }
};
std::string pairjs(const Vec& c, const Vec& m) { return "[" + js(c) + "," + js(m) + "]"; }
void put(const char* t, const std::string& s, const std::string& o, K k, const Vec& r, const std::string& n, const char* how)
{
    const bool ok = k == K::ok;
    std::string line = std::string("{\"t\":\"") + t + "\",\"s\":" + s + ",\"o\":" + o + ",\"k\":\"" + kname(k) + "\",\"r\":" + (ok ? js(r) : "[]") + ",\"n\":" + (ok ? n : "[]") + "}";
    g_rec.per_variant[how]++;
    g_rec.line(k, std::move(line), how, [&] { return s; });
}
template <class F> void cell_values(F f) { for (int m = 0; m < (1 << NC); m++) { Vec c; for (int i = 0; i < NC; i++) c.push_back((m >> i) & 1); f(c); } }
std::string op0(const char* f) { return std::string("[\"") + f + "\"]"; }
std::string op1(const char* f, int a) { return std::string("[\"") + f + "\"," + std::to_string(a) + "]"; }
std::string op2(const char* f, int a, int b) { return std::string("[\"") + f + "\"," + std::to_string(a) + "," + std::to_string(b) + "]"; }
#define CMP6(A, B, R) do { R.push_back((A) == (B)); R.push_back((A) != (B)); R.push_back((A) < (B)); R.push_back((A) > (B)); R.push_back((A) <= (B)); R.push_back((A) >= (B)); } while (0)
#if PART == 1
struct OptChk { [[noreturn]] static void bad_optional_access_error(const Loc&) noexcept { fail(K::empty); } };
template <class U, bool CONST> void orefs(const char* how)
{
    using T = std::conditional_t<CONST, const U, U>;
    using R = fc::OptionalReference<T, OptChk>;
    using RC = fc::OptionalReference<const U, OptChk>;
    cell_values([&](const Vec& cv)
    {
        for (int a0 = -1; a0 < NC; a0++) for (int b0 = -1; b0 < NC; b0++) for (int route = 0; route < 4; route++)
        {
            World<U> w;
            auto ptr = [&](int i) { return i < 0 ? nullptr : std::addressof(w.cells[i]); };
            auto run = [&](const std::string& o, auto f)
            {
                w.set(cv);
                R a, b;
                auto bind = [&](R& r, int i)
                {
                    if (route == 0) r = R(static_cast<T*>(ptr(i)));
                    else if (i < 0) { r = R(w.cells[route - 1]); if (route == 1) r = std::nullopt; else if (route == 2) r.reset(); else r = R(); }
                    else if (route == 1) r = R(w.cells[i]);
                    else if (route == 2) { r = R(w.cells[(i + 1) % NC]); R x(w.cells[i]); r = x; }
                    else { R x(w.cells[i]); R y(x); r = std::move(y); }
                };
                bind(a, a0);
                bind(b, b0);
                Vec r;
                std::string n;
                const K k = guarded([&]
                {
                    f(a, b, r);
                    Vec refs;
                    for (R* x : {&a, &b}) refs.push_back(x->has_value() ? w.id(**x) : -1);
                    n = pairjs(w.vals(), refs);
                });
                put("oref", pairjs(cv, Vec{a0, b0}), o, k, r, n, how);
            };
            auto renew = [](R& a, auto make) { a.~R(); new (static_cast<void*>(std::addressof(a))) R(make()); };
            run(op0("ct_dflt"), [&](R& a, R&, Vec&) { renew(a, [] { return R(); }); });
            run(op0("ct_null"), [&](R& a, R&, Vec&) { renew(a, [] { return R(std::nullopt); }); });
            run(op0("as_null"), [&](R& a, R&, Vec&) { a = std::nullopt; });
            run(op0("reset"), [&](R& a, R&, Vec&) { a.reset(); });
            run(op0("ct_copy"), [&](R& a, R& b, Vec&) { const R& c = b; renew(a, [&] { return R(c); }); });
            run(op0("ct_move"), [&](R& a, R& b, Vec&) { R c(b); renew(a, [&] { return R(std::move(c)); }); });
            run(op0("as_copy"), [&](R& a, R& b, Vec&) { const R& c = b; a = c; });
            run(op0("as_move"), [&](R& a, R& b, Vec&) { R c(b); a = std::move(c); });
            run(op0("as_self"), [&](R& a, R&, Vec&) { R& c = a; a = c; });
            run(op0("swap"), [&](R& a, R& b, Vec&) { std::swap(a, b); });
            run(op0("has"), [&](R& a, R&, Vec& r) { const R& c = a; r.push_back(c.has_value()); r.push_back(static_cast<bool>(c)); });
            run(op0("cmp"), [&](R& a, R& b, Vec& r) { CMP6(a, b, r); });
            run(op0("cmp"), [&](R& a, R&, Vec& r) { const RC d = b0 < 0 ? RC() : RC(w.cells[b0]); CMP6(a, d, r); });
            run(op0("cmp"), [&](R&, R& b, Vec& r) { const RC d = a0 < 0 ? RC() : RC(w.cells[a0]); CMP6(d, b, r); });
            run(op0("cmp_null"), [&](R& a, R&, Vec& r) { const R& c = a; CMP6(c, std::nullopt, r); CMP6(std::nullopt, c, r); });
            auto reads = [&](const char* nm, auto get) { run(op0(nm), [&](R& a, R&, Vec& r) { auto& x = get(a); r.push_back(w.id(x)); r.push_back(val(x)); }); };
            reads("rd_val", [](R& a) -> auto& { return a.value(); });
            reads("rd_cval", [](const R& a) -> auto& { return a.value(); });
            reads("rd_star", [](R& a) -> auto& { return *a; });
            reads("rd_cstar", [](const R& a) -> auto& { return *a; });
            reads("rd_arrow", [](R& a) -> auto& { return *a.operator->(); });
            reads("rd_carrow", [](const R& a) -> auto& { return *a.operator->(); });
            for (int x = -1; x < NC; x++)
            {
                run(op1("ct_ptr", x), [&](R& a, R&, Vec&) { renew(a, [&] { return R(static_cast<T*>(ptr(x))); }); });
                run(op1("ct_uptr", x), [&](R& a, R&, Vec&) { std::unique_ptr<T> u(ptr(x)); renew(a, [&] { return R(u); }); u.release(); });
                if (x < 0) continue;
                run(op1("ct_ref", x), [&](R& a, R&, Vec&) { renew(a, [&] { return R(w.cells[x]); }); });
                run(op1("emplace", x), [&](R& a, R&, Vec& r) { r.push_back(w.id(a.emplace(w.cells[x]))); });
                run(op1("vor", x), [&](R& a, R&, Vec& r) { const R& c = a; r.push_back(w.id(c.value_or(w.cells[x]))); });
                if constexpr (!CONST)
                    for (int v = 0; v < 2; v++) run(op2("wr_vor", x, v), [&](R& a, R&, Vec&) { a.value_or(w.cells[x]) = mkv<U>(v); });
            }
            for (int v = 0; v < 2; v++)
            {
                run(op1("cmp_val", v), [&](R& a, R&, Vec& r) { const R& c = a; const U x = mkv<U>(v); CMP6(c, x, r); CMP6(x, c, r); });
                if constexpr (!CONST)
                {
                    run(op1("wr_val", v), [&](R& a, R&, Vec&) { a.value() = mkv<U>(v); });
                    run(op1("wr_star", v), [&](R& a, R&, Vec&) { *a = mkv<U>(v); });
                    run(op1("wr_arrow", v), [&](R& a, R&, Vec&) { *a.operator->() = mkv<U>(v); });
                }
            }
        }
    });
}
template <class A, class B> void pviews(const char* how)
{
    using U = std::remove_const_t<A>;
    using P = fc::PairView<A, B>;
    static constexpr bool W1 = !std::is_const_v<A>, W2 = !std::is_const_v<B>;
    cell_values([&](const Vec& cv)
    {
        for (int i0 = 0; i0 < NC; i0++) for (int j0 = 0; j0 < NC; j0++)
        {
            World<U> w;
            auto run = [&](const std::string& o, auto f)
            {
                w.set(cv);
                P p(std::addressof(w.cells[i0]), std::addressof(w.cells[j0]));
                Vec r;
                std::string n;
                const K k = guarded([&] { f(p, r); const P& c = p; n = pairjs(w.vals(), Vec{w.id(c.first()), w.id(c.second())}); });
                put("pview", pairjs(cv, Vec{i0, j0}), o, k, r, n, how);
            };
            run(op0("ids"), [&](P& p, Vec& r)
            {
                const P& c = p;
                for (const U* x : std::initializer_list<const U*>{std::addressof(p.first()), std::addressof(p.second()), std::addressof(c.first()), std::addressof(c.second()),
                                   std::addressof(p.template get<0>()), std::addressof(c.template get<1>()), std::addressof(std::get<0>(c)), std::addressof(std::get<1>(p))}) r.push_back(w.id(*x));
                auto& [x, y] = p;
                r.push_back(w.id(x));
                r.push_back(w.id(y));
            });
            run(op0("ids"), [&](P& p, Vec& r)
            {
                P q(p);
                const P& c = q;
                for (const U* x : std::initializer_list<const U*>{std::addressof(q.first()), std::addressof(q.second()), std::addressof(c.first()), std::addressof(c.second()),
                                   std::addressof(c.template get<0>()), std::addressof(q.template get<1>()), std::addressof(std::get<0>(q)), std::addressof(std::get<1>(c))}) r.push_back(w.id(*x));
                const auto& [x, y] = c;
                r.push_back(w.id(x));
                r.push_back(w.id(y));
            });
            run(op0("to_pair"), [&](P& p, Vec& r)
            {
                std::pair<U, U> q = p;
                const P& c = p;
                std::pair<U, U> d = c;
                r.push_back(val(q.first)); r.push_back(val(d.second));
                q.first = q.second = d.first = d.second = mkv<U>(9);
            });
            run(op0("to_const"), [&](P& p, Vec& r) { fc::PairView<const U, const U> q(p); r.push_back(w.id(q.first())); r.push_back(w.id(q.second())); });
            for (int v = 0; v < 2; v++)
            {
                if constexpr (W1) { run(op1("wr1", v), [&](P& p, Vec&) { p.first() = mkv<U>(v); }); run(op1("wr1", v), [&](P& p, Vec&) { auto& [x, y] = p; x = mkv<U>(v); }); run(op1("wr1", v), [&](P& p, Vec&) { std::get<0>(p) = mkv<U>(v); }); }
                if constexpr (W2) { run(op1("wr2", v), [&](P& p, Vec&) { p.second() = mkv<U>(v); }); run(op1("wr2", v), [&](P& p, Vec&) { auto& [x, y] = p; y = mkv<U>(v); }); run(op1("wr2", v), [&](P& p, Vec&) { p.template get<1>() = mkv<U>(v); }); }
            }
            for (int x = 0; x < NC; x++) for (int y = 0; y < NC; y++)
            {
                if constexpr (W1 && W2)
                {
                    run(op2("rebind", x, y), [&](P& p, Vec&) { const P q(std::addressof(w.cells[x]), std::addressof(w.cells[y])); p = q; });
                    run(op2("rebind", x, y), [&](P& p, Vec&) { p = P(std::addressof(w.cells[x]), std::addressof(w.cells[y])); });
                }
                run(op2("eq", x, y), [&](P& p, Vec& r) { const P q(std::addressof(w.cells[x]), std::addressof(w.cells[y])); r.push_back(p == q); });
            }
        }
    });
}
template <template <class> class X, class U> void inouts(const char* how)
{
    cell_values([&](const Vec& cv)
    {
        for (int i0 = 0; i0 < NC; i0++)
        {
            World<U> w;
            auto run = [&](const std::string& o, auto f)
            {
                w.set(cv);
                Vec r;
                std::string n;
                const K k = guarded([&] { X<U> x{w.cells[i0]}; f(x, r); n = pairjs(w.vals(), Vec{w.id(*x)}); });
                put("inout", pairjs(cv, Vec{i0}), o, k, r, n, how);
            };
            run(op0("ids"), [&](X<U>& x, Vec& r) { r.push_back(w.id(*x)); r.push_back(w.id(*x.operator->())); r.push_back(w.id(*&x)); });
            for (int v = 0; v < 2; v++)
            {
                run(op1("wr", v), [&](X<U>& x, Vec&) { *x = mkv<U>(v); });
                run(op1("wr", v), [&](X<U>& x, Vec&) { *x.operator->() = mkv<U>(v); });
                run(op1("wr", v), [&](X<U>& x, Vec&) { [v](X<U> y) { *y = mkv<U>(v); }(X<U>{*x}); });
            }
        }
    });
}
void main_()
{
    orefs<int, false>("OptionalReference<int>"); orefs<int, true>("OptionalReference<const int>");
    orefs<double, false>("OptionalReference<double>"); orefs<double, true>("OptionalReference<const double>"); orefs<Odd, false>("OptionalReference<Odd>");
    pviews<int, int>("PairView<int,int>"); pviews<const int, int>("PairView<const int,int>"); pviews<const int, const int>("PairView<const int,const int>"); pviews<Odd, Odd>("PairView<Odd,Odd>");
    inouts<fc::in_out, int>("in_out<int>"); inouts<fc::out, int>("out<int>"); inouts<fc::in_out, Odd>("in_out<Odd>"); inouts<fc::out, Odd>("out<Odd>");
}
#else
#if PART == 4
static constexpr int NK = 2, CAP = 2;
using Key = E2;
template <class V> using M = fc::EnumMap<Key, V, EnumMapChk<Key>>;
static constexpr const char* TN_ = "remap";
Key key(int i) { return EKeys<E2>::at(i); }
int idx(Key k) { return k == E2::EARLIER ? 0 : 1; }
#else
static constexpr int NK = 3, CAP = 2;
using Key = int;
static constexpr const char* TN_ = "rmap";
Key key(int i) { return 10 - 3 * i; }
int idx(Key k) { return (10 - k) / 3; }
#if PART == 2
using CCt = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
template <class V> using M = fc::FixedMap<int, V, 2, std::greater<int>, CCt::HCC, fc::FixedIndexBasedPoolStorage, MapChk<int>>;
#else
struct Same { std::size_t operator()(int) const { return 7; } };
template <class V> using M = fc::FixedUnorderedMap<int, V, 2, HHASH, std::equal_to<int>, 4, MapChk<int>>;
#endif
#endif
template <class U, bool CONST> void maps(const char* how)
{
    using V = std::conditional_t<CONST, const U&, U&>;
    using C = M<V>;
    using VT = typename C::value_type;
    std::vector<Vec> codes;
    {
        Vec m(NK, -1);
        for (;;)
        {
            int n = 0;
            for (int x : m) n += x >= 0;
            if (n <= CAP) codes.push_back(m);
            std::size_t i = 0;
            while (i < NK && ++m[i] == NC) m[i++] = -1;
            if (i == NK) break;
        }
    }
    cell_values([&](const Vec& cv)
    {
        for (auto& m0 : codes)
        {
            World<U> w;
            // insertion order and a detour through an erased entry vary
            auto build = [&](C& c, const Vec& m, int route)
            {
                for (int q = 0; q < NK; q++)
                {
                    const int k = route == 1 ? NK - 1 - q : q;
                    if (m[static_cast<std::size_t>(k)] < 0) continue;
                    if (route == 2) { c.try_emplace(key(k), w.cells[(m[static_cast<std::size_t>(k)] + 1) % NC]); c.erase(key(k)); }
                    c.try_emplace(key(k), w.cells[m[static_cast<std::size_t>(k)]]);
                }
            };
            auto each = [&](const C& c)
            {
                Vec r;
                std::vector<std::pair<int, int>> v;
                for (auto&& [k, x] : c) v.emplace_back(idx(k), w.id(x));
#if PART == 3
                std::sort(v.begin(), v.end());
#endif
                for (auto& [k, x] : v) { r.push_back(k); r.push_back(x); }
                return r;
            };
            auto code = [&](const C& c) { Vec r(NK, -1); for (int k = 0; k < NK; k++) if (c.contains(key(k))) r[static_cast<std::size_t>(k)] = w.id(c.at(key(k))); return r; };
            int route = 0;
            auto run = [&](const std::string& o, auto f)
            {
                w.set(cv);
                Vec r;
                std::string n;
                const K k = guarded([&] { C c; build(c, m0, route++ % 3); f(c, r); n = pairjs(w.vals(), code(c)); });
                put(TN_, pairjs(cv, m0), o, k, r, n, how);
            };
            run(op0("clear"), [&](C& c, Vec&) { c.clear(); });
            run(op0("each"), [&](C& c, Vec& r) { r = each(c); });
            run(op0("as_self"), [&](C& c, Vec&) { C& d = c; c = d; });
            for (int k = 0; k < NK; k++)
            {
                run(op1("erase", k), [&](C& c, Vec& r) { r.push_back(static_cast<int>(c.erase(key(k)))); });
                run(op1("at", k), [&](C& c, Vec& r) { auto& x = c.at(key(k)); r.push_back(w.id(x)); r.push_back(val(x)); });
                run(op1("cat", k), [&](C& c, Vec& r) { const C& d = c; auto& x = d.at(key(k)); r.push_back(w.id(x)); r.push_back(val(x)); });
                run(op1("find", k), [&](C& c, Vec& r) { auto it = c.find(key(k)); r.push_back(it == c.end() ? -1 : w.id(it->second)); });
                run(op1("cfind", k), [&](C& c, Vec& r) { const C& d = c; auto it = d.find(key(k)); r.push_back(it == d.end() ? -1 : w.id((*it).second)); });
                if constexpr (!CONST)
                    for (int v = 0; v < 2; v++)
                    {
                        run(op2("wr_at", k, v), [&](C& c, Vec&) { c.at(key(k)) = mkv<U>(v); });
                        run(op2("wr_it", k, v), [&](C& c, Vec& r) { auto it = c.find(key(k)); r.push_back(it != c.end()); if (it != c.end()) it->second = mkv<U>(v); });
                    }
                for (int x = 0; x < NC; x++)
                {
                    auto ret = [&](C& c, Vec& r, const auto& p) { r.push_back(p.second); r.push_back(w.id(p.first->second)); (void)c; };
                    auto late = [&](C& c, Vec& r, std::size_t before) { r.push_back(static_cast<int>(c.size() - before)); r.push_back(w.id(c.at(key(k)))); };
                    U& t = w.cells[x];
                    run(op2("te", k, x), [&](C& c, Vec& r) { ret(c, r, c.try_emplace(key(k), t)); });
                    run(op2("emp", k, x), [&](C& c, Vec& r) { ret(c, r, c.emplace(key(k), t)); });
                    run(op2("empp", k, x), [&](C& c, Vec& r) { ret(c, r, c.emplace(VT(key(k), t))); });
                    run(op2("ins_c", k, x), [&](C& c, Vec& r) { const VT p(key(k), t); ret(c, r, c.insert(p)); });
                    run(op2("ins_m", k, x), [&](C& c, Vec& r) { ret(c, r, c.insert(VT(key(k), t))); });
                    run(op2("ins_r", k, x), [&](C& c, Vec& r) { const std::size_t b = c.size(); const VT a[1] = {VT(key(k), t)}; c.insert(a, a + 1); late(c, r, b); });
                    run(op2("ins_il", k, x), [&](C& c, Vec& r) { const std::size_t b = c.size(); c.insert({VT(key(k), t)}); late(c, r, b); });
                    if constexpr (!CONST) run(op2("ioa", k, x), [&](C& c, Vec& r) { ret(c, r, c.insert_or_assign(key(k), t)); });
                }
            }
            for (auto& m1 : codes)
            {
                auto o = [&](const char* f) { return std::string("[\"") + f + "\"," + js(m1) + "]"; };
                run(o("ct_copy"), [&](C& c, Vec& r) { C d; build(d, m1, route % 3); const C& e = d; c.~C(); new (static_cast<void*>(std::addressof(c))) C(e); r = each(d); });
                run(o("ct_move"), [&](C& c, Vec&) { C d; build(d, m1, route % 3); c.~C(); new (static_cast<void*>(std::addressof(c))) C(std::move(d)); });
                run(o("as_copy"), [&](C& c, Vec& r) { C d; build(d, m1, route % 3); const C& e = d; c = e; r = each(d); });
                run(o("as_move"), [&](C& c, Vec&) { C d; build(d, m1, route % 3); c = std::move(d); });
                run(o("swap"), [&](C& c, Vec& r) { C d; build(d, m1, route % 3); std::swap(c, d); r = each(d); });
                run(o("eq"), [&](C& c, Vec& r) { C d; build(d, m1, route % 3); const C &x = c, &y = d; r.push_back(x == y && !(x != y)); });
            }
        }
    });
}
void main_() { maps<int, false>("map to int&"); maps<int, true>("map to const int&"); maps<Odd, false>("map to Odd&"); }
#endif
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    main_();
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
