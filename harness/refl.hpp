// Reflection and struct views (ReflOps.tla). The types are generated (tools/reflgen.py) from the type trees TLC enumerates; what the
// library's reflection reports is compared with plain member access, which the generator writes out for every type (Mem<T>::each).
#pragma once
#include "core.hpp"
#include <fixed_containers/fixed_string.hpp>
#include <fixed_containers/fixed_vector.hpp>
#include <fixed_containers/recursive_reflection.hpp>
#include <fixed_containers/reflection.hpp>
#include <fixed_containers/struct_view.hpp>
#include <array>
#include <bitset>
#include <chrono>
#include <optional>
namespace h
{
using namespace fixed_containers;
enum class En : short { zero, one, two, three };
inline constexpr std::string_view ENS[] = {"zero", "one", "two", "three"};
inline constexpr std::string_view SVS[] = {"", "s1", "s2", "s3"};
using Dur = std::chrono::duration<long, std::milli>;
using Bits = std::bitset<5>;
template <class T> struct Mem;                     // generated structs
template <class T> concept Str = requires { Mem<T>::ty; };
template <class T> struct Opt_ : std::false_type {};
template <class T> struct Opt_<std::optional<T>> : std::true_type {};
template <class T> struct Arr_ : std::false_type {};
template <class T, std::size_t N> struct Arr_<std::array<T, N>> : std::true_type {};
template <class T> struct Vec_ : std::false_type {};
template <class T, std::size_t N> struct Vec_<FixedVector<T, N>> : std::true_type {};
template <class T> inline constexpr bool IsSeq = Arr_<T>::value || Vec_<T>::value;

template <class T> const char* kind()
{
    if constexpr (Str<T>) return "str";
    else if constexpr (Opt_<T>::value) return "opt";
    else if constexpr (Arr_<T>::value) return "arr";
    else if constexpr (Vec_<T>::value) return "vec";
    else if constexpr (std::is_same_v<T, bool>) return "b1";
    else if constexpr (std::is_same_v<T, signed char>) return "i1";
    else if constexpr (std::is_same_v<T, short>) return "i2";
    else if constexpr (std::is_same_v<T, int>) return "i4";
    else if constexpr (std::is_same_v<T, long>) return "i8";
    else if constexpr (std::is_same_v<T, unsigned char>) return "u1";
    else if constexpr (std::is_same_v<T, unsigned int>) return "u4";
    else if constexpr (std::is_same_v<T, float>) return "f4";
    else if constexpr (std::is_same_v<T, double>) return "f8";
    else if constexpr (std::is_same_v<T, Dur>) return "dur";
    else if constexpr (std::is_same_v<T, Bits>) return "bits";
    else if constexpr (std::is_same_v<T, En>) return "enum";
    else if constexpr (std::is_same_v<T, std::string_view>) return "sv";
    else if constexpr (std::is_pointer_v<T>) return "ptr";
    else static_assert(sizeof(T) == 0);
}
template <class T> std::string pretty()
{
    std::string s = __PRETTY_FUNCTION__;
    const auto p = s.find("T = ");
    return s.substr(p + 4, s.size() - p - 5);
}
// one number for a leaf
template <class T> int leaf(const T& x)
{
    if constexpr (std::is_pointer_v<T>) return x == nullptr ? -7 : leaf(*x);
    else if constexpr (std::is_same_v<T, Dur>) return static_cast<int>(x.count());
    else if constexpr (std::is_same_v<T, Bits>) return static_cast<int>(x.to_ulong());
    else if constexpr (std::is_same_v<T, std::string_view>)
    {
        for (int i = 0; i < 4; i++) if (x == ENS[i] || x == SVS[i]) return i;
        return -6;
    }
    else return static_cast<int>(x);
}
template <class T> void gen(T& x, Rng& g, int full)
{
    if constexpr (Str<T>) Mem<T>::each(x, [&](auto& m) { gen(m, g, full); });
    else if constexpr (Opt_<T>::value) { x.reset(); if (full || g.below(2)) { x.emplace(); gen(*x, g, full); } }
    else if constexpr (Arr_<T>::value) { for (auto& e : x) gen(e, g, full); }
    else if constexpr (Vec_<T>::value)
    {
        x.clear();
        const int n = full ? static_cast<int>(x.max_size()) : g.below(static_cast<int>(x.max_size()) + 1);
        for (int i = 0; i < n; i++) { x.emplace_back(); gen(x.back(), g, full); }
    }
    else
    {
        const int v = 1 + g.below(99);
        if constexpr (std::is_same_v<T, bool>) x = v % 2;
        else if constexpr (std::is_same_v<T, Dur>) x = Dur{v};
        else if constexpr (std::is_same_v<T, Bits>) x = Bits(static_cast<unsigned long>(v % 32));
        else if constexpr (std::is_same_v<T, En>) x = static_cast<En>(v % 4);
        else if constexpr (std::is_same_v<T, std::string_view>) x = SVS[v % 4];
        else x = static_cast<T>(v);
    }
}
template <class T> void obs(Js& j, const T& x)
{
    if constexpr (Str<T>) { j.open(); Mem<T>::each(x, [&](const auto& m) { obs(j, m); }); j.close(); }
    else if constexpr (Opt_<T>::value) { j.open(); if (x.has_value()) obs(j, *x); j.close(); }
    else if constexpr (IsSeq<T>) { j.open(); for (std::size_t i = 0; i < x.size() && i < 40; i++) obs(j, *(x.data() + i)); j.close(); }
    else j.i(leaf(x));
}
template <class T> std::string show(const T& x) { Js j; obs(j, x); return std::string(j.b); }
template <class T> void bump(T& x)
{
    if constexpr (std::is_same_v<T, Dur>) x += Dur{1};
    else if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) x = static_cast<T>(x + 1);
}
template <class T> void bump_all(T& x)
{
    if constexpr (Str<T>) Mem<T>::each(x, [](auto& m) { bump_all(m); });
    else if constexpr (Opt_<T>::value) { if (x) bump_all(*x); }
    else if constexpr (IsSeq<T>) { for (auto& e : x) bump_all(e); }
    else bump(x);
}
template <class T> int look(const T& x)
{
    if constexpr (Str<T>) return Mem<T>::count;
    else if constexpr (Opt_<T>::value) return x.has_value();
    else if constexpr (IsSeq<T>) return static_cast<int>(x.size());
    else return leaf(x);
}
// everything that lives in an object: (address, type) -> what it is
using Live = std::map<std::pair<const void*, std::string>, int>;
template <class T> void live(Live& l, const T& x)
{
    l[{static_cast<const void*>(std::addressof(x)), pretty<T>()}] = look(x);
    if constexpr (Str<T>) Mem<T>::each(x, [&](const auto& m) { live(l, m); });
    else if constexpr (Opt_<T>::value) { if (x) live(l, *x); }
    else if constexpr (IsSeq<T>) { for (std::size_t i = 0; i < x.size(); i++) live(l, *(x.data() + i)); }
}
inline std::string quote(std::string_view s) { return "\"" + std::string(s) + "\""; }
template <class C> std::string chain(const C& c)
{
    std::string r = "[";
    for (std::size_t i = 0; i < c.size(); i++) { if (i) r += ','; r += quote(c.at(i)); }
    return r + "]";
}
template <class C> std::string nums(const C& c)
{
    std::string r = "[";
    for (std::size_t i = 0; i < c.size(); i++) { if (i) r += ','; r += std::to_string(c.at(i)); }
    return r + "]";
}
struct List
{
    std::string s = "[";
    void add(const std::string& x) { if (s.size() > 1) s += ','; s += x; if (s.size() > 400000) fail(K::corrupt); }
    std::string end() const { return s + "]"; }
};
inline void emit(const char* q, const std::string& ty, const std::string& mid, K k, const std::string& r, const std::string& n)
{
    g_rec.line(k, std::string("{\"q\":\"") + q + "\",\"t\":" + ty + mid + ",\"k\":\"" + kname(k) + "\",\"r\":" + (k == K::ok && !r.empty() ? r : "[]") + ",\"n\":" +
                      (k == K::ok && !n.empty() ? n : "[]") + "}",
               q, [&] { return ty; });
    g_rec.per_variant[q]++;
}

template <class T> void probe(Rng& g, int rounds)
{
    const std::string ty = Mem<T>::ty;
    struct_view::PathNameChain all[128];
    int nall = 0;
    for (int m = 0; m < rounds; m++)
    {
        std::string v, r, n;
        {   // the visit, and a visitor that writes
            T x{};
            if (m) gen(x, g, m == 1);
            v = show(x);
            Live l;
            live(l, x);
            List ev;
            K k = guarded([&] {
                auto on = [&](const char* sg, const auto& ch, auto& f) {
                    using F = std::remove_cvref_t<decltype(f)>;
                    const bool here = l.count({static_cast<const void*>(std::addressof(f)), pretty<F>()}) != 0;
                    ev.add(std::string("[\"") + sg + "\"," + chain(ch) + ",\"" + kind<F>() + "\"," + std::to_string(look(f)) + "," + (here ? "1" : "0") + "]");
                };
                recursive_reflection::for_each_path_dfs(x, [&](const auto& ch, auto& f) { on("+", ch, f); }, [&](const auto& ch, auto& f) { on("-", ch, f); });
                n = show(x);
            });
            emit("dfs", ty, ",\"v\":" + v, k, ev.end(), n);
            k = guarded([&] {
                recursive_reflection::for_each_path_dfs(x, [](const auto&, auto& f) { bump(f); });
                n = show(x);
            });
            emit("dfs_write", ty, ",\"v\":" + v, k, "", n);
        }
        {   // paths and views
            T x{}, proto{};
            if (m) gen(x, g, m == 1);
            v = show(x);
            std::size_t c = 0, p = 0;
            K k = guarded([&] { c = struct_view::path_count_of(x); p = struct_view::extract_paths_of(x).size(); });
            emit("count", ty, ",\"v\":" + v, k, "[" + std::to_string(c) + "," + std::to_string(p) + "]", "");
            List en;
            k = guarded([&] {
                const struct_view::StructView<> w{m % 2 ? x : proto};
                for (const auto& [path, prop] : w.get_path_map_ref())
                {
                    en.add("[" + chain(path) + "," + quote(prop.metadata.metadata_type) + "," + nums(prop.offset.capacity) + "]");
                    if (m == 0 && nall < 120) all[nall++] = path;
                }
            });
            emit("view", ty, "", k, en.end(), "");
            Live l;
            live(l, x);
            List ce;
            k = guarded([&] {
                const struct_view::StructView<> w{m % 2 ? proto : x};
                struct_view::for_each_field(w, &x, [&](const auto& path, const auto& prop, const auto& ix, void* f) {
                    auto it = l.find({f, std::string(prop.metadata.detail_type)});
                    int o = it == l.end() ? -9 : it->second;
                    if (w.get_field(&x, path, ix) != f) o = -8;
                    if (!(w.at(path).offset == prop.offset) || !w.contains(path)) o = -5;
                    ce.add("[" + chain(path) + "," + nums(ix) + "," + std::to_string(o) + "]");
                });
                n = show(x);
            });
            emit("cells", ty, ",\"v\":" + v, k, ce.end(), n);
        }
    }
    // building a view path by path
    struct_view::PathNameChain bogus{};
    for (int i = -2; i < nall; i++)
    {
        struct_view::PathNameChain want = i >= 0 ? all[i] : bogus;
        if (i == -1) { want = nall ? all[nall - 1] : want; want.push_back("zz"); }
        int a = 0, b = 0;
        K k = guarded([&] {
            struct_view::StructView<> w{};
            struct_view::PathSet<4> one{};
            one.insert(want);
            if (i % 3 == 0) { T x{}; a = w.try_add_path(x, want); }
            else a = w.template try_add_path<T>(want);
            b = w.contains(want);
        });
        emit("add", ty, ",\"o\":" + chain(want), k, "[" + std::to_string(a) + "," + std::to_string(b) + "]", "");
        k = guarded([&] {
            struct_view::StructView<> w{};
            struct_view::PathSet<> one{};
            one.insert(want);
            if (i % 2 == 0) { T x{}; a = w.try_add_paths(x, one); }
            else a = w.template try_add_paths<T>(one);
            b = w.contains(want);
        });
        emit("add", ty, ",\"o\":" + chain(want), k, "[" + std::to_string(a) + "," + std::to_string(b) + "]", "");
    }
}
template <class T, class U> void sub(Rng& g, int rounds, bool fits)
{
    const std::string ty = Mem<T>::ty;
    const std::string u = std::string(",\"u\":") + Mem<U>::ty;
    for (int m = 0; m < rounds; m++)
    {
        T x{}, proto{};
        if (m || !fits) gen(x, g, m == 1 || !fits);  // what does not fit shows at the latest when every place is live
        const std::string v = show(x);
        std::string a, b, n;
        K k = guarded([&] {
            U y{};
            U py{};
            const struct_view::StructView<> big = m % 2 ? struct_view::StructView<>(x, py) : struct_view::StructView<>(proto, py);
            const struct_view::StructView<> small{py};
            if (m % 3 == 2) struct_view::sub_struct_view_of(static_cast<void*>(&x), big, static_cast<void*>(&y), small);
            else struct_view::sub_struct_view_of(x, big, out{y}, small);
            a = show(y);
            bump_all(x);
            b = show(y);
            n = show(x);
        });
        emit("sub", ty, u + ",\"v\":" + v, k, "[" + a + "," + b + "]", n);
        if (!fits) continue;
        T x2{};
        gen(x2, g, 0);
        gen(x, g, 0);
        const std::string v2 = show(x), w2 = show(x2);
        k = guarded([&] {
            U y{};
            U py{};
            const struct_view::StructView<> big{x, py};
            const struct_view::StructView<> small{py};
            struct_view::sub_struct_view_of(x, big, out{y}, small);
            a = show(y);
            struct_view::sub_struct_view_of(x2, big, out{y}, small);
            b = show(y);
        });
        emit("resub", ty, u + ",\"v\":" + v2 + ",\"w\":" + w2, k, "[" + a + "," + b + "]", "");
    }
}
template <class C, class T, class U> void range_of(Rng& g, C& c, int n)
{
    const std::string ty = Mem<T>::ty;
    const std::string u = std::string(",\"u\":") + Mem<U>::ty;
    for (auto& e : c) gen(e, g, 0);
    List vs;
    for (auto& e : c) vs.add(show(e));
    List at, fw, bw;
    int sz = 0;
    K k = guarded([&] {
        struct_view::ContiguousRangeSubStructView<U> r(c);
        sz = static_cast<int>(r.size());
        for (std::size_t i = 0; i < r.size(); i++) at.add(show(r.at(i)));
        for (const auto& e : r) fw.add(show(e));
        const auto& cr = r;
        auto it = cr.end();
        while (it != cr.begin()) { --it; if (it - cr.begin() < 0 || !(it < cr.end())) fail(K::corrupt); bw.add(show(*it)); }
        typename struct_view::ContiguousRangeSubStructView<U>::const_iterator dflt{}, other{};
        if (!(dflt == other)) fail(K::corrupt);
        auto cp = r;
        if (cp.size() != r.size()) fail(K::corrupt);
    });
    emit("range", ty, u + ",\"v\":" + vs.end(), k, "[" + std::to_string(sz) + "," + at.end() + "," + fw.end() + "," + bw.end() + "]", "");
    for (int o = n == 0 ? 0 : n - 1; o <= n + 1; o++)
    {
        k = guarded([&] {
            struct_view::ContiguousRangeSubStructView<U> r(c);
            show(r.at(static_cast<std::size_t>(o)));
        });
        emit("range_at", ty, u + ",\"v\":" + vs.end() + ",\"o\":" + std::to_string(o), k, "", "");
    }
}
template <class T, class U> void range(Rng& g)
{
    { std::array<T, 3> c{}; range_of<decltype(c), T, U>(g, c, 3); }
    for (int n = 1; n <= 4; n++) { FixedVector<T, 5> c(static_cast<std::size_t>(n)); range_of<decltype(c), T, U>(g, c, n); }
    { std::vector<T> c(2); range_of<decltype(c), T, U>(g, c, 2); }
}
// structs of many fields; F: name -> number
template <class T, int N> void fields()
{
    T x{};
    int i = 0;
    Mem<T>::each(x, [&](auto& m) { m = static_cast<std::remove_reference_t<decltype(m)>>(i++); });
    List nm, seen, cseen, after;
    std::size_t cnt = 0;
    K k = guarded([&] {
        cnt = reflection::field_count_of<T>();
        for (auto s : reflection::field_names_of<T>()) nm.add(std::string(s.substr(1)));
        reflection::for_each_field(std::as_const(x), [&](const std::string_view& name, const auto& f) {
            const bool in = reinterpret_cast<const char*>(&f) >= reinterpret_cast<const char*>(&x) && reinterpret_cast<const char*>(&f) < reinterpret_cast<const char*>(&x + 1);
            cseen.add(in && name.size() > 1 ? std::to_string(static_cast<int>(f)) : "-9");
        });
        reflection::for_each_field(x, [&](const std::string_view& name, auto& f) {
            seen.add(name == "f" + std::to_string(static_cast<int>(f)) ? std::to_string(static_cast<int>(f)) : "-9");
            f = static_cast<std::remove_reference_t<decltype(f)>>(f + 1000);
        });
        Mem<T>::each(x, [&](auto& m) { after.add(std::to_string(static_cast<int>(m))); });
    });
    emit("fields", "{\"k\":\"str\"}", ",\"o\":" + std::to_string(N), k, "[" + std::to_string(cnt) + "," + nm.end() + "," + cseen.end() + "," + seen.end() + "," + after.end() + "]", "");
}
// the decomposition itself, for every field count
template <std::size_t N> void unpack()
{
    int x[N]{};
    for (std::size_t i = 0; i < N; i++) x[i] = static_cast<int>(i);
    List seen, after;
    K k = guarded([&] {
        struct_decomposition::to_parameter_pack<N>(x, [&](auto&... a) {
            int* ps[] = {&a..., nullptr};
            for (int* q : ps) { if (q == nullptr) break; seen.add(std::to_string(*q)); *q += 1000; }
            return true;
        });
        for (int v : x) after.add(std::to_string(v));
    });
    emit("unpack", "{\"k\":\"str\"}", ",\"o\":" + std::to_string(N), k, "[" + seen.end() + "," + after.end() + "]", "");
}
template <std::size_t A, std::size_t... I> void unpack_from(std::index_sequence<I...>) { (unpack<A + I>(), ...); }
template <class S> void path_one(const std::vector<std::string>& comps)
{
    std::string o = "[";
    recursive_reflection::PathNameChain c{};
    for (auto& s : comps) { if (c.size()) o += ','; o += quote(s); c.push_back(s); }
    o += "]";
    std::string a, b, back;
    K k = guarded([&] {
        a = recursive_reflection::path_to_string<S>(c);
        S buf = "junk";
        S ret = recursive_reflection::path_to_string(c, out{buf});
        b = ret == buf ? std::string(buf) : "returned something else";
        back = chain(recursive_reflection::path_from_string(a));
    });
    emit("path", "{\"k\":\"str\"}", ",\"o\":" + o, k, "[" + quote(a) + "," + quote(b) + "," + back + "]", "");
}
inline void paths(Rng& g)
{
    const std::vector<std::string> al = {"a", "b", "data[:]", "value()", "", "a_1"};
    std::vector<std::vector<std::string>> todo = {{}};
    for (std::size_t i = 0; i < todo.size(); i++)
    {
        auto c = todo[i];
        if (c.size() == 3) continue;
        for (auto& s : al) { auto d = c; d.push_back(s); todo.push_back(d); }
    }
    for (int i = 0; i < 60; i++) { std::vector<std::string> c; for (int n = 4 + g.below(13); n > 0; n--) c.push_back(al[static_cast<std::size_t>(g.below(6))]); todo.push_back(c); }
    for (auto& c : todo) { path_one<std::string>(c); path_one<FixedString<200>>(c); }
    for (int n = 1; n <= 20; n++)
    {
        std::string s = "q";
        for (int i = 1; i < n; i++) s += ".q";
        K k = guarded([&] { if (recursive_reflection::path_from_string(s).size() != static_cast<std::size_t>(n)) fail(K::corrupt); });
        emit("path_long", "{\"k\":\"str\"}", ",\"o\":" + std::to_string(n), k, "", "");
    }
}
}  // namespace h
