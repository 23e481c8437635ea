// Key types for the library's own hash: strings of every length class, floating point, unscoped enums, pointers.
// Equal keys are produced as distinct objects, in distinct buffers, followed by different bytes.
#pragma once
#include "assoc.hpp"
#include <string>
#include <string_view>
namespace h
{
inline constexpr int NKEYS = 24;
inline constexpr int key_len[NKEYS] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 64, 65, 96, 97};
inline char key_buf[2][NKEYS][112];
inline const char* key_text(int k)
{
    static bool ready = false;
    if (!ready)
    {
        ready = true;
        for (int w = 0; w < 2; w++)
            for (int i = 0; i < NKEYS; i++)
            {
                char* p = key_buf[w][i];
                for (int j = 0; j < 112; j++) p[j] = static_cast<char>(w ? 'x' : '\xfe');
                p += 1 + 3 * w;   // two alignments
                for (int j = 0; j < key_len[i]; j++) p[j] = static_cast<char>('a' + (j % 7));
                if (key_len[i] > 0 && i % 3 == 1) p[key_len[i] - 1] = '\x80';
            }
    }
    static unsigned turn = 0;
    const unsigned w = turn++ & 1;
    return key_buf[w][k] + 1 + 3 * w;
}
enum UnscopedKey : signed char { UK_LAST = 23 };
using KSV = std::string_view;
using KST = std::string;
using KDB = double;
using KUE = UnscopedKey;
using KPT = const int*;
inline int key_cells[NKEYS];
template <> struct EKeys<KSV>
{
    static constexpr int N = NKEYS;
    static constexpr const char* name = "string_view";
    static KSV at(int i) { return KSV(key_text(i), static_cast<std::size_t>(key_len[i])); }
};
template <> struct EKeys<KST>
{
    static constexpr int N = NKEYS;
    static constexpr const char* name = "string";
    static KST at(int i) { return KST(key_text(i), static_cast<std::size_t>(key_len[i])); }
};
template <> struct EKeys<KDB>
{
    static constexpr int N = NKEYS;
    static constexpr const char* name = "double";
    static KDB at(int i)
    {
        static unsigned turn = 0;
        if (i == 0) return (turn++ & 1) ? 0.0 : -0.0;   // equal, different bytes
        static constexpr double t[NKEYS] = {0, -0.25, 0.25, 0.5, -1, 1, -1.5, 2, -1e300, 1e300, 1e19, -1e19, 0.1, 0.2, 0.3, 7, 8, 9, 10, 11, 12, 13, 14, 15};
        return t[i];
    }
};
template <> struct EKeys<KUE>
{
    static constexpr int N = NKEYS;
    static constexpr const char* name = "unscoped";
    static constexpr KUE at(int i) { return static_cast<KUE>(11 - i); }
};
template <> struct EKeys<KPT>
{
    static constexpr int N = NKEYS;
    static constexpr const char* name = "pointer";
    static KPT at(int i) { return i == 0 ? nullptr : key_cells + i; }
};
template <class Kt, class Vt, std::size_t N, std::size_t B>
struct DefHashCfg : CfgBase
{
    using Key = Kt;
    using Mapped = Vt;
    using Hash = fc::wyhash::hash<Kt>;
    using E = std::equal_to<Kt>;
    template <class X, bool M> struct Ty { using type = fc::FixedUnorderedMap<Kt, X, N, Hash, E, B, MapChkFor<Kt, X, N>>; };
    template <class X> struct Ty<X, false> { using type = fc::FixedUnorderedSet<Kt, N, Hash, E, B, SetChkFor<Kt, N>>; };
    static constexpr bool MAP = !std::is_void_v<Vt>;
    using C = typename Ty<Vt, MAP>::type;
    static constexpr int cap = N, nv = keys_for(N);
    static constexpr bool HASHED = true;
    static const char* tname() { return MAP ? "umap_eq" : "uset_eq"; }
    static std::string variant()
    {
        std::string s = std::string(tname()) + "<" + ET<Kt>::name;
        if constexpr (MAP) s += std::string(",") + ET<Vt>::name;
        return s + "," + std::to_string(N) + ",default hash,buckets" + std::to_string(B) + ">";
    }
    static C fresh() { return C(); }
    static void create(C* p) { std::construct_at(p); }
    template <class It> static C fresh(It f, It l) { return C(f, l); }
    static C fresh(std::initializer_list<typename C::value_type> il) { return C(il); }
    template <class A> static auto make_typed(const A& arr)
    {
        if constexpr (MAP)
        {
            using Chk = MapChkFor<Kt, Vt, N>;
            if constexpr (N == 0) return fc::make_fixed_unordered_map<Kt, Vt, Hash, E, Chk, C>(arr);
            else return fc::make_fixed_unordered_map<Kt, Vt, Hash, E, Chk, N, B, C>(arr);
        }
        else
        {
            using Chk = SetChkFor<Kt, N>;
            if constexpr (N == 0) return fc::make_fixed_unordered_set<Kt, Hash, E, Chk, C>(arr);
            else return fc::make_fixed_unordered_set<Kt, Hash, E, Chk, N, B, C>(arr);
        }
    }
    template <class A> static auto make_deduced(const A& arr)
    {
        if constexpr (MAP)
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_map(arr);
            else return fc::make_fixed_unordered_map<Kt, Vt, Hash, E, N, B>(arr);
        }
        else
        {
            if constexpr (N == 0) return fc::make_fixed_unordered_set(arr);
            else return fc::make_fixed_unordered_set<Kt, Hash, E, N, B>(arr);
        }
    }
};
}  // namespace h
