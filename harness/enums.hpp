// Enum-like key types and their ordinal order.
#pragma once
#include "assoc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_utils.hpp"
namespace h
{
enum class E1 : int { ONLY = 7 };
enum class E2 : signed char { LATER = 100, EARLIER = -100 };           // declared out of order, negative
enum class E3 { A, B, C };
enum E4 : unsigned short { E4_P = 3, E4_Q = 90, E4_R = 4, E4_S = 57 };  // unscoped, sparse
enum class E17 { K0, K1, K2, K3, K4, K5, K6, K7, K8, K9, K10, K11, K12, K13, K14, K15, K16 };
enum class B3 { RED = 1, GREEN = 2, BLUE = 4 };
struct R3 : fc::rich_enums::SkeletalRichEnum<R3, B3>
{
    friend fc::rich_enums::SkeletalRichEnumValues<R3>;
    using fc::rich_enums::SkeletalRichEnum<R3, B3>::SkeletalRichEnum;
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, RED)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, GREEN)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R3, BLUE)
};
enum class BB : bool { NO = false, YES = true };
struct R2 : fc::rich_enums::SkeletalRichEnum<R2, BB>
{
    friend fc::rich_enums::SkeletalRichEnumValues<R2>;
    using fc::rich_enums::SkeletalRichEnum<R2, BB>::SkeletalRichEnum;
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R2, NO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(R2, YES)
};
// a class that is not an enum at all, adapted by the user; order is opposite to the numeric one
struct X3
{
    int id;
    constexpr bool operator==(const X3&) const = default;
    constexpr auto operator<=>(const X3&) const = default;
};
#define EKEYS(T, ...)                                                                                        \
    template <> struct EKeys<T>                                                                              \
    {                                                                                                        \
        static constexpr T table[] = {__VA_ARGS__};                                                          \
        static constexpr int N = sizeof(table) / sizeof(table[0]);                                           \
        static constexpr const char* name = #T;                                                              \
        static constexpr T at(int i) { return table[i]; }                                                              \
    };
EKEYS(E1, E1::ONLY)
EKEYS(E2, E2::EARLIER, E2::LATER)
EKEYS(E3, E3::A, E3::B, E3::C)
EKEYS(E4, E4_P, E4_R, E4_S, E4_Q)
EKEYS(E17, E17::K0, E17::K1, E17::K2, E17::K3, E17::K4, E17::K5, E17::K6, E17::K7, E17::K8, E17::K9, E17::K10, E17::K11, E17::K12, E17::K13, E17::K14, E17::K15, E17::K16)
EKEYS(X3, X3{30}, X3{20}, X3{10})
template <> struct EKeys<R3>
{
    static constexpr int N = 3;
    static constexpr const char* name = "R3";
    static constexpr R3 at(int i) { return i == 0 ? R3::RED() : i == 1 ? R3::GREEN() : R3::BLUE(); }
};
template <> struct EKeys<R2>
{
    static constexpr int N = 2;
    static constexpr const char* name = "R2";
    static constexpr R2 at(int i) { return i == 0 ? R2::NO() : R2::YES(); }
};
}  // namespace h
template <>
struct fixed_containers::rich_enums::EnumAdapter<h::X3>
{
    using Enum = h::X3;
    static constexpr std::array<h::X3, 3> VALUES{h::X3{30}, h::X3{20}, h::X3{10}};
    static constexpr std::size_t count() { return 3; }
    static constexpr const std::array<h::X3, 3>& values() { return VALUES; }
    static constexpr std::size_t ordinal(const h::X3& x) { return static_cast<std::size_t>(3 - x.id / 10); }
    static constexpr std::string_view to_string(const h::X3&) { return "x"; }
};
namespace h
{
template <class Kt, class Vt>
struct EnumCfg : CfgBase
{
    using Key = Kt;
    using Mapped = Vt;
    template <class X, bool M> struct Ty { using type = fc::EnumMap<Kt, X, EnumMapChkFor<Kt, X>>; };
    template <class X> struct Ty<X, false> { using type = fc::EnumSet<Kt>; };
    static constexpr bool MAP = !std::is_void_v<Vt>;
    using C = typename Ty<Vt, MAP>::type;
    static constexpr int cap = EKeys<Kt>::N, nv = EKeys<Kt>::N;
    static constexpr bool ENUM = true, ORDERED = !std::is_same_v<Kt, X3>;   // X3 compares against its ordinal order
    static const char* tname() { return MAP ? "emap" : "eset"; }
    static std::string variant()
    {
        std::string s = std::string(tname()) + "<" + EKeys<Kt>::name;
        if constexpr (MAP) s += std::string(",") + ET<Vt>::name;
        return s + ">";
    }
    static constexpr C fresh() { return C(); }
    static constexpr void create(C* p) { std::construct_at(p); }
    template <class It> static constexpr C fresh(It f, It l) { return C(f, l); }
    static constexpr C fresh(std::initializer_list<typename C::value_type> il) { return C(il); }
    // ---- factories and builders
    static constexpr bool extra(C& c, const Op& o, Js&)
    {
        using A = AssocA<EnumCfg>;
        using VT = typename C::value_type;
        const int* a = o.a;
        auto become = [&](C&& x) { renew(c, [&] { return C(std::move(x)); }); };
        auto data = [&]
        {
            HV<VT> d;
            auto r = A::run(a[0], a[1], a[2]);
            d.reserve(r.size() + 1);
            for (auto& e : r) d.push_back(A::entry(e.k, e.v));
            return d;
        };
        switch (o.id)
        {
        case H("bld_c"):
            if constexpr (A::COPY)
            {
                typename C::Builder b;
                auto d = data();
                for (auto& e : d) { const VT& x = e; b.insert(x); }
                C t = b.build();
                become(std::move(t));
            }
            else
            {
                typename C::Builder b;
                for (auto& e : A::run(a[0], a[1], a[2])) b.insert(A::entry(e.k, e.v));
                become(std::move(b).build());
            }
            return true;
        case H("bld_r"):   // the overloads for temporaries
            if constexpr (A::COPY)
            {
                auto d = data();
                const int n = static_cast<int>(d.size());
                typename C::Builder b;
                if (n > 0) { const VT& x = d[0]; b = typename C::Builder{}.insert(x); }
                if (n > 1) b = std::move(b).insert(VT(d[1]));
                if (n > 2) b = std::move(b).insert({d[2]});
                if (n > 3) b = std::move(b).insert(d.data() + 3, d.data() + n);
                become(std::move(b).build());
            }
            else
            {
                typename C::Builder b;
                for (auto& e : A::run(a[0], a[1], a[2])) b = std::move(b).insert(A::entry(e.k, e.v));
                become(std::move(b).build());
            }
            return true;
        case H("bld_il"):
            if constexpr (A::COPY) A::with_il(a[0], a[1], a[2], [&](std::initializer_list<VT> il) { become(typename C::Builder{}.insert(il).build()); });
            return true;
        case H("bld_ra"):
            if constexpr (A::COPY) { auto d = data(); become(typename C::Builder{}.insert(d.begin(), d.end()).build()); }
            return true;
        default: break;
        }
        if constexpr (MAP)
        {
            switch (o.id)
            {
            case H("with_keys"):
                if constexpr (A::VCOPY)
                {
                    HV<Kt> ks;
                    for (auto it = c.cbegin(); it != c.cend(); ++it) ks.push_back(it->first);
                    become(C::create_with_keys(ks, mk<Vt>(a[0])));
                }
                return true;
            case H("with_all"): if constexpr (A::COPY) { auto d = data(); become(C::create_with_all_entries(d)); } return true;
            case H("with_all_il"):
                if constexpr (A::COPY) A::with_il(a[0], a[1], a[2], [&](std::initializer_list<VT> il) { become(C::create_with_all_entries(il)); });
                return true;
            default: return false;
            }
        }
        else
        {
            switch (o.id)
            {
            case H("all"): become(C::all()); return true;
            case H("none"): become(C::none()); return true;
            case H("complement"): become(C::complement_of(static_cast<const C&>(c))); return true;
            case H("complement_dup"): case H("copy_dup"):   // the source repeats every key
            {
                HV<Kt> ks;
                for (int g = 0; g < 2; g++) for (auto it = c.cbegin(); it != c.cend(); ++it) ks.push_back(*it);
                if (o.id == H("copy_dup")) become(C::copy_of(ks)); else become(C::complement_of(ks));
                return true;
            }
            case H("copy_of"): { HV<Kt> ks(c.cbegin(), c.cend()); become(C::copy_of(ks)); return true; }
            case H("bld_e"):
            {
                typename C::Builder b;
                auto d = data();
                b.insert(d);
                if (nv > 0) b.erase(mkk<Kt>(a[0]));
                become(b.build());
                return true;
            }
            default: return false;
            }
        }
    }
};
}  // namespace h
