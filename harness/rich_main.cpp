// Rich enums, enum adapters, string literals: every call from every value, at run time and in constant expressions.
#include "enums.hpp"
#include "fixed_containers/string_literal.hpp"
#include <climits>
#include <optional>
#include <unordered_map>
using namespace h;
namespace re = fc::rich_enums;
#define RICH(NAME, BASE, BACK) \
    class NAME : public re::BASE<NAME, BACK> { friend re::SkeletalRichEnumValues<NAME>; using re::BASE<NAME, BACK>::BASE; public: 
#define KONST(NAME, X) FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(NAME, X)
enum class BS : signed char { FAR = 126, MID = -3, DEEP = -128, ZERO = 0 };
RICH(RS, SkeletalRichEnum, BS) KONST(RS, FAR) KONST(RS, MID) KONST(RS, DEEP) KONST(RS, ZERO)
    static constexpr RS make(int x) { return RS(static_cast<BS>(x)); }
};
enum class BP { P1 = 1, P2, P3 };
RICH(RP, SkeletalRichEnum, BP) KONST(RP, P1) KONST(RP, P2) KONST(RP, P3) };
enum class BZ : unsigned char { Z0, Z1, Z2, Z3 };
RICH(RZ, NonDefaultConstructibleSkeletalRichEnum, BZ) KONST(RZ, Z0) KONST(RZ, Z1) KONST(RZ, Z2) KONST(RZ, Z3) };
enum class B1 : long long { INVALID = 9 };
RICH(R1, SkeletalRichEnum, B1) KONST(R1, INVALID) };
// without reflection: the user lists values, names and ordinals, in an order of their own
enum class BL : short { zero = 0, one = 1, three = 3, five = 5 };
class RL : public re::SkeletalRichEnumLite<RL, BL>
{
    friend struct RLValues;
    constexpr explicit RL(BL b) : re::SkeletalRichEnumLite<RL, BL>(b) {}
public:
    static constexpr std::size_t count() { return 4; }
    static constexpr const std::array<RL, 4>& values();
    KONST(RL, zero) KONST(RL, one) KONST(RL, three) KONST(RL, five)
    constexpr std::size_t ordinal() const { return backing_enum() == BL::five ? 0 : backing_enum() == BL::one ? 1 : backing_enum() == BL::zero ? 2 : 3; }
    constexpr std::string_view to_string() const { return backing_enum() == BL::five ? "five" : backing_enum() == BL::one ? "one" : backing_enum() == BL::zero ? "zero" : "three"; }
};
struct RLValues { static constexpr std::array<RL, 4> V{RL(BL::five), RL(BL::one), RL(BL::zero), RL(BL::three)}; };
constexpr const std::array<RL, 4>& RL::values() { return RLValues::V; }
enum class E0 : int {};

// ---- what the harness knows about each kind: its constants in values() order
template <class Q> struct Kd;
#define KIND(Q, B, ...)                                                                                         \
    template <> struct Kd<Q>                                                                                    \
    {                                                                                                           \
        static constexpr const char* t = #Q;                                                                    \
        static constexpr B back[] = {__VA_ARGS__};                                                              \
        static constexpr int n = sizeof(back) / sizeof(back[0]);                                                \
    };
KIND(R3, B3, B3::RED, B3::GREEN, B3::BLUE)
KIND(R2, BB, BB::NO, BB::YES)
KIND(RS, BS, BS::DEEP, BS::MID, BS::ZERO, BS::FAR)
KIND(RP, BP, BP::P1, BP::P2, BP::P3)
KIND(RZ, BZ, BZ::Z0, BZ::Z1, BZ::Z2, BZ::Z3)
KIND(RL, BL, BL::five, BL::one, BL::zero, BL::three)
KIND(R1, B1, B1::INVALID)
constexpr R3 konst(R3*, int i) { return i == 0 ? R3::RED() : i == 1 ? R3::GREEN() : R3::BLUE(); }
constexpr R2 konst(R2*, int i) { return i == 0 ? R2::NO() : R2::YES(); }
constexpr RS konst(RS*, int i) { return i == 0 ? RS::DEEP() : i == 1 ? RS::MID() : i == 2 ? RS::ZERO() : RS::FAR(); }
constexpr RP konst(RP*, int i) { return i == 0 ? RP::P1() : i == 1 ? RP::P2() : RP::P3(); }
constexpr RZ konst(RZ*, int i) { return i == 0 ? RZ::Z0() : i == 1 ? RZ::Z1() : i == 2 ? RZ::Z2() : RZ::Z3(); }
constexpr RL konst(RL*, int i) { return i == 0 ? RL::five() : i == 1 ? RL::one() : i == 2 ? RL::zero() : RL::three(); }
constexpr R1 konst(R1*, int) { return R1::INVALID(); }
int sw(const R3& x) { switch (x) { case B3::RED: return 1; case B3::GREEN: return 2; case B3::BLUE: return 4; } return -999; }
int sw(const R2& x) { switch (x) { case BB::NO: return 0; case BB::YES: return 1; } return -999; }
int sw(const RS& x) { switch (x) { case BS::DEEP: return -128; case BS::MID: return -3; case BS::ZERO: return 0; case BS::FAR: return 126; } return -999; }
int sw(const RP& x) { switch (x) { case BP::P1: return 1; case BP::P2: return 2; case BP::P3: return 3; } return -999; }
int sw(const RZ& x) { switch (x) { case BZ::Z0: return 0; case BZ::Z1: return 1; case BZ::Z2: return 2; case BZ::Z3: return 3; } return -999; }
int sw(const RL& x) { switch (x) { case BL::five: return 5; case BL::one: return 1; case BL::zero: return 0; case BL::three: return 3; } return -999; }
int sw(const R1& x) { switch (x) { case B1::INVALID: return 9; } return -999; }
template <class Q> constexpr int ord_of(const Q& x)   // by the backing value alone
{
    if (!x.has_value()) return -1;
    for (int i = 0; i < Kd<Q>::n; i++) if (Kd<Q>::back[i] == x.backing_enum()) return i;
    return -2;
}
std::string quote(std::string_view v)
{
    std::string r = "\"";
    for (char c : v) { if (c == '"' || c == '\\' || static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
void put(const char* t, int s, const std::string& o, K k, const Vec& r, std::string_view q, int n, const char* how)
{
    const bool ok = k == K::ok;
    std::string line = std::string("{\"t\":\"") + t + "\",\"s\":" + std::to_string(s) + ",\"o\":" + o + ",\"k\":\"" + kname(k) + "\",\"r\":" + js(ok ? r : Vec{}) +
                       ",\"q\":" + quote(ok ? q : std::string_view{}) + ",\"n\":" + std::to_string(ok ? n : -1) + "}";
    g_rec.per_variant[t]++;
    g_rec.line(k, std::move(line), std::string(t) + " " + how, [&] { return std::string("from ") + std::to_string(s); });
}
const std::vector<std::string>& names()
{
    static const std::vector<std::string> v = []
    {
        std::vector<std::string> base{"RED", "GREEN", "BLUE", "NO", "YES", "DEEP", "MID", "ZERO", "FAR", "P1", "P2", "P3", "Z0", "Z1", "Z2", "Z3", "five", "one", "zero", "three",
                                      "INVALID", "", "A", "K0", "true", "false", "0", "1", "-3"};
        std::vector<std::string> r = base;
        for (auto& b : base)
        {
            if (b.empty()) continue;
            r.push_back(b + "x"); r.push_back(" " + b); r.push_back(b.substr(1)); r.push_back(b.substr(0, b.size() - 1)); r.push_back(b + b);
            std::string c = b;
            c[0] = static_cast<char>(c[0] ^ 0x20);
            if (c[0] >= ' ' && c[0] != '"') r.push_back(c);
            c = b; c.back() = static_cast<char>(c.back() ^ 1);
            r.push_back(c);
        }
        return r;
    }();
    return v;
}
template <class Q> Vec ints()
{
    using B = typename Q::BackingEnum;
    using U = std::underlying_type_t<B>;
    Vec r;
    if constexpr (std::is_same_v<U, bool>) return Vec{0, 1};
    for (int x = -128; x <= 255; x++) if (x >= static_cast<long long>(std::numeric_limits<U>::min()) && x <= static_cast<long long>(std::numeric_limits<U>::max())) r.push_back(x);
    if constexpr (sizeof(U) >= 2) for (int i = 0; i < Kd<Q>::n; i++) { const int v = static_cast<int>(Kd<Q>::back[i]); for (int k : {256, 512, 4096, -256}) r.push_back(v + k); }
    if constexpr (sizeof(U) >= 4) for (int i = 0; i < Kd<Q>::n; i++) { const int v = static_cast<int>(Kd<Q>::back[i]); for (int k : {65536, 1 << 24, 1 << 30, -65536}) r.push_back(v + k); }
    if constexpr (sizeof(U) >= 4) { r.push_back(INT_MAX - 1); r.push_back(INT_MIN + 1); r.push_back(INT_MAX); }
    if constexpr (sizeof(U) == 2) { r.push_back(SHRT_MAX); r.push_back(SHRT_MIN); }
    return r;
}
template <class Q, int X> constexpr int cquery = [] { auto v = Q::value_of(static_cast<std::underlying_type_t<typename Q::BackingEnum>>(X)); return v.has_value() ? ord_of(*v) : -1; }();
template <class Q, std::size_t... I> constexpr std::array<int, sizeof...(I)> cints(std::index_sequence<I...>) { return {cquery<Q, static_cast<int>(I) - 128>...}; }
template <auto V> struct AsArgument { static constexpr auto value = V; };   // usable as a template argument
template <class Q> using Back = typename Q::BackingEnum;
template <class Q> struct Runner
{
    using U = std::underlying_type_t<Back<Q>>;
    static constexpr const char* t = Kd<Q>::t;
    static constexpr bool DFLT = std::is_default_constructible_v<Q>;
    // every way to obtain a variable holding a given value
    static std::vector<std::pair<const char*, Q>> routes(int s)
    {
        std::vector<std::pair<const char*, Q>> r;
        auto& other = Q::values()[static_cast<std::size_t>((s + 1) % Kd<Q>::n)];
        if (s < 0)
        {
            if constexpr (DFLT)
            {
                r.emplace_back("default", Q{});
                Q x = konst(static_cast<Q*>(nullptr), 0);
                x = Q();
                r.emplace_back("assigned default", x);
            }
            return r;
        }
        const Q c = konst(static_cast<Q*>(nullptr), s);
        r.emplace_back("constant", c);
        Q x = other;
        x = c;
        r.emplace_back("assigned", x);
        Q y = other;
        Q z = c;
        y = std::move(z);
        r.emplace_back("move assigned", y);
        r.emplace_back("copied", Q(x));
        r.emplace_back("listed", Q::values()[static_cast<std::size_t>(s)]);
        if constexpr (DFLT) { Q d; d = c; r.emplace_back("default, then assigned", d); }
        return r;
    }
    static void one(const char* how, const Q& made, int s)
    {
        alignas(Q) unsigned char mem[sizeof(Q) + 32];
        auto run = [&](const std::string& o, auto f)
        {
            std::memset(mem, 0xA5, sizeof(mem));
            Q& x = *new (mem + 16 / alignof(Q) * alignof(Q)) Q(made);
            Vec r;
            std::string q;
            int n = -3;
            K k = guarded([&] { f(x, r, q); n = ord_of(x); });
            for (int i = 0; i < 8; i++) if (mem[i] != 0xA5 || mem[sizeof(mem) - 1 - static_cast<std::size_t>(i)] != 0xA5) k = K::canary;
            put(t, s, o, k, r, q, n, how);
        };
        auto opt = [](Q& x, Vec& r, const std::optional<Q>& v) { r.push_back(v.has_value()); if (v) { r.push_back(ord_of(*v)); x = *v; } };
        run("[\"has\"]", [](Q& x, Vec& r, std::string&) { const Q& c = x; r.push_back(c.has_value()); });
        if constexpr (!std::is_same_v<Q, RL>) run("[\"str\"]", [](Q& x, Vec&, std::string& q) { const Q& c = x; q = c.to_string(); });
        run("[\"ordinal\"]", [](Q& x, Vec& r, std::string&) { const Q& c = x; r.push_back(static_cast<int>(c.ordinal())); });
        run("[\"value\"]", [](Q& x, Vec& r, std::string&) { const Q& c = x; r.push_back(static_cast<int>(c.backing_enum())); });
        run("[\"conv\"]", [](Q& x, Vec& r, std::string&) { const Q& c = x; Back<Q> b = c; r.push_back(static_cast<int>(b)); });
        run("[\"switch\"]", [](Q& x, Vec& r, std::string&) { r.push_back(sw(x)); });
        run("[\"copy\"]", [](Q& x, Vec& r, std::string&) { Q c(x); Q d(std::move(c)); r.push_back(ord_of(d) == ord_of(x) && d == x); });
        run("[\"hash\"]", [](Q& x, Vec& r, std::string&) { Q c(x); r.push_back(std::hash<Q>{}(x) == std::hash<Q>{}(c)); });
        if constexpr (DFLT) run("[\"dflt\"]", [](Q& x, Vec&, std::string&) { x = Q{}; });
        if constexpr (std::is_same_v<U, bool>) if (s >= 0) run("[\"not\"]", [](Q& x, Vec& r, std::string&) { const Q& c = x; r.push_back(ord_of(!c)); });
        for (int j = -1; j < Kd<Q>::n; j++)
            for (auto& [h2, other] : routes(j))
            {
                const std::string a = "," + std::to_string(j) + "]";
                run("[\"eq\"" + a, [&](Q& x, Vec& r, std::string&) { const Q& c = x; r.push_back(c == other); r.push_back(c != other); r.push_back(other == c); });
                run("[\"assign\"" + a, [&](Q& x, Vec& r, std::string&) { Q& y = (x = other); r.push_back(&y == &x); });
                if (j >= 0) run("[\"const\"" + a, [&](Q& x, Vec&, std::string&) { x = konst(static_cast<Q*>(nullptr), j); });
            }
        for (int v : ints<Q>())
        {
            const std::string a = "," + std::to_string(v) + "]";
            run("[\"int\"" + a, [&](Q& x, Vec& r, std::string&) { opt(x, r, Q::value_of(static_cast<U>(v))); });
            run("[\"back\"" + a, [&](Q& x, Vec& r, std::string&) { opt(x, r, Q::value_of(static_cast<Back<Q>>(v))); });
        }
        for (auto& nm : names())
        {
            const std::string o = "[\"name\"," + quote(nm) + "]";
            run(o, [&](Q& x, Vec& r, std::string&) { opt(x, r, Q::value_of(nm.c_str())); });
            run(o, [&](Q& x, Vec& r, std::string&) { opt(x, r, Q::value_of(nm)); });
            const std::string longer = "RED" + nm + "GREEN";
            run(o, [&](Q& x, Vec& r, std::string&) { opt(x, r, Q::value_of(std::string_view(longer).substr(3, nm.size()))); });
        }
        if constexpr (std::is_same_v<Q, RS>)
        {
            run("[\"make\",127]", [&](Q& x, Vec& r, std::string&) { x = RS::make(127); r.push_back(1); });
            run("[\"make\",126]", [&](Q& x, Vec& r, std::string&) { opt(x, r, std::optional<RS>(RS::make(126))); });
            run("[\"make\",-128]", [&](Q& x, Vec& r, std::string&) { opt(x, r, std::optional<RS>(RS::make(-128))); });
        }
    }
    // string literals passed as such
    template <std::size_t N> static void literal(const char (&lit)[N])
    {
        for (int s = 0; s < Kd<Q>::n; s++)
        {
            Q x = konst(static_cast<Q*>(nullptr), s);
            Vec r;
            K k = guarded([&] { auto v = Q::value_of(lit); r.push_back(v.has_value()); if (v) { r.push_back(ord_of(*v)); x = *v; } });
            put(t, s, "[\"name\"," + quote(std::string_view(lit, N - 1)) + "]", k, r, "", ord_of(x), "literal");
        }
    }
    static void all()
    {
        for (int s = -1; s < Kd<Q>::n; s++)
            for (auto& [how, x] : routes(s)) one(how, x, s);
        literal("RED"); literal("NO"); literal("YES"); literal("P2"); literal(""); literal("five"); literal("Z0"); literal("INVALID"); literal("MID");
        // constant expressions
        auto rec = [&](const std::string& o, int ans)
        {
            Vec r{ans >= 0};
            if (ans >= 0) r.push_back(ans);
            put(t, 0, o, K::ok, r, "", ans >= 0 ? ans : 0, "constant expression");
        };
        if constexpr (std::is_same_v<U, bool>)
        {
            rec("[\"cint\",0]", cquery<Q, 0>);
            rec("[\"cint\",1]", cquery<Q, 1>);
        }
        else
        {
            static constexpr auto tab = cints<Q>(std::make_index_sequence<256>{});
            for (int x = -128; x < 128; x++) if (std::is_signed_v<U> || x >= 0) rec("[\"cint\"," + std::to_string(x) + "]", tab[static_cast<std::size_t>(x + 128)]);
        }
        static constexpr int c1 = [] { auto v = Q::value_of("RED"); return v ? ord_of(*v) : -1; }();
        static constexpr int c2 = [] { auto v = Q::value_of(std::string_view("YES")); return v ? ord_of(*v) : -1; }();
        static constexpr int c3 = [] { auto v = Q::value_of("NO"); return v ? ord_of(*v) : -1; }();
        static constexpr int c4 = [] { auto v = Q::value_of(std::string_view("FAR!", 3)); return v ? ord_of(*v) : -1; }();
        rec("[\"cname\",\"RED\"]", c1); rec("[\"cname\",\"YES\"]", c2); rec("[\"cname\",\"NO\"]", c3); rec("[\"cname\",\"FAR\"]", c4);
        static constexpr Q first = AsArgument<konst(static_cast<Q*>(nullptr), 0)>::value;
        put(t, 0, "[\"value\"]", K::ok, Vec{static_cast<int>(first.backing_enum())}, "", 0, "template argument");
        kind<Q>(t, [](int i) { return konst(static_cast<Q*>(nullptr), i); }, [](const Q& x) { return static_cast<int>(x.backing_enum()); });
        // the class itself
        put(t, 0, "[\"count\"]", K::ok, Vec{static_cast<int>(Q::count())}, "", 0, "class");
        for (int i = 0; i < Kd<Q>::n; i++)
        {
            Vec r;
            std::string q;
            K k = guarded([&] { auto& v = Q::values().at(static_cast<std::size_t>(i)); r = Vec{static_cast<int>(v.backing_enum()), static_cast<int>(v.ordinal())}; q = v.to_string(); });
            put(t, 0, "[\"nth\"," + std::to_string(i) + "]", k, r, q, 0, "class");
        }
    }
    template <class T, class Mk, class Val> static void kind(const char* nm, Mk mk, Val val) { adapter<T>(nm, Kd<Q>::n, mk, val, 0); }
    template <class T, class Mk, class Val> static void adapter(const char* nm, int n, Mk mk, Val val, int s)
    {
        using Ad = re::EnumAdapter<T>;
        put(nm, s, "[\"count\"]", K::ok, Vec{static_cast<int>(Ad::count())}, "", s, "adapter");
        put(nm, s, "[\"fitting\"]", K::ok, Vec{re::has_enum_adapter<T> && Ad::values().size() == Ad::count()}, "", s, "adapter");
        for (int i = 0; i < n; i++)
        {
            Vec r;
            std::string q;
            K k = guarded([&]
            {
                const T x = mk(i);
                r = Vec{val(Ad::values().at(static_cast<std::size_t>(i))), static_cast<int>(Ad::ordinal(x))};
                q = Ad::to_string(x);
            });
            put(nm, s, "[\"nth\"," + std::to_string(i) + "]", k, r, q, s, "adapter");
        }
    }
};
template <class T> void builtin(const char* nm)
{
    auto val = [](const T& x) { return static_cast<int>(x); };
    if constexpr (std::is_same_v<T, E0>) Runner<R3>::adapter<T>(nm, 0, [](int) { return T{}; }, val, -1);
    else Runner<R3>::adapter<T>(nm, EKeys<T>::N, [](int i) { return EKeys<T>::at(i); }, val, -1);
}
// ---- string literals
template <std::size_t N> consteval fc::StringLiteral lit_of(const char (&s)[N]) { return s; }
void lit(const fc::StringLiteral& l, const Vec& chars, const char* how)
{
    auto out = [&](const char* op, auto f)
    {
        Vec r;
        K k = guarded([&] { f(r); });
        std::string line = std::string("{\"t\":\"lit\",\"s\":") + js(chars) + ",\"o\":[\"" + op + "\"],\"k\":\"" + kname(k) + "\",\"r\":" + js(r) + "}";
        g_rec.per_variant["lit"]++;
        g_rec.line(k, std::move(line), std::string("StringLiteral ") + how, [&] { return js(chars); });
    };
    auto text = [](std::string_view v, Vec& r) { for (char c : v) r.push_back(static_cast<unsigned char>(c)); };
    out("lit", [&](Vec& r) { r.push_back(static_cast<int>(l.size())); text(std::string_view(l.c_str(), l.size()), r); r.push_back(l.c_str()[l.size()]); });
    out("view", [&](Vec& r) { text(l.as_view(), r); });
    out("view", [&](Vec& r) { std::string_view v = l; text(v, r); });
    out("copy", [&](Vec& r) { fc::StringLiteral a = l; fc::StringLiteral b; b = a; text(b.as_view(), r); });
    bool nul = false;
    for (int c : chars) nul |= c == 0;
    if (!nul) { out("cstr", [&](Vec& r) { const char* p = l; text(p, r); }); out("cstr", [&](Vec& r) { text(l.c_str(), r); }); }
}
#define LIT(S) do { static constexpr fc::StringLiteral L = S; static constexpr fc::StringLiteral M = lit_of(S); Vec c; for (std::size_t i = 0; i + 1 < sizeof(S); i++) c.push_back(static_cast<unsigned char>(S[i])); lit(L, c, "constant"); lit(S, c, "temporary"); lit(M, c, "returned"); } while (0)
int main(int argc, char** argv)
{
    install_signals();
    g_conf = parse(argc, argv);
    g_rec.open(g_conf.out);
    Runner<R3>::all(); Runner<R2>::all(); Runner<RS>::all(); Runner<RP>::all(); Runner<RZ>::all(); Runner<RL>::all(); Runner<R1>::all();
    builtin<E1>("E1"); builtin<E2>("E2"); builtin<E3>("E3"); builtin<E4>("E4"); builtin<E17>("E17"); builtin<E0>("E0");
    LIT(""); LIT("a"); LIT("blah"); LIT("a\0b"); LIT("\0"); LIT("\0\0"); LIT("tail\0"); LIT("\xff\x80\x01"); LIT("a string that is longer than any small buffer, 64 and some more bytes of it");
    lit(fc::StringLiteral(), Vec{}, "default");
    g_rec.report();
    g_rec.out.flush();
    g_rec.meta.flush();
    std::fflush(stdout);
    _exit(0);
}
