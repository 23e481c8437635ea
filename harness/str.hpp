// FixedString: how each abstract call of StrOps.tla is performed. -DREF: on std::string instead.
#pragma once
#include "drive.hpp"
#include "elems.hpp"
#include "fixed_containers/fixed_string.hpp"
#include <string>
namespace h
{
namespace fc = fixed_containers;
inline constexpr int NVS = 3;
constexpr char ch(int v) { const char t[] = {'\0', 'a', '\xE1', ' ', '\n'}; return t[v]; }
constexpr int scode(char c)
{
    switch (c) { case '\0': return 0; case 'a': return 1; case '\xE1': return 2; case ' ': return 3; case '\n': return 4; default: return -77; }
}
constexpr HStr word(int k)
{
    if (k == 0) return {};
    if (k < 4) return {ch(k - 1)};
    if (k < 13) return {ch((k - 4) / 3), ch((k - 4) % 3)};
    return {ch((k - 13) / 9), ch((k - 13) / 3 % 3), ch((k - 13) % 3)};
}
struct InC  // single pass over characters
{
    using iterator_category = std::input_iterator_tag;
    using value_type = char;
    using difference_type = std::ptrdiff_t;
    using pointer = const char*;
    using reference = char;
    const HStr* b = nullptr;
    std::size_t* cur = nullptr;
    constexpr bool done() const { return cur == nullptr || *cur >= b->size(); }
    constexpr char operator*() const { return (*b)[*cur]; }
    constexpr InC& operator++() { ++*cur; return *this; }
    constexpr void operator++(int) { ++*cur; }
    friend constexpr bool operator==(const InC& x, const InC& y) { return x.done() == y.done(); }
};
template <std::size_t N>
struct StrA
{
#ifdef REF
    using C = std::string;
    static constexpr bool trivial = false;
    static const char* tname() { return "str"; }
    static std::string variant() { return "std::string/" + std::to_string(N); }
#else
#ifdef DEFCHK
    using C = fc::FixedString<N>;
#else
    using C = fc::FixedString<N, SeqChk>;
#endif
    static constexpr bool trivial = true;
    static const char* tname() { return "str"; }
    static std::string variant() { return "string<" + std::to_string(N) + ">"; }
#endif
    static constexpr int cap = static_cast<int>(N);
    static constexpr int nv = NVS;
    static constexpr bool copyable = true, ordered = true, stateful = false;
    static constexpr int rcode(char x) { return scode(x); }
    static constexpr char element(int v) { return ch(v); }
    static constexpr C fresh() { return C(); }
    static constexpr void create(C* p) { std::construct_at(p); }
    static constexpr void observe(C& c, Vec& out)
    {
        out.clear();
        const C& cc = c;
        for (std::size_t i = 0; i < cc.size() && i < N + 3; i++) out.push_back(scode(cc.data()[i]));
        if (cc.size() > N + 1 || cc.data()[cc.size()] != '\0' || cc.c_str() != cc.data()) out.push_back(-5);
    }
    static bool supports(const Op& o)
    {
#ifdef REF
        static const std::set<std::string> no{"make", "idx", "cidx", "erase_past", "at", "cat", "front", "cfront", "back", "cback", "pop_back", "erase",
            "erase_range", "substr", "substr_to_end", "reserve"};
        if (no.count(std::string(o.name)) || o.name.find("_far") != std::string::npos) return false;
#endif
        (void)o;
        return true;
    }
    static bool sane(const Vec& n)
    {
        if (static_cast<int>(n.size()) > cap) return false;
        for (int x : n) if (x < 0 || x > 4) return false;
        return true;
    }
    static bool is_ctor(const Op& o) { return o.name.compare(0, 4, "ctor") == 0 || o.name == "make" || o.name == "in"; }
    static constexpr C made(const Op& o) { C d; for (int j = 0; j < o.a[1]; j++) d.push_back(ch((o.a[0] + j) % NVS)); return d; }
    static bool towards(const Vec& s, const Vec& target, Rng& g, Op& op)
    {
        auto set = [&](const char* n, int na, int x = 0, int y = 0) { op = Op{}; op.name = n; op.id = H(n); op.na = na; op.a[0] = x; op.a[1] = y; };
        if (s == target) return false;
        std::size_t i = 0;
        while (i < s.size() && i < target.size() && s[i] == target[i]) i++;
        if (i < s.size())
        {
            if (g.below(2) && i < target.size()) set("set_idx", 2, static_cast<int>(i), target[i]);
            else if (g.below(2)) set("pop_back", 0);
            else set("erase", 1, static_cast<int>(i));
        }
        else if (g.below(2)) set("push_back", 1, target[i]);
        else set("insert_ch", 2, static_cast<int>(i), target[i]);
        return true;
    }
    static bool bias(const Op& o, bool shrinking, Rng& g)
    {
        auto has = [&](const char* x) { return o.name.find(x) != std::string::npos; };
        if (has("clear") || has("assign") || has("eq_") || has("resize") || has("ctor") || has("range") || o.name == "in") return g.below(12) == 0;
        if (has("push") || has("insert") || has("append") || has("plus")) return !shrinking || g.below(3) == 0;
        if (has("pop") || has("erase")) return shrinking || g.below(4) == 0;
        return g.below(3) == 0;
    }
    template <class F> static constexpr void il(const HStr& w, F&& f)
    {
        switch (w.size())
        {
        case 0: f(std::initializer_list<char>{}); break;
        case 1: f(std::initializer_list<char>{w[0]}); break;
        case 2: f(std::initializer_list<char>{w[0], w[1]}); break;
        default: f(std::initializer_list<char>{w[0], w[1], w[2]}); break;
        }
    }
    using FS2 = fc::FixedString<5, SeqChk>;
    static constexpr FS2 other(const HStr& w) { return FS2(std::string_view(w)); }
    static constexpr long long p2(std::size_t p) { return p == std::string::npos ? -1 : static_cast<long long>(p); }
    static constexpr int sg(int x) { return x < 0 ? -1 : x > 0; }
    template <class O> static constexpr int so(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
    static constexpr void chars(Js& r, std::string_view v) { for (char c : v) r.i(scode(c)); }
    static constexpr void same(const C& a, const C& b) { if (&a != &b) fail(K::corrupt); }

    static constexpr void search(const C& c, const Op& o, const HStr& w, Js& r)
    {
        const FS2 fs = other(w);
        const char* p = w.data();
        const char* z = w.c_str();
#ifdef REF
        const std::string_view fsv = fs;
#else
        const FS2& fsv = fs;
#endif
        auto run = [&](auto&& f)
        {
            auto at = [&](std::size_t pos)
            {
                r.open();
                r.i(p2(f(fsv, pos))).i(p2(f(std::string_view(w), pos))).i(p2(f(p, pos, w.size()))).i(p2(f(z, pos)));
                if (w.size() == 1) r.i(p2(f(w[0], pos)));
                r.close();
            };
            r.open();
            for (std::size_t pos = 0; pos <= c.size() + 1; pos++) at(pos);
            r.close();
            at(std::string::npos);
            r.open();
            r.i(p2(f(fsv))).i(p2(f(std::string_view(w)))).i(p2(f(z)));
            if (w.size() == 1) r.i(p2(f(w[0])));
            r.close();
        };
        switch (o.id)
        {
        case H("find"): run([&](auto... x) { return c.find(x...); }); return;
        case H("rfind"): run([&](auto... x) { return c.rfind(x...); }); return;
        case H("ffo"): run([&](auto... x) { return c.find_first_of(x...); }); return;
        case H("ffno"): run([&](auto... x) { return c.find_first_not_of(x...); }); return;
        case H("flo"): run([&](auto... x) { return c.find_last_of(x...); }); return;
        default: run([&](auto... x) { return c.find_last_not_of(x...); }); return;
        }
    }
    static constexpr void apply(C& c, const Op& o, Js& r)
    {
        call(c, o, r);
#ifdef REF
        if (c.size() > N) fail(K::length_error);
#endif
    }
    static void stream(C& c, const C& cc, const Op& o, Js& r)
    {
        const int* a = o.a;
        switch (o.id)
        {
        case H("in"): case H("in_w"): case H("in_ws"):
        {
            const int x[5] = {o.name == "in_w" ? 1 : a[0], o.name == "in" ? a[1] : o.name == "in_w" ? a[0] : 0,
                              o.name == "in" ? a[2] : o.name == "in_w" ? 1 : a[1], o.name == "in" ? a[3] : o.name == "in_w" ? 0 : a[2],
                              o.name == "in" ? a[4] : o.name == "in_w" ? 1 : a[3]};
            const std::string q = [&]
            {
                Own own;
                std::string w(static_cast<std::size_t>(x[0]), ' ');
                w += std::string_view(word(x[1]));
                w += x[2] == 0 ? "" : x[2] == 1 ? " a" : "\n";
                return w;
            }();
            std::istringstream is = [&] { Own own; return std::istringstream(q); }();
            is.width(x[3]);
            if (x[4] == 0) is.unsetf(std::ios::skipws);
            auto& back = is >> c;
            if (&back != &is) fail(K::corrupt);
            r.i(is.eof()).i(is.fail());
            const auto width = is.width();
            is.clear();
            int rest = 0;
            while (is.rdbuf()->sbumpc() != std::char_traits<char>::eof()) rest++;
            r.i(rest).i(static_cast<long long>(width));
            return;
        }
        case H("out"): 
        {
            struct Buf : std::streambuf
            {
                char b[256];
                Buf() { setp(b, b + sizeof b); }
                std::string_view str() const { return {pbase(), static_cast<std::size_t>(pptr() - pbase())}; }
            } b;
            std::ostream os(&b);
            os.width(a[0]);
            os << cc;
            chars(r, b.str());
            return;
        }
        default: break;
        }
    }
    static constexpr void call(C& c, const Op& o, Js& r)
    {
        const C& cc = c;
        const int* a = o.a;
        auto pos = [&](auto it) { return static_cast<long long>(it - c.begin()); };
        auto at = [&](int p) { return cc.begin() + p; };
        std::size_t cur = 0;
        switch (o.id)
        {
        case H("ctor_n"): renew(c, [&] { return C(static_cast<std::size_t>(a[0]), ch(a[1])); }); return;
        case H("ctor_vw"): { auto w = word(a[0]); renew(c, [&] { return C(std::string_view(w)); }); return; }
        case H("ctor_cs"): { auto w = word(a[0]); renew(c, [&] { return C(w.c_str()); }); return; }
        case H("ctor_il"): { auto w = word(a[0]); il(w, [&](std::initializer_list<char> l) { renew(c, [&] { return C(l); }); }); return; }
        case H("copy"): { C t(cc); renew(c, [&] { return C(static_cast<const C&>(t)); }); return; }
        case H("move"): { C t(std::move(c)); renew(c, [&] { return C(std::move(t)); }); return; }
        case H("cassign"): { C d = made(o); same(c = static_cast<const C&>(d), c); return; }
        case H("massign"): { C d = made(o); same(c = std::move(d), c); return; }
        case H("self_assign"): { C& x = c; same(c = x, c); return; }
        case H("clear"): c.clear(); return;
        case H("resize"): c.resize(static_cast<std::size_t>(a[0])); return;
        case H("resize_v"): c.resize(static_cast<std::size_t>(a[0]), ch(a[1])); return;
        case H("assign_n"): same(c.assign(static_cast<std::size_t>(a[0]), ch(a[1])), c); return;
        case H("assign_vw"): { auto w = word(a[0]); same(c.assign(std::string_view(w)), c); return; }
        case H("assign_cs"): { auto w = word(a[0]); same(c.assign(w.c_str()), c); return; }
        case H("assign_il"): { auto w = word(a[0]); il(w, [&](std::initializer_list<char> l) { same(c.assign(l), c); }); return; }
        case H("assign_in"): { auto w = word(a[0]); same(c.assign(InC{&w, &cur}, InC{}), c); return; }
        case H("assign_ra"): { auto w = word(a[0]); same(c.assign(w.begin(), w.end()), c); return; }
        case H("assign_fs"): { auto f = other(word(a[0])); same(c.assign(f), c); return; }
        case H("assign_own"): same(c.assign(std::string_view(cc).substr(a[0], a[1] - a[0])), c); return;
        case H("assign_own_it"): same(c.assign(at(a[0]), at(a[1])), c); return;
        case H("assign_own_rev"): same(c.assign(std::make_reverse_iterator(at(a[1])), std::make_reverse_iterator(at(a[0]))), c); return;
        case H("eq_vw"): { auto w = word(a[0]); c = std::string_view(w); return; }
        case H("eq_cs"): { auto w = word(a[0]); c = w.c_str(); return; }
        case H("insert_ch"): r.i(pos(c.insert(at(a[0]), ch(a[1])))); return;
        case H("insert_il"): { auto w = word(a[1]); il(w, [&](std::initializer_list<char> l) { r.i(pos(c.insert(at(a[0]), l))); }); return; }
        case H("insert_in"): { auto w = word(a[1]); r.i(pos(c.insert(at(a[0]), InC{&w, &cur}, InC{}))); return; }
        case H("insert_ra"): { auto w = word(a[1]); r.i(pos(c.insert(at(a[0]), w.data(), w.data() + w.size()))); return; }
        case H("insert_own_it"): r.i(pos(c.insert(at(a[0]), at(a[1]), at(a[2])))); return;
#ifdef REF
        case H("insert_vw"): { auto w = word(a[1]); c.insert(static_cast<std::size_t>(a[0]), std::string_view(w)); r.i(a[0]); return; }
        case H("insert_cs"): { auto w = word(a[1]); c.insert(static_cast<std::size_t>(a[0]), w.c_str()); r.i(a[0]); return; }
        case H("insert_fs"): { auto f = other(word(a[1])); c.insert(static_cast<std::size_t>(a[0]), std::string_view(f)); r.i(a[0]); return; }
        case H("insert_own"): c.insert(static_cast<std::size_t>(a[0]), std::string_view(cc).substr(a[1], a[2] - a[1])); r.i(a[0]); return;
#else
        case H("insert_vw"): { auto w = word(a[1]); r.i(pos(c.insert(at(a[0]), std::string_view(w)))); return; }
        case H("insert_cs"): { auto w = word(a[1]); r.i(pos(c.insert(at(a[0]), w.c_str()))); return; }
        case H("insert_fs"): { auto f = other(word(a[1])); r.i(pos(c.insert(at(a[0]), f))); return; }
        case H("insert_own"): r.i(pos(c.insert(at(a[0]), std::string_view(cc).substr(a[1], a[2] - a[1])))); return;
        case H("erase_past"): r.i(pos(c.erase(at(a[0]), cc.end() + 1))); return;
        case H("make"):
        {
            auto w = word(a[0]);
            auto go = [&](const auto& arr) { auto m = fc::make_fixed_string<SeqChk>(arr); auto m2 = fc::make_fixed_string(arr);
                if (!(m == std::string_view(m2)) || m.data()[m.size()] != '\0') fail(K::corrupt);
                r.i(static_cast<long long>(m.max_size())); r.open(); chars(r, m); r.close(); };
            switch (w.size())
            {
            case 0: { const char x[1] = {0}; go(x); return; }
            case 1: { const char x[2] = {w[0], 0}; go(x); return; }
            case 2: { const char x[3] = {w[0], w[1], 0}; go(x); return; }
            default: { const char x[4] = {w[0], w[1], w[2], 0}; go(x); return; }
            }
        }
#endif
        case H("erase"): r.i(pos(c.erase(at(a[0])))); return;
        case H("erase_range"): r.i(pos(c.erase(at(a[0]), at(a[1])))); return;
        case H("push_back"): c.push_back(ch(a[0])); return;
        case H("pop_back"): c.pop_back(); return;
        case H("append_vw"): { auto w = word(a[0]); same(c.append(std::string_view(w)), c); return; }
        case H("append_cs"): { auto w = word(a[0]); same(c.append(w.c_str()), c); return; }
        case H("append_il"): { auto w = word(a[0]); il(w, [&](std::initializer_list<char> l) { same(c.append(l), c); }); return; }
        case H("append_in"): { auto w = word(a[0]); same(c.append(InC{&w, &cur}, InC{}), c); return; }
        case H("append_ra"): { auto w = word(a[0]); same(c.append(w.data(), w.data() + w.size()), c); return; }
        case H("append_fs"): { auto f = other(word(a[0])); same(c.append(f), c); return; }
        case H("append_own_it"): same(c.append(at(a[0]), at(a[1])), c); return;
        case H("append_own"): same(c.append(std::string_view(cc).substr(a[0], a[1] - a[0])), c); return;
        case H("plus_ch"): same(c += ch(a[0]), c); return;
        case H("plus_vw"): { auto w = word(a[0]); same(c += std::string_view(w), c); return; }
        case H("plus_cs"): { auto w = word(a[0]); same(c += w.c_str(), c); return; }
        case H("plus_il"): { auto w = word(a[0]); il(w, [&](std::initializer_list<char> l) { same(c += l, c); }); return; }
        case H("plus_fs"): { auto f = other(word(a[0])); same(c += f, c); return; }
        case H("at"): r.i(scode(c.at(static_cast<std::size_t>(a[0])))); return;
        case H("cat"): r.i(scode(cc.at(static_cast<std::size_t>(a[0])))); return;
        case H("idx"): r.i(scode(c[static_cast<std::size_t>(a[0])])); return;
        case H("cidx"): r.i(scode(cc[static_cast<std::size_t>(a[0])])); return;
        case H("front"): r.i(scode(c.front())); return;
        case H("cfront"): r.i(scode(cc.front())); return;
        case H("back"): r.i(scode(c.back())); return;
        case H("cback"): r.i(scode(cc.back())); return;
        case H("set_idx"): c[static_cast<std::size_t>(a[0])] = ch(a[1]); return;
        case H("set_at"): c.at(static_cast<std::size_t>(a[0])) = ch(a[1]); return;
        case H("set_it"): *(c.begin() + a[0]) = ch(a[1]); return;
        case H("set_rit"): *(c.rbegin() + (static_cast<std::ptrdiff_t>(c.size()) - 1 - a[0])) = ch(a[1]); return;
        case H("set_data"): c.data()[a[0]] = ch(a[1]); return;
        case H("at_far"): r.i(scode(c.at(far_(a[0])))); return;
        case H("cat_far"): r.i(scode(cc.at(far_(a[0])))); return;
        case H("idx_far"): r.i(scode(c[far_(a[0])])); return;
        case H("cidx_far"): r.i(scode(cc[far_(a[0])])); return;
        case H("substr_far"): chars(r, std::string_view(cc.substr(far_(a[0]), 1))); return;
        case H("resize_far"): c.resize(far_(a[0]), 'a'); return;
        case H("assign_far"): c.assign(far_(a[0]), 'a'); return;
        case H("reserve_far"): c.reserve(far_(a[0])); return;
        case H("find"): case H("rfind"): case H("ffo"): case H("ffno"): case H("flo"): case H("flno"): search(cc, o, word(a[0]), r); return;
        case H("compare"):
        {
            const HStr w = word(a[0]);
            const std::string_view v = w;
            const char* z = w.c_str();
            const FS2 fs0 = other(w);
#ifdef REF
            const std::string_view fs = fs0;
#else
            const FS2& fs = fs0;
#endif
            r.i(sg(cc.compare(v))).i(cc == v).i(cc != v).i(so(cc <=> v)).i(cc == z).i(so(cc <=> z)).i(cc == fs).i(so(cc <=> fs)).i(v == cc).i(so(v <=> cc));
            r.i(cc.starts_with(v)).i(cc.ends_with(v)).i(cc.starts_with(z)).i(cc.ends_with(z));
            if (w.size() == 1) r.i(cc.starts_with(w[0])).i(cc.ends_with(w[0]));
            return;
        }
        case H("substr"): chars(r, std::string_view(cc.substr(static_cast<std::size_t>(a[0]), static_cast<std::size_t>(a[1])))); return;
        case H("substr_to_end"): chars(r, HStr(cc.substr(static_cast<std::size_t>(a[0])))); return;
        case H("in"): case H("in_w"): case H("in_ws"): case H("out"): stream(c, cc, o, r); return;
        case H("views"):
        {
            auto wk = [&](auto b, auto e) { r.open(); for (int g = 0; b != e && g < cap + 3; ++b, ++g) r.i(scode(*b)); r.close(); };
            wk(c.begin(), c.end()); wk(cc.begin(), cc.cend()); wk(c.rbegin(), c.rend()); wk(cc.rbegin(), cc.crend());
            r.open(); for (std::size_t i = 0; i < cc.size() && i < N + 3; i++) r.i(scode(cc[i])); r.close();
            r.open(); for (std::size_t i = 0; i < cc.size() && i < N + 3; i++) r.i(scode(c.data()[i])); r.close();
            r.open(); for (std::size_t i = 0; i < cc.length() && i < N + 3; i++) r.i(scode(cc.c_str()[i])); r.close();
            r.open(); chars(r, std::string_view(cc)); r.close();
#ifdef REF
            r.open().i(static_cast<long long>(cc.size())).i(static_cast<long long>(cc.length())).i(cc.empty()).i(cap).i(cap).i(static_cast<int>(cc.size()) == cap).i(static_cast<long long>(__builtin_strlen(cc.c_str()))).close();
#else
            r.open().i(static_cast<long long>(cc.size())).i(static_cast<long long>(cc.length())).i(cc.empty()).i(static_cast<long long>(cc.max_size())).i(static_cast<long long>(cc.capacity())).i(fc::is_full(cc)).i(static_cast<long long>(__builtin_strlen(cc.c_str()))).close();
            if (C::static_max_size() != cc.max_size()) fail(K::corrupt);
#endif
            r.open(); if (!cc.empty()) r.i(scode(cc.front())).i(scode(cc.back())); r.close();
            return;
        }
        case H("reserve"): c.reserve(static_cast<std::size_t>(a[0]));
#ifdef REF
            r.i(cap);
#else
            r.i(static_cast<long long>(c.capacity()));
#endif
            return;
        default: break;
        }
        std::fprintf(stderr, "unknown call %s\n", o.name.data()); _exit(3);
    }
};
}  // namespace h
