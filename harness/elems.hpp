// Element types used to instantiate the containers.
#pragma once
#include "core.hpp"
#include <array>
#include <compare>
namespace h
{
// destroy c and construct it anew, in place, as make() does (clang cannot do that while evaluating constants)
template <class C, class F>
constexpr void renew(C& c, F make)
{
    if (std::is_constant_evaluated()) { C t = make(); c = std::move(t); }
    else { C* const p = &c; std::destroy_at(p); ::new (static_cast<void*>(p)) C(make()); }
}
// trivially copyable, default constructible: stored transparently
using TI = int;
// trivially copyable but not default constructible: stored through OptionalStorage
struct TN
{
    short v;
    constexpr explicit TN(int x) : v(static_cast<short>(x)) {}
    constexpr bool operator==(const TN&) const = default;
    constexpr auto operator<=>(const TN&) const = default;
};
// non-trivial, copyable; moved-from and destroyed objects hold visible poison
struct OB
{
    int v;
    const OB* self;
    constexpr OB() : v(0), self(this) {}
    constexpr explicit OB(int x) : v(x), self(this) {}
    constexpr OB(const OB& o) : v(o.read()), self(this) {}
    constexpr OB(OB&& o) noexcept : v(o.read()), self(this) { o.v = -1; }
    constexpr OB& operator=(const OB& o) { if (self != this) v = -8; else v = o.read(); return *this; }
    constexpr OB& operator=(OB&& o) noexcept { if (self != this) { v = -8; return *this; } if (this != &o) { v = o.read(); o.v = -1; } return *this; }
    constexpr ~OB() { v = -7; self = nullptr; }
    constexpr int read() const { return self == this ? v : -9; }
    constexpr bool operator==(const OB& o) const { return read() == o.read(); }
    constexpr auto operator<=>(const OB& o) const { return read() <=> o.read(); }
};
// non-trivial, move only
struct MO
{
    int v;
    const MO* self;
    constexpr MO() : v(0), self(this) {}
    constexpr explicit MO(int x) : v(x), self(this) {}
    MO(const MO&) = delete;
    MO& operator=(const MO&) = delete;
    constexpr MO(MO&& o) noexcept : v(o.read()), self(this) { o.v = -1; }
    constexpr MO& operator=(MO&& o) noexcept { if (self != this) { v = -8; return *this; } if (this != &o) { v = o.read(); o.v = -1; } return *this; }
    constexpr ~MO() { v = -7; self = nullptr; }
    constexpr int read() const { return self == this ? v : -9; }
    constexpr bool operator==(const MO& o) const { return read() == o.read(); }
    constexpr auto operator<=>(const MO& o) const { return read() <=> o.read(); }
};
// copyable without a move constructor (moving copies), over-aligned
struct alignas(32) CO
{
    int v;
    const CO* self;
    constexpr CO() : v(0), self(this) {}
    constexpr explicit CO(int x) : v(x), self(this) {}
    constexpr CO(const CO& o) : v(o.read()), self(this) {}
    constexpr CO& operator=(const CO& o) { if (self != this) v = -8; else v = o.read(); return *this; }
    constexpr ~CO() { v = -7; self = nullptr; }
    constexpr int read() const { return self == this ? v : -9; }
    constexpr bool operator==(const CO& o) const { return read() == o.read(); }
    constexpr auto operator<=>(const CO& o) const { return read() <=> o.read(); }
};
// trivially copyable, of any size and alignment; every byte takes part in the value
template <std::size_t SZ, std::size_t AL>
struct alignas(AL) Blob
{
    unsigned char b[SZ];
    constexpr Blob() : Blob(0) {}
    constexpr explicit Blob(int x) : b{} { for (std::size_t i = 0; i < SZ; i++) b[i] = static_cast<unsigned char>(x + 7 * static_cast<int>(i)); }
    constexpr int read() const
    {
        for (std::size_t i = 1; i < SZ; i++) if (b[i] != static_cast<unsigned char>(b[0] + 7 * static_cast<int>(i))) return -6;
        return b[0];
    }
    constexpr bool operator==(const Blob& o) const { return read() == o.read(); }
    constexpr auto operator<=>(const Blob& o) const { return read() <=> o.read(); }
};
// ---- element types whose special members are logged (lifetime checks)
struct Life
{
    static constexpr int EXT = 1000000;
    bool on = false;
    const char* base = nullptr;
    std::size_t size = 0;
    std::vector<std::array<int, 4>> ev;      // code, x, y, argument count
    std::unordered_map<const void*, int> ext;
    std::set<const void*> live;
    std::set<const void*> read;
    Vec before;
    bool inside(const void* p) const { return static_cast<const char*>(p) >= base && static_cast<const char*>(p) < base + size; }
    int loc(const void* p)
    {
        if (inside(p)) return static_cast<int>(static_cast<const char*>(p) - base);
        return ext.try_emplace(p, EXT + static_cast<int>(ext.size())).first->second;
    }
    void event(int code, const void* x, const void* y = nullptr)
    {
        if (code <= 2) live.insert(x);
        if (code == 5) live.erase(x);
        if (!on) return;
        if (code == 6) { if (!read.insert(x).second) return; }
        else read.clear();
        if (ev.size() < 5000) ev.push_back({code, loc(x), y ? loc(y) : 0, y ? 2 : 1});
    }
    void begin(const void* b, std::size_t n)
    {
        base = static_cast<const char*>(b); size = n;
        ev.clear(); ext.clear(); read.clear(); before.clear();
        for (auto it = live.begin(); it != live.end();)
            if (inside(*it)) { before.push_back(loc(*it)); ++it; } else it = live.erase(it);
        on = true;
    }
    void end() { on = false; }
    void purge(const void* b, std::size_t n)
    {
        base = static_cast<const char*>(b); size = n;
        for (auto it = live.begin(); it != live.end();) if (inside(*it)) it = live.erase(it); else ++it;
    }
    std::string json(const char* t, int cap, const std::string& op, K k, int w, std::size_t z) const
    {
        std::string r = std::string("{\"t\":\"") + t + "\",\"c\":" + std::to_string(cap) + ",\"o\":" + op + ",\"k\":\"" + kname(k) + "\",\"w\":" + std::to_string(w) +
                        ",\"z\":" + std::to_string(z) + ",\"b\":" + js(before) + ",\"e\":[";
        bool first = true;
        for (auto& e : ev)
        {
            if (!first) r += ',';
            first = false;
            r += '[' + std::to_string(e[0]) + ',' + std::to_string(e[1]);
            if (e[3] == 2) r += ',' + std::to_string(e[2]);
            r += ']';
        }
        return r + "]}";
    }
};
inline Life g_life;
struct LG   // copyable and movable
{
    int v;
    LG() : v(0) { g_life.event(0, this); }
    explicit LG(int x) : v(x) { g_life.event(0, this); }
    LG(const LG& o) : v(o.v) { g_life.event(1, this, &o); }
    LG(LG&& o) noexcept : v(o.v) { g_life.event(2, this, &o); o.v = -1; }
    LG& operator=(const LG& o) { g_life.event(3, this, &o); v = o.v; return *this; }
    LG& operator=(LG&& o) noexcept { g_life.event(4, this, &o); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~LG() { g_life.event(5, this); v = -7; }
    int read() const { g_life.event(6, this); return v; }
    bool operator==(const LG& o) const { return read() == o.read(); }
    auto operator<=>(const LG& o) const { return read() <=> o.read(); }
};
struct LM   // move only
{
    int v;
    LM() : v(0) { g_life.event(0, this); }
    explicit LM(int x) : v(x) { g_life.event(0, this); }
    LM(LM&& o) noexcept : v(o.v) { g_life.event(2, this, &o); o.v = -1; }
    LM& operator=(LM&& o) noexcept { g_life.event(4, this, &o); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~LM() { g_life.event(5, this); v = -7; }
    int read() const { g_life.event(6, this); return v; }
    bool operator==(const LM& o) const { return read() == o.read(); }
    auto operator<=>(const LM& o) const { return read() <=> o.read(); }
};
struct LC   // copy only, no default constructor
{
    int v;
    explicit LC(int x) : v(x) { g_life.event(0, this); }
    LC(const LC& o) : v(o.v) { g_life.event(1, this, &o); }
    LC& operator=(const LC& o) { g_life.event(3, this, &o); v = o.v; return *this; }
    ~LC() { g_life.event(5, this); v = -7; }
    int read() const { g_life.event(6, this); return v; }
    bool operator==(const LC& o) const { return read() == o.read(); }
    auto operator<=>(const LC& o) const { return read() <=> o.read(); }
};
template <class T> inline constexpr int logged_v = std::is_same_v<T, LG> || std::is_same_v<T, LM> || std::is_same_v<T, LC>;
template <class T> struct ET;
template <std::size_t SZ, std::size_t AL> struct ET<Blob<SZ, AL>>
{
    static constexpr bool copyable = true, dflt = true;
    static constexpr char text[] = {'b', 'l', 'o', 'b', '0' + SZ / 10, '0' + SZ % 10, '_', '0' + AL / 10, '0' + AL % 10, 0};
    static constexpr const char* name = text;
};
template <> struct ET<LG> { static constexpr const char* name = "logged"; static constexpr bool copyable = true, dflt = true; };
template <> struct ET<LM> { static constexpr const char* name = "logged_moveonly"; static constexpr bool copyable = false, dflt = true; };
template <> struct ET<LC> { static constexpr const char* name = "logged_copyonly"; static constexpr bool copyable = true, dflt = false; };
template <> struct ET<TI> { static constexpr const char* name = "int"; static constexpr bool copyable = true, dflt = true; };
template <> struct ET<TN> { static constexpr const char* name = "trivial_nodefault"; static constexpr bool copyable = true, dflt = false; };
template <> struct ET<OB> { static constexpr const char* name = "nontrivial"; static constexpr bool copyable = true, dflt = true; };
template <> struct ET<MO> { static constexpr const char* name = "moveonly"; static constexpr bool copyable = false, dflt = true; };
template <> struct ET<CO> { static constexpr const char* name = "copyonly_aligned"; static constexpr bool copyable = true, dflt = true; };

template <class T> constexpr T mk(int v) { if constexpr (std::is_same_v<T, int>) return v; else return T(v); }
template <class T> constexpr int val(const T& t)
{
    if constexpr (std::is_same_v<T, int>) return t;
    else if constexpr (std::is_same_v<T, TN>) return t.v;
    else return t.read();
}

// ---- iterator categories over a run of values
template <class T>
struct Run
{
    HV<T> data;
    constexpr Run(int v, int len, int NV) { data.reserve(len + 1); for (int j = 0; j < len; j++) data.push_back(mk<T>((v + j) % NV)); }
};
// genuinely single pass: all copies share one cursor
template <class T>
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    T* base = nullptr;
    int* cur = nullptr;   // null: end sentinel
    int last = 0;
    constexpr InIt() = default;
    constexpr InIt(T* b, int* c, int l) : base(b), cur(c), last(l) {}
    constexpr bool done() const { return cur == nullptr || *cur >= last; }
    constexpr T operator*() const
    {
        if (done()) fail(K::crash);
        if constexpr (ET<T>::copyable) return T(base[*cur]); else return T(std::move(base[*cur]));
    }
    constexpr InIt& operator++() { ++*cur; return *this; }
    constexpr void operator++(int) { ++*cur; }
    friend constexpr bool operator==(const InIt& a, const InIt& b) { return a.done() == b.done(); }
};
template <class T>
struct FwIt
{
    using iterator_category = std::forward_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    constexpr reference operator*() const { return *p; }
    constexpr pointer operator->() const { return p; }
    constexpr FwIt& operator++() { ++p; return *this; }
    constexpr FwIt operator++(int) { FwIt r = *this; ++p; return r; }
    friend constexpr bool operator==(const FwIt& a, const FwIt& b) { return a.p == b.p; }
};
}  // namespace h
