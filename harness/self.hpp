// Self-containedness (C18): allocations are counted, and the raw views read the bytes of the containers.
// Programs that include this define SELF and are linked with -Wl,--wrap=malloc,...
#pragma once
#include "core.hpp"
#ifdef SELF_SEQ
#include "seq.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#endif
#ifdef SELF_ASSOC
#include "assoc.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"
#endif

extern "C"
{
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
int __real_posix_memalign(void**, std::size_t, std::size_t);
void* __wrap_malloc(std::size_t n) { h::g_allocs++; return __real_malloc(n); }
void* __wrap_calloc(std::size_t a, std::size_t b) { h::g_allocs++; return __real_calloc(a, b); }
void* __wrap_realloc(void* p, std::size_t n) { h::g_allocs++; return __real_realloc(p, n); }
void* __wrap_aligned_alloc(std::size_t a, std::size_t n) { h::g_allocs++; return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n) { h::g_allocs++; return __real_posix_memalign(p, a, n); }
}
void* operator new(std::size_t n) { h::g_allocs++; if (void* p = __real_malloc(n ? n : 1)) return p; std::abort(); }
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return ::operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return ::operator new(n); }
void* operator new(std::size_t n, std::align_val_t a)
{
    h::g_allocs++;
    const std::size_t al = static_cast<std::size_t>(a) < sizeof(void*) ? sizeof(void*) : static_cast<std::size_t>(a);
    void* p = nullptr;
    if (__real_posix_memalign(&p, al, n ? n : 1) != 0) std::abort();
    return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return ::operator new(n, a); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

namespace h
{
template <class T> int as(const std::byte* p, const void* element)
{
    if (p != element) return -44;       // not where the container keeps that element
    if (reinterpret_cast<std::uintptr_t>(p) % alignof(T) != 0) return -55;
    return val(*reinterpret_cast<const T*>(p));
}
template <class T> const void* addr(const T& t) { return &t; }
// what the container's raw view enumerates; false: there is no raw view for it
template <class A, class C>
bool raw_read(const C& c, Vec& out)
{
    out.clear();
    (void)c;
#ifdef SELF_SEQ
    if constexpr (A::kind == Kind::deque || A::kind == Kind::cdeque || A::kind == Kind::list)
    {
        using T = typename C::value_type;
        auto go = [&](const auto& v)
        {
            int g = 0;
            auto e = c.begin();
            auto it = v.begin();
            for (; it != v.end() && e != c.end() && g < A::cap + 3; ++it, ++e, ++g) out.push_back(as<T>(*it, &*e));
            if (e == c.end() && it != v.end()) out.push_back(-33);
            if (static_cast<std::size_t>(v.size()) != out.size()) out.push_back(-66);
        };
        if constexpr (A::kind == Kind::list) go(fc::fixed_doubly_linked_list_detail::FixedDoublyLinkedListRawView<std::size_t>(&c, sizeof(T), alignof(T), A::cap));
        else go(fc::FixedDequeRawView<>(&c, sizeof(T), alignof(T), A::cap));
        return true;
    }
    else
        return false;
#elif defined(SELF_ASSOC)
    if constexpr (A::ENUM) return false;
    else
    {
        using Kt = typename A::Kt;
        auto sized = [&](const auto& v) { if (static_cast<std::size_t>(v.size()) != out.size()) out.push_back(-66); };
        auto entries = [&](const auto& v)
        {
            using V = std::conditional_t<A::MAP, typename A::V, int>;
            int g = 0;
            auto x = c.begin();
            auto it0 = v.begin();
            for (; it0 != v.end() && x != c.end() && g < A::cap + 3; ++it0, ++x, ++g)
            {
                auto e = *it0;
                if constexpr (A::MAP) out.push_back(code(true, as<Kt>(e.key(), &x->first), as<V>(e.value(), &x->second)));
            }
            if (x == c.end() && it0 != v.end()) out.push_back(-33);
            sized(v);
        };
        auto keys = [&](const auto& v)
        {
            int g = 0;
            auto x = c.begin();
            auto it = v.begin();
            for (; it != v.end() && x != c.end() && g < A::cap + 3; ++it, ++x, ++g) out.push_back(code(false, as<Kt>(*it, addr(*x)), 0));
            if (x == c.end() && it != v.end()) out.push_back(-33);
            sized(v);
        };
        if constexpr (A::HASHED)
        {
            if constexpr (A::MAP) entries(fc::FixedUnorderedMapRawView(&c, sizeof(Kt), alignof(Kt), sizeof(typename A::V), alignof(typename A::V), A::cap));
            else keys(fc::FixedUnorderedSetRawView(&c, sizeof(Kt), alignof(Kt), A::cap));
        }
        else
        {
            using CFG = typename A::Cfg_;
            constexpr auto st = CFG::pool ? fc::fixed_red_black_tree_detail::RedBlackTreeStorageType::FIXED_INDEX_POOL
                                          : fc::fixed_red_black_tree_detail::RedBlackTreeStorageType::FIXED_INDEX_CONTIGUOUS;
            if constexpr (A::MAP)
            {
                if constexpr (alignof(Kt) > 8 || alignof(typename A::V) > 8) return false;   // documented limit of the view
                else entries(fc::FixedMapRawView(&c, sizeof(Kt), alignof(Kt), sizeof(typename A::V), alignof(typename A::V), A::cap, CFG::compactness, st));
            }
            else
            {
                if constexpr (alignof(Kt) > 8) return false;
                else keys(fc::FixedRedBlackTreeRawView(&c, sizeof(Kt), A::cap, CFG::compactness, st));
            }
        }
        return true;
    }
#else
    return false;
#endif
}
}  // namespace h
