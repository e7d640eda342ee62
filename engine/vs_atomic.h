// compiled into the code under test when it uses std::atomic: every operation on an atomic is a scheduling point, in the
// encoding and in the replay (the reference counts of shared_ptr are not)
#pragma once
#include <bits/stdc++.h>
extern "C" void vs_atomic_point();
namespace std {
template <class T> struct vs_atomic {
    using value_type = T; atomic<T> v; static constexpr bool is_always_lock_free = true; bool is_lock_free() const noexcept { return true; }
    vs_atomic() noexcept = default; constexpr vs_atomic(T x) noexcept : v(x) {} vs_atomic(const vs_atomic&) = delete; vs_atomic& operator=(const vs_atomic&) = delete;
    template <class... M> T load(M...) const noexcept { vs_atomic_point(); return v.load(); } template <class... M> void store(T x, M...) noexcept { vs_atomic_point(); v.store(x); }
    operator T() const noexcept { return load(); } T operator=(T x) noexcept { store(x); return x; } template <class... M> T exchange(T x, M...) noexcept { vs_atomic_point(); return v.exchange(x); }
    template <class... M> bool compare_exchange_strong(T& e, T d, M...) noexcept { vs_atomic_point(); return v.compare_exchange_strong(e, d); } template <class... M> bool compare_exchange_weak(T& e, T d, M...) noexcept { vs_atomic_point(); return v.compare_exchange_strong(e, d); }
    template <class D, class... M> T fetch_add(D d, M...) noexcept { vs_atomic_point(); return v.fetch_add(d); } template <class D, class... M> T fetch_sub(D d, M...) noexcept { vs_atomic_point(); return v.fetch_sub(d); }
    template <class D, class... M> T fetch_or(D d, M...) noexcept { vs_atomic_point(); return v.fetch_or(d); } template <class D, class... M> T fetch_and(D d, M...) noexcept { vs_atomic_point(); return v.fetch_and(d); } template <class D, class... M> T fetch_xor(D d, M...) noexcept { vs_atomic_point(); return v.fetch_xor(d); }
    T operator++() noexcept { return fetch_add(1) + 1; } T operator++(int) noexcept { return fetch_add(1); } T operator--() noexcept { return fetch_sub(1) - 1; } T operator--(int) noexcept { return fetch_sub(1); }
    template <class D> T operator+=(D d) noexcept { return fetch_add(d) + d; } template <class D> T operator-=(D d) noexcept { return fetch_sub(d) - d; } template <class D> T operator|=(D d) noexcept { return fetch_or(d) | d; } template <class D> T operator&=(D d) noexcept { return fetch_and(d) & d; } template <class D> T operator^=(D d) noexcept { return fetch_xor(d) ^ d; }
};
}
#define atomic vs_atomic
#define atomic_bool vs_atomic<bool>
#define atomic_int vs_atomic<int>
#define atomic_uint vs_atomic<unsigned>
#define atomic_long vs_atomic<long>
#define atomic_size_t vs_atomic<unsigned long>
