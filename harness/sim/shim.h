// Included before everything else (-include): replaces the synchronisation primitives of the standard
// library by ones that run under the scheduler of simsched.h, so that the real sources of the library can be
// run in every interleaving of their synchronisation operations.
#pragma once
#include <bits/stdc++.h>
#include <nlohmann/json.hpp>
#include "simsched.h"
#include "race.h"
namespace std
{
struct sim_mutex
{
    int owner = -2; bool held = false; sim::Clock vc;
    sim_mutex() noexcept = default;
    sim_mutex(const sim_mutex&) = delete;
    sim_mutex& operator=(const sim_mutex&) = delete;
    ~sim_mutex() { if (held) sim::Misuse("a locked mutex is destroyed"); }
    void lock() { sim::In in; sim::Point(sim::kLock); while (held) sim::Block(this); take(); }
    bool try_lock() { sim::In in; sim::Point(sim::kLock); if (held) return false; take(); return true; }
    void unlock() { sim::In in; sim::Point(sim::kUnlock); free(); }
    void take() { held = true; owner = sim::Self(); sim::Acquire(vc); }
    void free()
    {
        if (!held || owner != sim::Self()) sim::Misuse("a mutex is unlocked by a thread that does not hold it");
        sim::Release(vc);
        held = false; owner = -2; sim::Wake(this, true);
    }
};
struct sim_recursive_mutex
{
    int owner = -2, depth = 0; sim::Clock vc;
    sim_recursive_mutex() noexcept = default;
    sim_recursive_mutex(const sim_recursive_mutex&) = delete;
    sim_recursive_mutex& operator=(const sim_recursive_mutex&) = delete;
    ~sim_recursive_mutex() { if (depth) sim::Misuse("a locked mutex is destroyed"); }
    void lock() { sim::In in; sim::Point(sim::kLock); while (depth > 0 && owner != sim::Self()) sim::Block(this); take(); }
    bool try_lock() { sim::In in; sim::Point(sim::kLock); if (depth > 0 && owner != sim::Self()) return false; take(); return true; }
    void take() { owner = sim::Self(); ++depth; sim::Acquire(vc); }
    void unlock()
    {
        sim::In in;
        sim::Point(sim::kUnlock);
        if (depth == 0 || owner != sim::Self()) sim::Misuse("a mutex is unlocked by a thread that does not hold it");
        sim::Release(vc);
        if (--depth == 0) { owner = -2; sim::Wake(this, true); }
    }
};
struct sim_shared_mutex
{
    int owner = -2; bool held = false; std::map<int, int> readers; sim::Clock wvc, rvc;
    sim_shared_mutex() noexcept = default;
    sim_shared_mutex(const sim_shared_mutex&) = delete;
    sim_shared_mutex& operator=(const sim_shared_mutex&) = delete;
    void lock() { sim::In in; sim::Point(sim::kLock); while (held || !readers.empty()) sim::Block(this); take(); }
    bool try_lock() { sim::In in; sim::Point(sim::kLock); if (held || !readers.empty()) return false; take(); return true; }
    void take() { held = true; owner = sim::Self(); sim::Acquire(wvc); sim::Acquire(rvc); }
    void unlock()
    {
        sim::In in;
        sim::Point(sim::kUnlock);
        if (!held || owner != sim::Self()) sim::Misuse("a mutex is unlocked by a thread that does not hold it");
        sim::Release(wvc);
        held = false; owner = -2; sim::Wake(this, true);
    }
    void lock_shared() { sim::In in; sim::Point(sim::kLock); while (held) sim::Block(this); ++readers[sim::Self()]; sim::Acquire(wvc); }
    bool try_lock_shared() { sim::In in; sim::Point(sim::kLock); if (held) return false; ++readers[sim::Self()]; sim::Acquire(wvc); return true; }
    void unlock_shared()
    {
        sim::In in;
        sim::Point(sim::kUnlock);
        auto it = readers.find(sim::Self());
        if (it == readers.end()) { sim::Misuse("a mutex is unlocked by a thread that does not hold it"); return; }
        sim::Release(rvc);
        if (--it->second == 0) readers.erase(it);
        sim::Wake(this, true);
    }
};
struct sim_condition_variable
{
    sim_condition_variable() noexcept = default;
    sim_condition_variable(const sim_condition_variable&) = delete;
    sim_condition_variable& operator=(const sim_condition_variable&) = delete;
    template <class L> void wait(L& lk)
    {
        sim::In in;
        // the lock is released and the wait begins in one step
        sim::Point(sim::kWait);
        const bool off = sim::PointsOff(); sim::NoPoints(true); lk.unlock(); sim::NoPoints(off);
        sim::BlockCv(this);
        lk.lock();
    }
    template <class L, class P> void wait(L& lk, P p) { while (!p()) wait(lk); }
    template <class L, class D> std::cv_status wait_for(L& lk, const D&) { lk.unlock(); sim::Point(sim::kUser); lk.lock(); return std::cv_status::timeout; }
    template <class L, class D, class P> bool wait_for(L& lk, const D& d, P p) { if (!p()) wait_for(lk, d); return p(); }
    template <class L, class D> std::cv_status wait_until(L& lk, const D& d) { return wait_for(lk, d); }
    template <class L, class D, class P> bool wait_until(L& lk, const D& d, P p) { return wait_for(lk, d, p); }
    void notify_all() noexcept { sim::In in; sim::Point(sim::kNotify); sim::Wake(this, true); }
    void notify_one() noexcept { sim::In in; sim::Point(sim::kNotify); sim::Wake(this, false); }
};
template <class T> struct sim_atomic
{
    T v; mutable sim::Clock vc;
    sim_atomic() noexcept : v() {}
    constexpr sim_atomic(T x) noexcept : v(x) {}
    sim_atomic(const sim_atomic&) = delete;
    sim_atomic& operator=(const sim_atomic&) = delete;
    using MO = std::memory_order;
    static const MO SC = std::memory_order_seq_cst;
    // what happened before follows the order that is asked for; the values themselves are sequentially consistent
    static bool Acq(MO o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
    static bool Rel(MO o) { return o != std::memory_order_relaxed && o != std::memory_order_acquire && o != std::memory_order_consume; }
    void R(MO o) const { sim::Point(sim::kAtomic); if (Acq(o)) sim::Acquire(vc); }
    void S(MO o) { sim::Point(sim::kAtomic); vc = sim::Clock(); if (Rel(o)) sim::Release(vc); }
    void W(MO o) { sim::Point(sim::kAtomic); if (Acq(o)) sim::Acquire(vc); if (Rel(o)) sim::Release(vc); }
    static MO Fails(MO o) { return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }
    T load(MO o = SC) const noexcept { sim::In in; R(o); return v; }
    void store(T x, MO o = SC) noexcept { sim::In in; S(o); v = x; }
    T exchange(T x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = x; return r; }
    bool compare_exchange_strong(T& e, T x, MO a, MO b) noexcept
    {
        sim::In in;
        sim::Point(sim::kAtomic);
        if (!(v == e)) { if (Acq(b)) sim::Acquire(vc); e = v; return false; }
        if (Acq(a)) sim::Acquire(vc);
        if (Rel(a)) sim::Release(vc);
        v = x;
        return true;
    }
    bool compare_exchange_strong(T& e, T x, MO a = SC) noexcept { return compare_exchange_strong(e, x, a, Fails(a)); }
    bool compare_exchange_weak(T& e, T x, MO a, MO b) noexcept { return compare_exchange_strong(e, x, a, b); }
    bool compare_exchange_weak(T& e, T x, MO a = SC) noexcept { return compare_exchange_strong(e, x, a, Fails(a)); }
    template <class D> T fetch_add(D x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = static_cast<T>(v + x); return r; }
    template <class D> T fetch_sub(D x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = static_cast<T>(v - x); return r; }
    T fetch_or(T x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = static_cast<T>(v | x); return r; }
    T fetch_and(T x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = static_cast<T>(v & x); return r; }
    T fetch_xor(T x, MO o = SC) noexcept { sim::In in; W(o); T r = v; v = static_cast<T>(v ^ x); return r; }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template <class D> T operator+=(D x) noexcept { return static_cast<T>(fetch_add(x) + x); }
    template <class D> T operator-=(D x) noexcept { return static_cast<T>(fetch_sub(x) - x); }
    bool is_lock_free() const noexcept { return true; }
};
struct sim_atomic_flag
{
    using A = sim_atomic<bool>;
    A a;
    bool test_and_set(A::MO o = A::SC) noexcept { return a.exchange(true, o); }
    void clear(A::MO o = A::SC) noexcept { a.store(false, o); }
    bool test(A::MO o = A::SC) const noexcept { return a.load(o); }
};
// a fence orders with every other fence
inline sim::Clock& sim_fences() { static sim::Clock vc; return vc; }
inline void sim_atomic_thread_fence(std::memory_order) noexcept { sim::In in; sim::Point(sim::kAtomic); sim::Acquire(sim_fences()); sim::Release(sim_fences()); }
using sim_atomic_int = sim_atomic<int>;
using sim_atomic_uint = sim_atomic<unsigned>;
using sim_atomic_bool = sim_atomic<bool>;
using sim_atomic_size_t = sim_atomic<std::size_t>;
using sim_atomic_long = sim_atomic<long>;
namespace sim_this_thread
{
inline void yield() noexcept { sim::Point(sim::kAtomic); }
template <class D> void sleep_for(const D&) { sim::Point(sim::kAtomic); }
template <class D> void sleep_until(const D&) { sim::Point(sim::kAtomic); }
inline std::thread::id get_id() noexcept { return std::this_thread::get_id(); }
}
}
#define mutex sim_mutex
#define timed_mutex sim_mutex
#define recursive_mutex sim_recursive_mutex
#define shared_mutex sim_shared_mutex
#define shared_timed_mutex sim_shared_mutex
#define condition_variable sim_condition_variable
#define condition_variable_any sim_condition_variable
#define atomic sim_atomic
#define atomic_flag sim_atomic_flag
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#define atomic_int sim_atomic_int
#define atomic_uint sim_atomic_uint
#define atomic_bool sim_atomic_bool
#define atomic_size_t sim_atomic_size_t
#define atomic_long sim_atomic_long
#define atomic_thread_fence sim_atomic_thread_fence
#define this_thread sim_this_thread
