#include "race.h"
#include "simsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
extern "C" char __executable_start;
namespace sim
{
static thread_local int Depth = 0;
static bool Active = false;
static uint32_t Epoch = 1;
static int N = 0;
static Clock Vc[kMaxRace];
struct Cell
{
    uintptr_t key; uint32_t run; bool freed;
    uint32_t w[kMaxRace], r[kMaxRace];
    uint8_t wm[kMaxRace], rm[kMaxRace];
    void* pc[kMaxRace];
};
static const size_t kCells = 1u << 18;
static Cell* Cells = nullptr;
static size_t Used = 0;
static std::vector<std::pair<void*, size_t>>* Quarantine = nullptr;

static thread_local bool Muted = false;
void Mute(bool on) { Muted = on; NoPoints(on); }
bool IsMuted() { return Muted; }
In::In() { ++Depth; }
In::~In() { --Depth; }
static inline int Who() { return Active && Depth == 0 && !Muted ? Self() : -1; }
static Cell* Find(uintptr_t g)
{
    size_t i = (g * 0x9E3779B97F4A7C15ull) >> 46;
    while (true)
    {
        Cell& c = Cells[i];
        if (c.run != Epoch)
        {
            if (++Used > kCells * 3 / 4) { --Used; return nullptr; }
            std::memset(&c, 0, sizeof c);
            c.key = g; c.run = Epoch;
            return &c;
        }
        if (c.key == g) return &c;
        i = (i + 1) & (kCells - 1);
    }
}
static void Report(const char* what, void* a, void* b)
{
    ++Depth;
    char s[128];
    // offsets that addr2line understands
    std::snprintf(s, sizeof s, "%s@%lx,%lx", what, static_cast<unsigned long>(reinterpret_cast<char*>(a) - &__executable_start),
                  b ? static_cast<unsigned long>(reinterpret_cast<char*>(b) - &__executable_start) : 0ul);
    Misuse(s);
}
static void One(int t, uintptr_t g, uint8_t m, bool write, void* pc, bool freeing)
{
    Cell* c = Find(g);
    if (!c) return;
    if (c->freed) { Report("use after free", pc, c->pc[0]); return; }
    for (int u = 0; u < N; ++u)
    {
        if (u == t) continue;
        if ((c->wm[u] & m) && c->w[u] > Vc[t].c[u]) Report("race", pc, c->pc[u]);
        if (write && (c->rm[u] & m) && c->r[u] > Vc[t].c[u]) Report("race", pc, c->pc[u]);
    }
    const uint32_t now = Vc[t].c[t];
    if (write) { if (c->w[t] == now) c->wm[t] |= m; else { c->w[t] = now; c->wm[t] = m; } c->pc[t] = pc; }
    else { if (c->r[t] == now) c->rm[t] |= m; else { c->r[t] = now; c->rm[t] = m; } if (!(c->wm[t] & m)) c->pc[t] = pc; }
    if (freeing) { c->freed = true; c->pc[0] = pc; }
}
static void Range(uintptr_t a, size_t n, bool write, void* pc, bool freeing = false)
{
    const int t = Who();
    if (t < 0 || t >= N) return;
    while (n > 0)
    {
        const unsigned off = a & 7;
        const size_t k = n < 8 - off ? n : 8 - off;
        One(t, a >> 3, static_cast<uint8_t>(((1u << k) - 1) << off), write, pc, freeing);
        a += k; n -= k;
    }
}
static void Forget(uintptr_t a, size_t n)
{
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
        if (Cell* c = Find(g)) { const uintptr_t k = c->key; std::memset(c, 0, sizeof *c); c->key = k; c->run = Epoch; }
}
void Acquire(const Clock& k)
{
    const int t = Active && !Muted ? Self() : -1;
    if (t < 0 || t >= N || k.run != Epoch) return;
    for (int u = 0; u < N; ++u) if (k.c[u] > Vc[t].c[u]) Vc[t].c[u] = k.c[u];
}
void Release(Clock& k)
{
    const int t = Active && !Muted ? Self() : -1;
    if (t < 0 || t >= N) return;
    if (k.run != Epoch) { k = Clock(); k.run = Epoch; }
    for (int u = 0; u < N; ++u) if (Vc[t].c[u] > k.c[u]) k.c[u] = Vc[t].c[u];
    ++Vc[t].c[t];
}
void RaceBegin(int threads)
{
    if (!Cells)
    {
        Cells = static_cast<Cell*>(std::calloc(kCells, sizeof(Cell)));
        void* p = std::malloc(sizeof *Quarantine);
        Quarantine = new (p) std::vector<std::pair<void*, size_t>>();
    }
    N = threads < kMaxRace ? threads : kMaxRace;
    ++Epoch;
    Used = 0;
    for (int t = 0; t < kMaxRace; ++t) { Vc[t] = Clock(); Vc[t].c[t] = 1; }
    Active = true;
}
void RaceEnd()
{
    Active = false;
    for (auto& b : *Quarantine)
    {
        // nobody may have written into freed memory
        const unsigned char* p = static_cast<const unsigned char*>(b.first);
        for (size_t i = 0; i < b.second; ++i) if (p[i] != 0xDD) { Misuse("write after free"); break; }
        std::free(b.first);
    }
    Quarantine->clear();
}
static void* New(size_t n, size_t al)
{
    void* p = al > 16 ? memalign(al, n ? n : 1) : std::malloc(n ? n : 1);
    if (!p) { std::fprintf(stderr, "sim: out of memory\n"); _exit(3); }
    if (Active && Self() >= 0) Forget(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    return p;
}
static void Delete(void* p, void* pc)
{
    if (!p) return;
    if (!Active || Self() < 0) { std::free(p); return; }
    const size_t n = malloc_usable_size(p);
    if (Who() >= 0)
    {
        Cell* c = Find(reinterpret_cast<uintptr_t>(p) >> 3);
        if (c && c->freed) { Report("double free", pc, c->pc[0]); return; }
        Range(reinterpret_cast<uintptr_t>(p), n, true, pc, true);
        std::memset(p, 0xDD, n);
        ++Depth;
        Quarantine->emplace_back(p, n);
        --Depth;
    }
    else std::free(p);
}
}
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return sim::New(n, 0); }
void* operator new[](size_t n) { return sim::New(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::New(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::New(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return sim::New(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return sim::New(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { sim::Delete(p, PC); }
void operator delete[](void* p) noexcept { sim::Delete(p, PC); }
void operator delete(void* p, size_t) noexcept { sim::Delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim::Delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { sim::Delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::Delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::Delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::Delete(p, PC); }

extern "C"
{
#define ACC(N) \
    void __tsan_read##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, false, PC); } \
    void __tsan_write##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, true, PC); } \
    void __tsan_unaligned_read##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, false, PC); } \
    void __tsan_unaligned_write##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, true, PC); } \
    void __tsan_volatile_read##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, false, PC); } \
    void __tsan_volatile_write##N(void* a) { sim::Range(reinterpret_cast<uintptr_t>(a), N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* a, size_t n) { sim::Range(reinterpret_cast<uintptr_t>(a), n, false, PC); }
void __tsan_write_range(void* a, size_t n) { sim::Range(reinterpret_cast<uintptr_t>(a), n, true, PC); }
void __tsan_vptr_update(void** a, void*) { sim::Range(reinterpret_cast<uintptr_t>(a), 8, true, PC); }
void __tsan_vptr_read(void** a) { sim::Range(reinterpret_cast<uintptr_t>(a), 8, false, PC); }
}
// Atomic operations that are not std::atomic of the library (reference counts of the standard library): one clock for all
static sim::Clock AtomicClock;
static inline void Sync() { sim::Acquire(AtomicClock); sim::Release(AtomicClock); }
extern "C"
{
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { Sync(); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { Sync(); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { Sync(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { Sync(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { Sync(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { Sync(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { Sync(); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { Sync(); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { Sync(); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { Sync(); return __atomic_compare_exchange_n(a, e, v, true, 5, 5); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { Sync(); }
void __tsan_atomic_signal_fence(int) {}
}
