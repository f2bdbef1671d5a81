// Schedule perturbation: the library's pthread calls go through these wrappers (-Wl,--wrap=...), which delay threads
// at synchronisation points and wake condition variables spuriously, as a seed drawn by the case says.
// For binaries linked with PERTURB_LD.
#ifndef PERTURB_HPP
#define PERTURB_HPP
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <stdint.h>
#include <atomic>

namespace perturb {
template <int N> struct Vars
{
    static std::atomic<uint32_t> level, spurious;
    static std::atomic<uint64_t> seed, tid, delays, wakes;
};
template <int N> std::atomic<uint32_t> Vars<N>::level(0);
template <int N> std::atomic<uint32_t> Vars<N>::spurious(0);
template <int N> std::atomic<uint64_t> Vars<N>::seed(1);
template <int N> std::atomic<uint64_t> Vars<N>::tid(0);
template <int N> std::atomic<uint64_t> Vars<N>::delays(0);
template <int N> std::atomic<uint64_t> Vars<N>::wakes(0);
static std::atomic<uint32_t>& level = Vars<0>::level;         // chance of a delay in 1/256
static std::atomic<uint32_t>& spurious = Vars<0>::spurious;   // chance of a spurious wakeup in 1/256
static std::atomic<uint64_t>& seed = Vars<0>::seed, & tid = Vars<0>::tid, & delays = Vars<0>::delays, & wakes = Vars<0>::wakes;
static inline uint64_t& state() { static thread_local uint64_t st = 0; return st; }
static inline uint32_t rnd()
{
    uint64_t& st = state();
    if (!st) st = seed.load() * 0x9E3779B97F4A7C15ull + (++tid) * 0xD1B54A32D192ED03ull + 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return (uint32_t)(st >> 24);
}
static inline void point()
{
    uint32_t l = level.load(std::memory_order_relaxed);
    if (!l) return;
    uint32_t r = rnd();
    if ((r & 255) >= l) return;
    delays.fetch_add(1, std::memory_order_relaxed);
    switch ((r >> 8) & 3) {
    case 0: sched_yield(); break;
    case 1: usleep((r >> 10) % 40); break;
    case 2: usleep((r >> 10) % 250); break;
    case 3: for (volatile unsigned i = 0; i < ((r >> 10) & 2047); ++i) { } break;
    }
}
} // namespace perturb

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
__attribute__((weak)) int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { perturb::point(); return __real_pthread_mutex_lock(m); }
__attribute__((weak)) int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); perturb::point(); return r; }
__attribute__((weak)) int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    uint32_t s = perturb::spurious.load(std::memory_order_relaxed);
    if (s && (perturb::rnd() & 255) < s) {
        // POSIX: spurious wakeups may occur
        perturb::wakes.fetch_add(1, std::memory_order_relaxed);
        __real_pthread_mutex_unlock(m);
        sched_yield();
        __real_pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_wait(c, m);
}
}
#endif
