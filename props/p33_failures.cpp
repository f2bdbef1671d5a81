// Block transfers that fail below containers and algorithms: an io_error or the right elements, never anything else.
#include "common.hpp"
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stxxl/map>
#include <stxxl/unordered_map>
#include <stxxl/priority_queue>
#include <stxxl/sorter>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/scan>
#include <stxxl/stream>
#include <stxxl/bits/mng/read_write_pool.h>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <cmath>
#include <set>
#include <typeinfo>
#include <cerrno>
#include <pthread.h>
#include <unistd.h>

// ---- the plan of the running case; only the I/O threads are concerned
extern pthread_t g_main;
extern std::atomic<int> g_left[2];            // reads, writes until the failure, negative: none
extern std::atomic<bool> g_on, g_persistent;
extern std::atomic<uint64_t> g_injected;
extern std::atomic<const std::type_info*> g_thrown;   // by the main thread
#if PART == 0
pthread_t g_main;
std::atomic<int> g_left[2];
std::atomic<bool> g_on, g_persistent;
std::atomic<uint64_t> g_injected;
std::atomic<const std::type_info*> g_thrown;
static bool failing(int dir)
{
    if (!g_on || pthread_equal(pthread_self(), g_main) || g_left[dir] < 0) return false;
    int n = g_left[dir]--;
    if (n > 0) return false;
    if (n < 0) return g_persistent;
    if (g_persistent) g_left[dir] = 0;
    ++g_injected;
    return true;
}
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { if (failing(0)) { errno = EIO; return -1; } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (failing(1)) { errno = ENOSPC; return -1; } return __real_write(fd, b, n); }
void __real___cxa_throw(void*, std::type_info*, void (*)(void*)) __attribute__((noreturn));
__attribute__((noreturn)) void __wrap___cxa_throw(void* e, std::type_info* t, void (*d)(void*))
{
    if (pthread_equal(pthread_self(), g_main)) g_thrown = t;
    __real___cxa_throw(e, t, d);
}
}
#endif

namespace {
enum { BS = 4096 };
typedef Rec<500> R5;
struct Less { bool operator () (const R5& a, const R5& b) const { return a.key() < b.key(); } R5 min_value() const { return R5(0); } R5 max_value() const { return R5(0xffffffffu); } };
struct Key { typedef uint32_t key_type; uint32_t operator () (const R5& x) const { return x.key(); } R5 min_value() const { return R5(0); } R5 max_value() const { return R5(0xffffffffu); } };

std::terminate_handler g_prev_terminate;
struct Fault
{
    unsigned at, reads, writes;   // the step at which it is armed
    void step(unsigned k) { if (k == at) { g_left[0] = (int)reads; g_left[1] = (int)writes; g_on = true; } }
};
struct Shuffle { uint64_t x; explicit Shuffle(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 12345) { } uint32_t operator () (uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)((x >> 20) % n); } };

// a destructor cannot throw: a failure which only it notices ends the process
void terminated()
{
    try { if (g_injected > 0 && std::current_exception()) std::rethrow_exception(std::current_exception()); }
    catch (const stxxl::io_error&) { pbt::label("io_error in a destructor"); pbt::nontrivial(); pbt::passed(); }
    catch (...) { }
    // where gcc has inlined the destructor, the exception is not a caught one yet
    if (g_injected > 0 && !std::current_exception() && std::uncaught_exception() && g_thrown && *g_thrown == typeid(stxxl::io_error)) { pbt::label("io_error in a destructor"); pbt::nontrivial(); pbt::passed(); }
    g_prev_terminate();
    abort();
}

// runs a history over disks that begin to fail; `steps` bounds the step it draws for that
template <class F>
void guarded(pbt::Src& s, unsigned steps, F body)
{
    g_main = pthread_self(); g_on = false; g_injected = 0; g_left[0] = g_left[1] = -1; g_persistent = s.chance(1, 3);
    unsigned nd = 1 + (unsigned)s.raw(3);
    for (unsigned i = 0; i < nd; ++i) {
        stxxl::disk_config d(std::string(pbt::scratch()) + "/disk" + std::to_string(i), 32ull << 20, "syscall");
        d.autogrow = true; d.direct = stxxl::disk_config::DIRECT_OFF;
        stxxl::config::get_instance()->add_disk(d);
    }
    omp_set_num_threads(1 + (int)s.raw(3));
    stxxl::set_seed((unsigned)s.raw(1u << 16));
    stxxl::block_manager::get_instance();
    Fault f; f.at = (unsigned)s.raw(steps + 1);
    f.reads = f.writes = ~0u;
    unsigned dir = (unsigned)s.raw(3), n = (unsigned)s.size(40, 6);
    if (dir != 1) f.reads = n;
    if (dir != 0) f.writes = n;
    PBT_NOTE("{" << nd << " disks, " << (g_persistent ? "every" : "one") << " " << (dir == 0 ? "read" : dir == 1 ? "write" : "read and write") << " after " << n << " more from step " << f.at << " on fails}");
    g_prev_terminate = std::set_terminate(terminated);
    bool thrown = false;
    try { body(f); }
    catch (const stxxl::io_error& e) { thrown = true; }
    std::set_terminate(g_prev_terminate);
    g_on = false;
    uint64_t inj = g_injected;
    PBT_CHECK(!thrown || inj > 0, "an io_error although no transfer has failed");
    {   // the disks are still usable
        typedef stxxl::VECTOR_GENERATOR<R5, 1, 2, BS>::result V;
        V v(60);
        for (unsigned i = 0; i < 60; ++i) v[i] = R5(i + 7);
        v.flush();
        for (unsigned i = 0; i < 60; ++i) PBT_EQ(((const V&)v)[i].value(), (int64_t)i + 7, "vector made afterwards, element " << i);
    }
    pbt::label(inj == 0 ? "nothing failed" : thrown ? "io_error" : "not noticed, elements right");
    if (inj) pbt::nontrivial();
}
}

#if PART == 0
// vectors through their cache
static void vectors(pbt::Src& s)
{
    typedef stxxl::VECTOR_GENERATOR<R5, 2, 3, BS>::result V;
    unsigned nops = (unsigned)s.range(1, 30);
    guarded(s, nops, [&](Fault& f) {
        std::vector<int64_t> m;
        std::unique_ptr<V> v(new V), u;
        uint32_t x = 0;
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            uint64_t n = m.size();
            switch (s.raw(8)) {
            case 0: { uint64_t c = s.size(300, 20); while (c--) { v->push_back(R5(++x)); m.push_back(x); } break; }
            case 1: { uint64_t c = std::min<uint64_t>(n, s.size(100, 9)); while (c--) { v->pop_back(); m.pop_back(); } break; }
            case 2: if (n) for (unsigned j = (unsigned)s.range(1, 20); j--; ) { uint64_t i = s.raw(n); (*v)[i] = R5(++x); m[i] = x; } break;
            case 3: if (n) for (unsigned j = (unsigned)s.range(1, 20); j--; ) { uint64_t i = s.raw(n); PBT_EQ(((const V&)*v)[i].value(), m[i], "element " << i); } break;
            case 4: v->flush(); break;
            case 5: u.reset(new V(*v)); v.swap(u); u.reset(); break;
            case 6: { uint64_t i = 0; for (V::const_iterator it = v->cbegin(); it != v->cend(); ++it, ++i) PBT_EQ(it->value(), m[i], "element " << i); break; }
            case 7: { uint64_t t = s.raw(n + 1); v->resize(t, s.chance(1, 2)); m.resize(t); break; }
            }
            pbt::ops();
        }
        const V& c = *v;
        for (uint64_t i = 0; i < m.size(); ++i) PBT_EQ(c[i].value(), m[i], "final: element " << i);
    });
}
PBT_TARGET_F(vectors, 700, 10000, 1, vectors);

// buffered streams, scans and pipelines over vectors
static void streams(pbt::Src& s)
{
    typedef stxxl::VECTOR_GENERATOR<R5, 1, 2, BS>::result V;
    unsigned nops = (unsigned)s.range(1, 8);
    guarded(s, nops, [&](Fault& f) {
        std::vector<int64_t> m;
        V v;
        uint32_t x = 0;
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            uint64_t n = m.size();
            unsigned nb = (unsigned)s.pick({ 0u, 2u, 5u, 20u });
            unsigned op = n ? (unsigned)s.raw(10) : 0;
            PBT_NOTE("op " << op << " " << nb << ";");
            uint64_t i = 0;
            switch (op) {
            case 0: { uint64_t c = 1 + s.size(300, 30); v.resize(0); m.clear(); { V::bufwriter_type w(v, nb); while (c--) { w << R5(++x); m.push_back(x); } w.finish(); } break; }
            case 1: { V::bufreader_type r(v.begin(), v.end(), nb); for ( ; !r.empty(); ++r, ++i) PBT_EQ(r->value(), m[i], "read element " << i); PBT_EQ(i, n, "elements read"); break; }
            case 2: { V::bufreader_reverse_type r(v.begin(), v.end(), nb); for ( ; !r.empty(); ++r, ++i) PBT_EQ(r->value(), m[n - 1 - i], "read backwards, element " << n - 1 - i); PBT_EQ(i, n, "elements read"); break; }
            case 3: { auto st = stxxl::stream::streamify(v.cbegin(), v.cend(), nb); for ( ; !st.empty(); ++st, ++i) PBT_EQ((*st).value(), m[i], "streamed element " << i); PBT_EQ(i, n, "elements streamed"); break; }
            case 4: { V u(n); auto st = stxxl::stream::streamify(v.cbegin(), v.cend(), nb); stxxl::stream::materialize(st, u.begin(), u.end(), nb); v.swap(u); break; }
            case 5: stxxl::for_each(v.cbegin(), v.cend(), [&](const R5& y) { PBT_EQ(y.value(), m[i], "for_each: element " << i); ++i; }, (int)nb); break;
            case 6: stxxl::for_each_m(v.begin(), v.end(), [&](R5& y) { PBT_EQ(y.value(), m[i], "for_each_m: element " << i); y = R5(++x); m[i] = x; ++i; }, (int)nb); break;
            case 7: { struct Gen { uint32_t i; R5 operator () () { return R5(++i); } } g = { x }; stxxl::generate(v.begin(), v.end(), g, (int)nb); for (i = 0; i < n; ++i) m[i] = ++x; break; }
            case 8: { uint64_t at = s.raw(n); auto it = stxxl::find(v.cbegin(), v.cend(), R5((uint32_t)m[at]), (int)nb); PBT_EQ((uint64_t)(it - v.cbegin()), at, "found at"); break; }
            case 9: { auto st = stxxl::stream::streamify(v.cbegin(), v.cend(), nb); stxxl::stream::sort<decltype(st), Less, BS> so(st, Less(), 64 * BS); std::vector<int64_t> o(m); std::sort(o.begin(), o.end()); for ( ; !so.empty(); ++so, ++i) PBT_EQ((*so).value(), o[i], "sorted stream, element " << i); PBT_EQ(i, n, "elements sorted"); break; }
            }
            pbt::ops();
        }
        const V& c = v;
        for (uint64_t i = 0; i < m.size(); ++i) PBT_EQ(c[i].value(), m[i], "final: element " << i);
    });
}
PBT_TARGET_F(streams, 900, 12000, 1, streams);
#endif

#if PART == 1
static void sorting(pbt::Src& s)
{
    typedef stxxl::VECTOR_GENERATOR<R5, 1, 2, BS>::result V;
    guarded(s, 2, [&](Fault& f) {
        uint64_t M = s.range(4, 14), n = 1 + s.size(600, M * 8);
        Shuffle r(s.raw(1u << 16)); unsigned range = (unsigned)s.pick({ 5u, 1000u, 1000000u });
        std::vector<int64_t> k(n);
        V v;
        f.step(0);
        for (uint64_t i = 0; i < n; ++i) { k[i] = 1 + r(range); v.push_back(R5((uint32_t)k[i])); }
        uint64_t a = s.chance(1, 2) ? 0 : s.raw(n), b = s.chance(1, 2) ? n : a + s.raw(n - a + 1);
        PBT_NOTE("[" << a << "," << b << ") of " << n << ", " << M << " blocks");
        f.step(1);
        const uint64_t mem = M * BS * stxxl::sort_memory_usage_factor();
        typedef stxxl::sorter<R5, Less, BS> S;
        S q(Less(), (stxxl::unsigned_type)(mem), (stxxl::unsigned_type)((4 * stxxl::config::get_instance()->disks_number() + 3 + M) * BS));
        const V& c = v;
        for (uint64_t i = a; i < b; ++i) { PBT_EQ(c[i].value(), k[i], "element " << i); q.push(c[i]); }
        f.step(2);
        q.sort();
        std::sort(k.begin() + a, k.begin() + b);
        for (unsigned t = 0; t < 2; ++t) {
            uint64_t i = a;
            for ( ; !q.empty(); ++q, ++i) PBT_EQ((*q).value(), k[i], "sorter: element " << i);
            PBT_EQ(i, b, "elements of the sorter");
            q.rewind();
        }
        pbt::ops(n);
    });
}
PBT_TARGET_F(sorting, 700, 10000, 1, sorting);

// sorting a range of a vector in place. sort() and ksort() free the blocks of the range as they read them: the vector
// is lost with the io_error and must not even be destructed (known-findings.txt). Everything else is checked.
struct K5 : R5
{
    typedef uint32_t key_type;
    K5() { }
    explicit K5(uint32_t k) : R5(k) { }
    static K5 min_value() { return K5(0); }
    static K5 max_value() { return K5(0xffffffffu); }
};
struct LessK { bool operator () (const K5& a, const K5& b) const { return a.key() < b.key(); } K5 min_value() const { return K5(0); } K5 max_value() const { return K5(0xffffffffu); } };
static void in_place(pbt::Src& s)
{
    typedef stxxl::VECTOR_GENERATOR<K5, 1, 2, BS>::result V;
    guarded(s, 1, [&](Fault& f) {
        const unsigned D = stxxl::config::get_instance()->disks_number(), B = V::block_type::size;
        unsigned alg = (unsigned)s.weighted({ 3, 3, 2 });
        uint64_t m = alg == 2 ? 4 * D + 2 + s.raw(8) : s.range(3, 14), n = 1 + s.size(700, m * B);
        Shuffle r(s.raw(1u << 16)); unsigned range = alg == 2 ? 0xfffffff0u : (unsigned)s.pick({ 5u, 1000u, 1000000u });
        std::unique_ptr<V> own(new V);
        V& v = *own; const V& c = v;
        std::vector<int64_t> k(n);
        f.step(0);
        uint32_t x = (uint32_t)s.raw(1u << 16);
        for (uint64_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; k[i] = 1 + (alg == 2 ? (x ^ x >> 15) % range : r(range)); v.push_back(K5((uint32_t)k[i])); }
        uint64_t a = s.chance(1, 2) ? 0 : s.raw(n), b = s.chance(1, 2) ? n : a + s.raw(n - a + 1);
        if (alg == 2) {   // buckets that fit into memory
            uint64_t nb = 1ull << stxxl::ilog2_floor(m - 4 * D), room = (m - 2 * D) / 2 * B, len = b - a, e = len / nb + 1;
            while (len && e + 7 * (uint64_t)sqrt((double)e) + 8 > room) { len = len * 3 / 4; e = len / nb + 1; }
            b = a + len;
        }
        static const char* const names[] = { "sort", "ksort", "stable_ksort" };
        PBT_NOTE(names[alg] << " [" << a << "," << b << ") of " << n << ", " << m << " blocks");
        f.step(1);
        const uint64_t mem = m * BS * (alg == 0 ? stxxl::sort_memory_usage_factor() : 1);
        try {
            if (alg == 0) stxxl::sort(v.begin() + a, v.begin() + b, LessK(), (stxxl::unsigned_type)mem);
            else if (alg == 1) stxxl::ksort(v.begin() + a, v.begin() + b, (stxxl::unsigned_type)mem);
            else stxxl::stable_ksort(v.begin() + a, v.begin() + b, (stxxl::unsigned_type)mem);
        }
        catch (const stxxl::io_error&) {
            if (alg != 2) { own.release(); pbt::excluded("P33-in-place-sort"); }
            throw;
        }
        std::sort(k.begin() + a, k.begin() + b);
        for (uint64_t i = 0; i < n; ++i) PBT_EQ(c[i].value(), k[i], names[alg] << ": element " << i);
        pbt::ops(n);
    });
}
PBT_TARGET_F(in_place, 700, 10000, 1, in_place);

template <class S> struct Plain { std::unique_ptr<S> s; explicit Plain(pbt::Src&) : s(new S) { } };
template <class S> struct Pooled
{
    stxxl::read_write_pool<typename S::block_type> pool; std::unique_ptr<S> s;
    explicit Pooled(pbt::Src& r) : pool((unsigned)r.range(0, 4), (unsigned)r.range(2, 4)), s(new S(pool, (unsigned)r.raw(4))) { }
};
template <class S, class M>
static void stacks(pbt::Src& s)
{
    unsigned nops = (unsigned)s.range(1, 20);
    guarded(s, nops, [&](Fault& f) {
        M h(s); S& st = *h.s;
        std::vector<int64_t> m; uint32_t x = 0;
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            uint64_t c = s.size(150, 17);
            if (s.chance(3, 5)) while (c--) { st.push(R5(++x)); m.push_back(x); }
            else { c = std::min<uint64_t>(c, m.size()); while (c--) { PBT_EQ(st.top().value(), m.back(), "top"); st.pop(); m.pop_back(); } }
            pbt::ops();
        }
        while (!m.empty()) { PBT_EQ(st.top().value(), m.back(), "top"); st.pop(); m.pop_back(); }
    });
}
#define EXT(BEH, BPP) stxxl::STACK_GENERATOR<R5, stxxl::external, stxxl::BEH, BPP, BS>::result
typedef EXT(normal, 2) N2; typedef EXT(grow_shrink, 2) G2; typedef EXT(grow_shrink2, 1) P1;
PBT_TARGET_F(stack_normal, 400, 6000, 1, (stacks<N2, Plain<N2> >));
PBT_TARGET_F(stack_growshrink, 400, 6000, 1, (stacks<G2, Plain<G2> >));
PBT_TARGET_F(stack_growshrink2, 400, 6000, 1, (stacks<P1, Pooled<P1> >));

static void queues(pbt::Src& s)
{
    unsigned nops = (unsigned)s.range(1, 25), kind = (unsigned)s.raw(3);
    guarded(s, nops, [&](Fault& f) {
        typedef stxxl::queue<R5, BS> Q; typedef stxxl::sequence<R5, BS> S; typedef stxxl::deque<R5, stxxl::VECTOR_GENERATOR<R5, 1, 2, BS>::result> D;
        std::unique_ptr<Q> q; std::unique_ptr<S> t; std::unique_ptr<D> d;
        unsigned np = (unsigned)s.range(1, 5), nw = (unsigned)s.range(3, 5);
        if (kind == 0) q.reset(new Q((stxxl::unsigned_type)nw, (stxxl::unsigned_type)np, (int)s.raw(4)));
        else if (kind == 1) t.reset(new S((stxxl::unsigned_type)nw, (stxxl::unsigned_type)np, (int)s.raw(4)));
        else d.reset(new D);
        std::deque<int64_t> m; uint32_t x = 0;
        PBT_NOTE("kind " << kind << ";");
        auto step = [&](unsigned op) {
            if (kind == 0) op |= 1, op = op == 1 ? 1 : 2;   // back in, front out
            if (m.empty()) op &= 1;
            switch (op) {
            case 0: ++x; if (t) t->push_front(R5(x)); else d->push_front(R5(x)); m.push_front(x); break;
            case 1: ++x; if (q) q->push(R5(x)); else if (t) t->push_back(R5(x)); else d->push_back(R5(x)); m.push_back(x); break;
            case 2: PBT_EQ((q ? q->front() : t ? t->front() : (*d)[0]).value(), m.front(), "front"); if (q) q->pop(); else if (t) t->pop_front(); else d->pop_front(); m.pop_front(); break;
            case 3: PBT_EQ((t ? t->back() : (*d)[m.size() - 1]).value(), m.back(), "back"); if (t) t->pop_back(); else d->pop_back(); m.pop_back(); break;
            }
        };
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            unsigned op = (unsigned)s.raw(4); uint64_t c = s.size(120, 17);
            if (s.chance(3, 5)) op &= 1;
            if (op & 2) c = std::min<uint64_t>(c, m.size());
            while (c--) step(op);
            pbt::ops();
        }
        unsigned op = 2 + (unsigned)s.raw(2);
        while (!m.empty()) step(op);
    });
}
PBT_TARGET_F(queues, 900, 12000, 1, queues);
#endif

#if PART == 2
struct PqItem { uint32_t k; unsigned char pad[60]; PqItem() { } explicit PqItem(uint32_t x) : k(x) { memset(pad, (int)x, sizeof pad); } bool good() const { for (unsigned char c : pad) if (c != (unsigned char)k) return false; return true; } };
inline std::ostream& operator << (std::ostream& o, const PqItem& x) { return o << x.k; }
struct PqCmp { bool operator () (const PqItem& a, const PqItem& b) const { return a.k > b.k; } PqItem min_value() const { return PqItem(0xffffffffu); } };
static void pqs(pbt::Src& s)
{
    unsigned nops = (unsigned)s.range(1, 12);
    guarded(s, nops, [&](Fault& f) {
        typedef stxxl::priority_queue<stxxl::priority_queue_config<PqItem, PqCmp, 8, 24, 5, 2, BS, 4, 2> > Q;
        Q::pool_type pool((stxxl::unsigned_type)s.range(0, 4), (stxxl::unsigned_type)s.range(2, 4));
        Q q(pool);
        std::multiset<uint32_t> m; Shuffle r(s.raw(1u << 16));
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            uint64_t c = s.size(3000, 300); bool push = s.chance(3, 5);
            if (m.size() > 8000) push = false;
            while (c--) {
                if (push) { uint32_t y = r(1000000); q.push(PqItem(y)); m.insert(y); }
                else if (!m.empty()) { PBT_CHECK(q.top().k == *m.begin() && q.top().good(), "top is " << q.top().k << ", expected " << *m.begin()); q.pop(); m.erase(m.begin()); }
            }
            pbt::ops();
        }
        while (!m.empty()) { PBT_CHECK(q.top().k == *m.begin() && q.top().good(), "top is " << q.top().k << ", expected " << *m.begin()); q.pop(); m.erase(m.begin()); }
    });
}
PBT_TARGET_F(pqs, 400, 6000, 1, pqs);

struct LessU { bool operator () (uint32_t a, uint32_t b) const { return a < b; } static uint32_t min_value() { return 0; } static uint32_t max_value() { return 0xffffffffu; } };
static void maps(pbt::Src& s)
{
    unsigned nops = (unsigned)s.range(1, 40);
    guarded(s, nops, [&](Fault& f) {
        typedef stxxl::map<uint32_t, R5, LessU, BS, BS> M;
        M y((unsigned)s.range(3, 6) * BS, (unsigned)s.range(3, 6) * BS);
        std::map<uint32_t, uint32_t> m; Shuffle r(s.raw(1u << 16)); uint32_t x = 0; unsigned range = (unsigned)s.pick({ 60u, 400u });
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            unsigned op = (unsigned)s.weighted({ 6, 2, 3, 1, 1 }); uint64_t c = s.size(40, 5);
            while (c--) {
                uint32_t a = r(range);
                if (op == 0) { ++x; y.insert(std::make_pair(a, R5(x))); m.insert(std::make_pair(a, x)); }
                else if (op == 1) { PBT_EQ(y.erase(a), m.erase(a), "erased " << a); }
                else if (op == 2) { M::const_iterator it = ((const M&)y).find(a); PBT_EQ(it != ((const M&)y).end(), m.count(a) == 1, "found " << a); if (m.count(a)) PBT_EQ(it->second.value(), (int64_t)m[a], "value of " << a); }
                else if (op == 3) { y[a] = R5(++x); m[a] = x; }
                else { auto i = m.lower_bound(a); M::const_iterator it = ((const M&)y).lower_bound(a); for (unsigned j = 0; j < 20 && i != m.end(); ++j, ++i, ++it) PBT_EQ(it->first, i->first, "key from lower_bound"); break; }
            }
            pbt::ops();
        }
        auto i = m.begin();
        for (M::const_iterator it = ((const M&)y).begin(); it != ((const M&)y).end(); ++it, ++i) { PBT_CHECK(i != m.end(), "too many elements"); PBT_EQ(it->first, i->first, "key"); PBT_EQ(it->second.value(), (int64_t)i->second, "value of " << i->first); }
        PBT_CHECK(i == m.end(), "elements missing");
    });
}
PBT_TARGET_F(maps, 600, 8000, 1, maps);

struct Hash { size_t operator () (uint32_t k) const { return k * 2654435761u; } };
static void hash_maps(pbt::Src& s)
{
    unsigned nops = (unsigned)s.range(1, 30);
    guarded(s, nops, [&](Fault& f) {
        typedef stxxl::unordered_map<uint32_t, R5, Hash, LessU, BS, 2> M;
        M y(0, Hash(), LessU(), (unsigned)s.range(2, 12) * 1024);
        std::map<uint32_t, uint32_t> m; Shuffle r(s.raw(1u << 16)); uint32_t x = 0; unsigned range = (unsigned)s.pick({ 60u, 400u });
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            unsigned op = (unsigned)s.weighted({ 6, 2, 3, 2 }); uint64_t c = s.size(60, 5);
            while (c--) {
                uint32_t a = 1 + r(range);
                if (op == 0) { ++x; y.insert(std::make_pair(a, R5(x))); m.insert(std::make_pair(a, x)); }
                else if (op == 1) { PBT_EQ((uint64_t)y.erase(a), (uint64_t)m.erase(a), "erased " << a); }
                else if (op == 2) { M::const_iterator it = ((const M&)y).find(a); PBT_EQ(it != ((const M&)y).end(), m.count(a) == 1, "found " << a); if (m.count(a)) PBT_EQ((*it).second.value(), (int64_t)m[a], "value of " << a); }
                else { y[a] = R5(++x); m[a] = x; }
            }
            pbt::ops();
        }
        for (auto& e : m) { M::const_iterator it = ((const M&)y).find(e.first); PBT_CHECK(it != ((const M&)y).end(), e.first << " is missing"); PBT_EQ((*it).second.value(), (int64_t)e.second, "value of " << e.first); }
        uint64_t n = 0;
        for (M::const_iterator it = ((const M&)y).begin(); it != ((const M&)y).end(); ++it, ++n) { PBT_CHECK(m.count((*it).first), "iterated over " << (*it).first); PBT_EQ((*it).second.value(), (int64_t)m[(*it).first], "value of " << (*it).first); }
        PBT_EQ(n, (uint64_t)m.size(), "elements iterated over");
    });
}
PBT_TARGET_F(hash_maps, 500, 7000, 1, hash_maps);

// a pool of blocks for reading and writing
static void pools(pbt::Src& s)
{
    typedef stxxl::typed_block<BS, R5> Bl;
    unsigned nops = (unsigned)s.range(1, 60);
    guarded(s, nops, [&](Fault& f) {
        stxxl::read_write_pool<Bl> pool((unsigned)s.range(0, 4), (unsigned)s.range(2, 4));
        std::vector<Bl::bid_type> bids(s.range(1, 10)); std::vector<int64_t> m(bids.size(), -1);
        stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), bids.begin(), bids.end());
        std::unique_ptr<Bl> hold;
        uint32_t x = 0;
        Bl* b = new Bl;
        struct Own { Bl*& b; ~Own() { delete b; } } own = { b };
        auto read = [&](unsigned i) {
            if (m[i] < 0) return;
            stxxl::request_ptr r = pool.read(b, bids[i]); r->wait();
            for (unsigned j = 0; j < Bl::size; ++j) PBT_EQ((*b)[j].value(), m[i] + j, "block " << i << ", element " << j);
        };
        for (unsigned k = 0; k < nops; ++k) {
            f.step(k);
            unsigned i = (unsigned)s.raw(bids.size());
            switch (s.weighted({ 4, 3, 2, 1 })) {
            case 0: { x += 10; for (unsigned j = 0; j < Bl::size; ++j) (*b)[j] = R5(x + j); pool.invalidate(bids[i]); pool.write(b, bids[i]); m[i] = x; b = pool.steal(); break; }
            case 1: read(i); break;
            case 2: if (m[i] >= 0) pool.hint(bids[i]); break;
            case 3: pool.invalidate(bids[i]); break;
            }
            pbt::ops();
        }
        for (unsigned i = 0; i < bids.size(); ++i) read(i);
    });
}
PBT_TARGET_F(pools, 600, 8000, 1, pools);
#endif
