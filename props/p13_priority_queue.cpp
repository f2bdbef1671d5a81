// Priority queues against an ordered multiset.
#include "common.hpp"
#include <stxxl/bits/containers/priority_queue.h>
#include <map>
#include <set>
#include <memory>

template <class K, unsigned PAD> struct Item
{
    K key;
    uint32_t id;
    unsigned char pad[PAD];
    Item() { }
    Item(K k, uint32_t i) : key(k), id(i) { for (unsigned j = 0; j < PAD; ++j) pad[j] = (unsigned char)(i * 31 + j * 7 + (unsigned)k); }
    bool sound() const { Item o(key, id); return memcmp(pad, o.pad, PAD) == 0; }
};
template <class K, unsigned P>
std::ostream& operator << (std::ostream& os, const Item<K, P>& i) { return os << (int64_t)i.key; }
// the largest (Max) or smallest key first
template <class I, bool Max> struct Cmp
{
    bool operator () (const I& a, const I& b) const { return Max ? a.key < b.key : b.key < a.key; }
    I min_value() const { return I(Max ? std::numeric_limits<decltype(I::key)>::min() : std::numeric_limits<decltype(I::key)>::max(), 0); }
};

// small numbers for all parameters, so that all levels are reached
template <class K, unsigned PAD, bool Max, unsigned DEL, unsigned N, unsigned IK, unsigned IL, unsigned BS, unsigned EK, unsigned EL>
struct Small
{
    typedef Item<K, PAD> I;
    typedef stxxl::priority_queue<stxxl::priority_queue_config<I, Cmp<I, Max>, DEL, N, IK, IL, BS, EK, EL> > type;
    static uint64_t capacity() { uint64_t c = N; for (unsigned i = 0; i < IL; ++i) c *= IK; for (unsigned i = 0; i < EL; ++i) c *= EK; return c; }
    static const bool max = Max;
    typedef K key;
};
template <bool Max>
struct Generated
{
    typedef Item<int32_t, 40> I;
    typedef typename stxxl::PRIORITY_QUEUE_GENERATOR<I, Cmp<I, Max>, 1024 * 1024, 512, 3>::result type;
    static uint64_t capacity() { return 40000; }
    static const bool max = Max;
    typedef int32_t key;
};

template <class C>
static void run(pbt::Src& s)
{
    typedef typename C::type Q;
    typedef typename C::key K;
    typedef typename C::I I;
    typedef std::map<K, std::set<uint32_t> > Model;
    const uint64_t cap = C::capacity(), N = Q::N;
    stx::setup(s);
    unsigned nq = 1 + (unsigned)s.chance(1, 5);
    unsigned np = (unsigned)s.raw(6), nw = (unsigned)s.range(1, 6);
    bool shared = s.chance(2, 3);
    std::unique_ptr<typename Q::pool_type> pool;
    if (shared) pool.reset(new typename Q::pool_type(np, nw));
    std::vector<std::unique_ptr<Q> > q(nq);
    std::vector<Model> m(nq);
    std::vector<uint64_t> sz(nq, 0);
    for (unsigned k = 0; k < nq; ++k)
        q[k].reset(shared ? new Q(*pool) : new Q((stxxl::unsigned_type)np * Q::BlockSize + s.raw(100), (stxxl::unsigned_type)nw * Q::BlockSize));
    PBT_NOTE(nq << (shared ? " over a shared pool " : " pools ") << np << "+" << nw << " capacity " << cap);
    uint32_t id = 1;
    uint64_t maxlen = 0, pops = 0, limit = cap * 3;
    if (limit > 12000 && cap != 40000) limit = 12000;
    if (nq > 1) limit /= 2;
    K lo = std::numeric_limits<K>::min(), hi = std::numeric_limits<K>::max();
    K sentinel = C::max ? lo : hi;
    K cursor = lo / 2 + hi / 2;
    auto front = [&](unsigned k) -> K { return C::max ? m[k].rbegin()->first : m[k].begin()->first; };
    auto push = [&](unsigned k, K key) {
        if (key == sentinel) key = C::max ? key + 1 : key - 1;
        q[k]->push(I(key, id));
        m[k][key].insert(id++);
        ++sz[k];
    };
    auto pop = [&](unsigned k) {
        const I& t = q[k]->top();
        K want = front(k);
        PBT_CHECK(t.key == want, "top of " << sz[k] << " elements has key " << (int64_t)t.key << " instead of " << (int64_t)want);
        std::set<uint32_t>& ids = m[k][want];
        PBT_CHECK(ids.count(t.id), "top of " << sz[k] << " elements with key " << (int64_t)want << " is element " << t.id << ", which was never inserted or was taken out before");
        PBT_CHECK(t.sound(), "contents of element " << t.id << " changed");
        ids.erase(t.id);
        if (ids.empty()) m[k].erase(want);
        q[k]->pop();
        --sz[k]; ++pops;
    };
    auto draw = [&](unsigned k, unsigned dist) -> K {
        switch (dist) {
        case 0: return (K)s.irange(-20, 20);                                  // many equal keys
        case 1: return (K)s.bits();
        case 2: return cursor = (K)(cursor + 1);                              // ascending
        case 3: return cursor = (K)(cursor - 1);                              // descending
        case 4: { int64_t f = m[k].empty() ? 0 : front(k); int64_t d = s.irange(0, 50); return (K)(C::max ? f - d : f + d); }   // never before the front
        case 5: { int64_t f = m[k].empty() ? 0 : front(k); return (K)(f + s.irange(-50, 50)); }
        default: return s.chance(1, 2) ? lo : hi;
        }
    };
    unsigned phases = (unsigned)s.range(1, 12);
    for (unsigned p = 0; p < phases; ++p) {
        unsigned k = (unsigned)s.raw(nq);
        unsigned dist = (unsigned)s.weighted({ 4, 4, 2, 2, 3, 2, 1 });
        uint64_t n = s.chance(1, 4) ? s.range(1, 3) : s.chance(1, 3) ? N * s.range(1, 4) + s.raw(3) : s.size(limit, N * 4);
        unsigned kind = (unsigned)s.weighted({ 4, 3, 3, 1 });
        uint64_t seed = s.raw(1u << 16);
        PBT_NOTE(k << ":" << "push\0pop\0\0mix\0\0take" + 5 * kind << " " << n << " dist " << dist);
        pbt::ops(n);
        // the bulk of the keys comes from a generator, not from the tape
        pbt::Src* src = &s;
        (void)src;
        uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345;
        auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
        auto bulk = [&]() -> K {
            switch (dist) {
            case 0: return (K)((int64_t)(rnd() % 41) - 20);
            case 1: return (K)(rnd() >> 7);
            case 4: { int64_t f = m[k].empty() ? 0 : front(k); int64_t d = rnd() % 50; return (K)(C::max ? f - d : f + d); }
            case 5: { int64_t f = m[k].empty() ? 0 : front(k); return (K)(f + (int64_t)(rnd() % 101) - 50); }
            case 6: return rnd() & 64 ? lo : hi;
            default: return draw(k, dist);
            }
        };
        switch (kind) {
        case 0:
            for (uint64_t i = 0; i < n && sz[k] < limit; ++i) push(k, bulk());
            break;
        case 1:
            for (uint64_t i = 0; i < n && sz[k]; ++i) pop(k);
            break;
        case 2: {
            unsigned up = 1 + (seed & 7);
            for (uint64_t i = 0; i < n; ++i) {
                if ((rnd() >> 5) % 9 < up) { if (sz[k] < limit) push(k, bulk()); }
                else if (sz[k]) pop(k);
                PBT_EQ(q[k]->size(), sz[k], "size");
            }
            break;
        }
        case 3: while (sz[k]) pop(k); break;
        }
        for (unsigned i = 0; i < nq; ++i) {
            PBT_EQ(q[i]->size(), sz[i], "size");
            PBT_EQ(q[i]->empty(), sz[i] == 0, "empty");
            if (sz[i]) PBT_CHECK(q[i]->top().key == front(i), "top of " << sz[i] << " elements has key " << (int64_t)q[i]->top().key << " instead of " << (int64_t)front(i));
            maxlen = std::max(maxlen, sz[i]);
        }
        (void)q[k]->mem_cons();
    }
    for (unsigned k = 0; k < nq; ++k) {
        if (s.chance(1, 4)) continue;
        while (sz[k]) pop(k);
        PBT_CHECK(q[k]->empty() && q[k]->size() == 0, "not empty after all elements were taken");
        PBT_EQ(stx::allocated() > 0 && nq == 1, false, "external memory held by an empty queue");
    }
    bool ext = stx::used_bytes() > 0;
    q.clear();
    stx::check_no_blocks("after destroying the queues");
    if (pool) {
        PBT_EQ(pool->size_write(), nw, "blocks of the write pool at the end");
        PBT_EQ(pool->size_prefetch(), np, "blocks of the prefetch pool at the end");
    }
    pbt::label(maxlen > cap ? "beyond the capacity" : maxlen > cap / Q::ExtKMAX ? "last level" : maxlen > N * Q::IntKMAX ? "second level" : "first level");
    (void)ext;
    if (maxlen > N * Q::IntKMAX && pops > N) pbt::nontrivial();
}

#ifdef LOSER
#define PQN(x) x ## _tree
#else
#define PQN(x) x
#endif
#define PQT(NAME, Q, T, F) PBT_TARGET_F(NAME, Q, T, 1, F)
#if PART == 0
typedef Small<int32_t, 248, true, 8, 16, 4, 1, 4096, 3, 2> A;
typedef Small<int32_t, 248, false, 4, 12, 5, 2, 4096, 2, 2> B;
PQT(PQN(max_1_2), 400, 10000, (run<A>));
PQT(PQN(min_2_2), 400, 10000, (run<B>));
#elif PART == 1
typedef Small<uint16_t, 490, true, 16, 16, 8, 1, 4096, 5, 1> A;
typedef Small<int64_t, 100, false, 8, 24, 16, 1, 4096, 4, 1> B;
PQT(PQN(max_1_1), 400, 10000, (run<A>));
PQT(PQN(min_1_1), 400, 10000, (run<B>));
#else
typedef Small<int32_t, 0, false, 32, 64, 8, 2, 4096, 6, 1> A;
typedef Small<int32_t, 1000, true, 2, 8, 4, 2, 4096, 7, 1> B;
PQT(PQN(min_2_1), 300, 8000, (run<A>));
PQT(PQN(max_2_1), 350, 8000, (run<B>));
PQT(PQN(generated), 130, 3000, (run<Generated<true> >));
#endif
