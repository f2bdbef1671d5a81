// Containers and algorithms of all kinds living over the same disks at the same time: each behaves as if it were alone,
// interleaved in one thread and running in several, and all external memory is given back in any order of destruction.
#include "common.hpp"
#include <stxxl/vector>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stxxl/stack>
#include <stxxl/map>
#include <stxxl/unordered_map>
#include <stxxl/priority_queue>
#include <stxxl/sorter>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/scan>
#include <stxxl/stream>
#include <stxxl/bits/containers/matrix.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <thread>
#include <unordered_map>

namespace {

// an element that knows whose it is
template <unsigned N> struct El
{
    uint32_t owner, v; unsigned char pad[N - 8];
    El() { }
    El(uint32_t o, uint32_t x) : owner(o), v(x) { for (unsigned i = 0; i < N - 8; ++i) pad[i] = (unsigned char)(o * 37 + x * 11 + i); }
    bool is(uint32_t o, uint32_t x) const { El e(o, x); return memcmp(this, &e, N) == 0; }
};
template <unsigned N> std::ostream& operator << (std::ostream& os, const El<N>& e) { return os << e.owner << ":" << e.v; }
template <unsigned N> struct LessEl
{
    uint32_t owner;
    explicit LessEl(uint32_t o = 0) : owner(o) { }
    bool operator () (const El<N>& a, const El<N>& b) const { return a.v < b.v; }
    El<N> min_value() const { return El<N>(owner, 0); }
    El<N> max_value() const { return El<N>(owner, 0xffffffffu); }
};
template <unsigned N> struct MoreEl : LessEl<N>
{
    explicit MoreEl(uint32_t o = 0) : LessEl<N>(o) { }
    bool operator () (const El<N>& a, const El<N>& b) const { return b.v < a.v; }
    El<N> min_value() const { return El<N>(this->owner, 0xffffffffu); }
};
template <unsigned N> struct KeyEl
{
    typedef uint32_t key_type;
    uint32_t owner;
    explicit KeyEl(uint32_t o) : owner(o) { }
    uint32_t operator () (const El<N>& e) const { return e.v; }
    El<N> min_value() const { return El<N>(owner, 0); }
    El<N> max_value() const { return El<N>(owner, 0xffffffffu); }
};

#define WHO(what) name << " (" << id << "): " << what
#define HAS(e, x, what) PBT_CHECK((e).is(id, (uint32_t)(x)), WHO(what) << " is " << (e).owner << ":" << (e).v << " instead of " << id << ":" << (x))

struct Actor
{
    uint32_t id; uint64_t x; const char* name; uint64_t ops; uint32_t stamp; uint64_t peak;
    Actor(uint32_t i, uint64_t seed, const char* n) : id(i), x(seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull), name(n), ops(0), stamp(1), peak(0) { }
    virtual ~Actor() { }
    uint32_t rnd(uint32_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)((x >> 20) % n); }
    virtual void step() = 0;       // some operations
    virtual void verify() = 0;     // everything is there
    void did(uint64_t n, uint64_t size) { ops += n; peak = std::max(peak, size); }
};

template <unsigned N, unsigned PS, unsigned NP, unsigned BS, class AS, class PG>
struct VectorActor : Actor
{
    typedef El<N> E;
    typedef typename stxxl::VECTOR_GENERATOR<E, PS, NP, BS, AS, (sizeof(PG) > 1 ? stxxl::random : stxxl::lru)>::result V;
    V v; std::vector<uint32_t> m;
    VectorActor(uint32_t i, uint64_t s) : Actor(i, s, "vector") { }
    void step()
    {
        uint32_t n = 1 + rnd(3 * BS / N);
        switch (rnd(8)) {
        case 0: case 1: case 2: for (uint32_t k = 0; k < n && m.size() < 40 * BS / N; ++k) { v.push_back(E(id, ++stamp)); m.push_back(stamp); } break;
        case 3: for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(v.back(), m.back(), "last element"); v.pop_back(); m.pop_back(); } break;
        case 4: for (uint32_t k = 0; k < 40 && !m.empty(); ++k) { uint32_t i = rnd((uint32_t)m.size()); v[i] = E(id, ++stamp); m[i] = stamp; } break;
        case 5: for (uint32_t k = 0; k < 60 && !m.empty(); ++k) { uint32_t i = rnd((uint32_t)m.size()); const V& c = v; HAS(c[i], m[i], "element " << i); } break;
        case 6: if (m.size() > 1) {
                if (rnd(2)) stxxl::sort(v.begin(), v.end(), LessEl<N>(id), 8 * BS); else stxxl::ksort(v.begin(), v.end(), KeyEl<N>(id), 8 * BS);
                std::sort(m.begin(), m.end());
            } break;
        case 7: if (rnd(4) == 0) { v.clear(); m.clear(); } else v.flush(); break;
        }
        did(n, m.size());
    }
    void verify() { PBT_EQ(v.size(), m.size(), WHO("size")); size_t k = 0; for (typename V::const_iterator i = v.cbegin(); i != v.cend(); ++i, ++k) HAS(*i, m[k], "element " << k); }
};

template <class Q, unsigned N, unsigned BS>
struct QueueActor : Actor
{
    typedef El<N> E;
    Q q; std::deque<uint32_t> m;
    QueueActor(uint32_t i, uint64_t s) : Actor(i, s, "queue") { }
    void step()
    {
        uint32_t n = 1 + rnd(4 * BS / N);
        if (rnd(5) < 3) for (uint32_t k = 0; k < n && m.size() < 40 * BS / N; ++k) { q.push(E(id, ++stamp)); m.push_back(stamp); }
        else for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.front(), m.front(), "front"); HAS(q.back(), m.back(), "back"); q.pop(); m.pop_front(); }
        PBT_EQ(q.size(), m.size(), WHO("size"));
        did(n, m.size());
    }
    void verify() { while (!m.empty()) { HAS(q.front(), m.front(), "front"); q.pop(); m.pop_front(); } PBT_CHECK(q.empty(), WHO("not empty")); }
};

template <unsigned N, unsigned BS>
struct SequenceActor : Actor
{
    typedef El<N> E;
    stxxl::sequence<E, BS> q; std::deque<uint32_t> m;
    SequenceActor(uint32_t i, uint64_t s) : Actor(i, s, "sequence") { }
    void step()
    {
        uint32_t n = 1 + rnd(4 * BS / N);
        switch (rnd(5)) {
        case 0: case 1: for (uint32_t k = 0; k < n && m.size() < 30 * BS / N; ++k) { q.push_back(E(id, ++stamp)); m.push_back(stamp); } break;
        case 2: for (uint32_t k = 0; k < n && m.size() < 30 * BS / N; ++k) { q.push_front(E(id, ++stamp)); m.push_front(stamp); } break;
        case 3: for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.front(), m.front(), "front"); q.pop_front(); m.pop_front(); } break;
        case 4: for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.back(), m.back(), "back"); q.pop_back(); m.pop_back(); } break;
        }
        did(n, m.size());
    }
    void verify()
    {
        PBT_EQ(q.size(), m.size(), WHO("size"));
        size_t k = 0;
        for (auto s = q.get_stream(); !s.empty(); s.operator ++ (), ++k) HAS(*s, m[k], "element " << k);
        PBT_EQ(k, m.size(), WHO("streamed elements"));
    }
};

template <unsigned N, unsigned BS>
struct DequeActor : Actor
{
    typedef El<N> E;
    typedef typename stxxl::VECTOR_GENERATOR<E, 1, 3, BS, stxxl::FR>::result V;
    stxxl::deque<E, V> q; std::deque<uint32_t> m;
    DequeActor(uint32_t i, uint64_t s) : Actor(i, s, "deque") { }
    void step()
    {
        uint32_t n = 1 + rnd(3 * BS / N);
        switch (rnd(6)) {
        case 0: case 1: for (uint32_t k = 0; k < n && m.size() < 20 * BS / N; ++k) { q.push_back(E(id, ++stamp)); m.push_back(stamp); } break;
        case 2: for (uint32_t k = 0; k < n && m.size() < 20 * BS / N; ++k) { q.push_front(E(id, ++stamp)); m.push_front(stamp); } break;
        case 3: for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.front(), m.front(), "front"); q.pop_front(); m.pop_front(); } break;
        case 4: for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.back(), m.back(), "back"); q.pop_back(); m.pop_back(); } break;
        case 5: for (uint32_t k = 0; k < 40 && !m.empty(); ++k) { uint32_t i = rnd((uint32_t)m.size()); q[i] = E(id, ++stamp); m[i] = stamp; } break;
        }
        did(n, m.size());
    }
    void verify() { PBT_EQ(q.size(), m.size(), WHO("size")); for (size_t k = 0; k < m.size(); ++k) HAS(q[k], m[k], "element " << k); }
};

template <class S, unsigned N, unsigned BS>
struct StackActor : Actor
{
    typedef El<N> E;
    S q; std::vector<uint32_t> m;
    StackActor(uint32_t i, uint64_t s) : Actor(i, s, "stack") { }
    void step()
    {
        uint32_t n = 1 + rnd(6 * BS / N);
        if (rnd(5) < 3) for (uint32_t k = 0; k < n && m.size() < 40 * BS / N; ++k) { q.push(E(id, ++stamp)); m.push_back(stamp); }
        else for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.top(), m.back(), "top"); q.pop(); m.pop_back(); }
        PBT_EQ(q.size(), m.size(), WHO("size"));
        did(n, m.size());
    }
    void verify() { while (!m.empty()) { HAS(q.top(), m.back(), "top"); q.pop(); m.pop_back(); } PBT_CHECK(q.empty(), WHO("not empty")); }
};
template <unsigned N, unsigned BS>
struct PoolStackActor : Actor
{
    typedef El<N> E;
    typedef typename stxxl::STACK_GENERATOR<E, stxxl::external, stxxl::grow_shrink2, 1, BS, std::stack<E>, 1, stxxl::SR>::result S;
    stxxl::read_write_pool<typename S::block_type> pool; S a, b; std::vector<uint32_t> m[2];   // two stacks over one pool
    PoolStackActor(uint32_t i, uint64_t s) : Actor(i, s, "stacks over a pool"), pool(2, 3), a(pool, 1), b(pool) { }
    void step()
    {
        uint32_t n = 1 + rnd(6 * BS / N);
        unsigned w = rnd(2); S& q = w ? a : b;
        if (rnd(5) < 3) for (uint32_t k = 0; k < n && m[w].size() < 40 * BS / N; ++k) { q.push(E(id, ++stamp)); m[w].push_back(stamp); }
        else for (uint32_t k = 0; k < n && !m[w].empty(); ++k) { HAS(q.top(), m[w].back(), "top"); q.pop(); m[w].pop_back(); }
        did(n, m[0].size() + m[1].size());
    }
    void verify() { for (unsigned w = 0; w < 2; ++w) { S& q = w ? a : b; while (!m[w].empty()) { HAS(q.top(), m[w].back(), "top"); q.pop(); m[w].pop_back(); } PBT_CHECK(q.empty(), WHO("not empty")); } }
};

struct LessU { bool operator () (uint32_t a, uint32_t b) const { return a < b; } static uint32_t max_value() { return 0xffffffffu; } static uint32_t min_value() { return 0; } };
template <unsigned N, unsigned NB, unsigned LB>
struct MapActor : Actor
{
    typedef El<N> E;
    typedef stxxl::map<uint32_t, E, LessU, NB, LB> M;
    M q; std::map<uint32_t, uint32_t> m;
    MapActor(uint32_t i, uint64_t s) : Actor(i, s, "map"), q(3 * NB, 3 * LB) { }
    void step()
    {
        for (unsigned k = 0; k < 150; ++k) {
            uint32_t key = rnd(20000);
            switch (rnd(4)) {
            case 0: case 1: { uint32_t v = ++stamp; bool in = q.insert(std::make_pair(key, E(id, v))).second; PBT_EQ(in, m.insert({ key, v }).second, WHO("inserted")); } break;
            case 2: { auto f = m.lower_bound(key); if (f != m.end()) { PBT_EQ((unsigned)q.erase(f->first), 1u, WHO("erased")); m.erase(f); } } break;
            case 3: { auto f = m.lower_bound(key); auto g = q.lower_bound(key); PBT_EQ(g == q.end(), f == m.end(), WHO("lower bound")); if (f != m.end()) { PBT_EQ(g->first, f->first, WHO("key")); HAS(g->second, f->second, "datum"); } } break;
            }
        }
        did(150, m.size());
    }
    void verify() { PBT_EQ(q.size(), m.size(), WHO("size")); auto g = q.begin(); for (auto& e : m) { PBT_EQ(g->first, e.first, WHO("key")); HAS(g->second, e.second, "datum"); ++g; } PBT_CHECK(g == q.end(), WHO("end")); }
};
struct HashU { size_t operator () (uint32_t k) const { return (size_t)k * 0x9E3779B97F4A7C15ull; } };
template <unsigned N>
struct HashActor : Actor
{
    typedef El<N> E;
    typedef stxxl::unordered_map<uint32_t, E, HashU, LessU, 4096, 4> M;
    M q; std::unordered_map<uint32_t, uint32_t> m;
    HashActor(uint32_t i, uint64_t s) : Actor(i, s, "unordered_map"), q(0, HashU(), LessU(), 40 * sizeof(stxxl::hash_map::node<typename M::value_type>)) { }
    void step()
    {
        for (unsigned k = 0; k < 60; ++k) {
            uint32_t key = 1 + rnd(700);
            switch (rnd(4)) {
            case 0: case 1: { uint32_t v = ++stamp; bool in = q.insert(typename M::value_type(key, E(id, v))).second; PBT_EQ(in, m.insert({ key, v }).second, WHO("inserted")); } break;
            case 2: PBT_EQ((size_t)q.erase(key), m.erase(key), WHO("erased")); break;
            case 3: { auto f = m.find(key); typename M::const_iterator g = const_cast<const M&>(q).find(key); PBT_EQ(g == const_cast<const M&>(q).end(), f == m.end(), WHO("found")); if (f != m.end()) { typename M::value_type w = *g; HAS(w.second, f->second, "datum"); } } break;
            }
        }
        did(60, m.size());
    }
    void verify()
    {
        PBT_EQ((size_t)q.size(), m.size(), WHO("size"));
        for (auto& e : m) { typename M::const_iterator g = const_cast<const M&>(q).find(e.first); PBT_CHECK(g != const_cast<const M&>(q).end(), WHO("key lost")); typename M::value_type w = *g; HAS(w.second, e.second, "datum"); }
    }
};

template <unsigned N>
struct PqActor : Actor
{
    typedef El<N> E;
    typedef stxxl::priority_queue<stxxl::priority_queue_config<E, MoreEl<N>, 16, 64, 8, 2, 4096, 4, 2> > Q;
    typename Q::pool_type pool; Q q; std::multiset<uint32_t> m;
    PqActor(uint32_t i, uint64_t s) : Actor(i, s, "priority queue"), pool(2, 3), q(pool) { }
    void step()
    {
        uint32_t n = 1 + rnd(400);
        if (rnd(5) < 3) for (uint32_t k = 0; k < n && m.size() < 6000; ++k) { uint32_t v = 1 + rnd(1000000); q.push(E(id, v)); m.insert(v); }
        else for (uint32_t k = 0; k < n && !m.empty(); ++k) { HAS(q.top(), *m.begin(), "top"); q.pop(); m.erase(m.begin()); }
        PBT_EQ((size_t)q.size(), m.size(), WHO("size"));
        did(n, m.size());
    }
    void verify() { while (!m.empty()) { HAS(q.top(), *m.begin(), "top"); q.pop(); m.erase(m.begin()); } PBT_CHECK(q.empty(), WHO("not empty")); }
};

template <unsigned N, unsigned BS>
struct SorterActor : Actor
{
    typedef El<N> E;
    typedef stxxl::sorter<E, LessEl<N>, BS> S;
    S q; std::vector<uint32_t> m; bool out; size_t at;
    SorterActor(uint32_t i, uint64_t s) : Actor(i, s, "sorter"), q(LessEl<N>(i), 8 * BS, 24 * BS), out(false), at(0) { }
    void step()
    {
        uint32_t n = 1 + rnd(6 * BS / N);
        if (!out) {
            for (uint32_t k = 0; k < n && m.size() < 40 * BS / N; ++k) { uint32_t v = 1 + rnd(1000000); q.push(E(id, v)); m.push_back(v); }
            if (rnd(4) == 0) { q.sort(); std::sort(m.begin(), m.end()); out = true; at = 0; }
        }
        else {
            for (uint32_t k = 0; k < n && at < m.size(); ++k, ++q, ++at) HAS(*q, m[at], "element " << at);
            if (at == m.size()) { PBT_CHECK(q.empty(), WHO("not at the end")); if (rnd(2)) { q.clear(); m.clear(); out = false; } else { q.rewind(); at = 0; } }
        }
        did(n, m.size());
    }
    void verify() { if (!out) { q.sort(); std::sort(m.begin(), m.end()); at = 0; out = true; } for ( ; at < m.size(); ++at, ++q) HAS(*q, m[at], "element " << at); PBT_CHECK(q.empty(), WHO("not at the end")); }
};

// blocks straight from the block manager
template <unsigned BS, class AS>
struct BlockActor : Actor
{
    typedef El<64> E;
    typedef stxxl::typed_block<BS, E> block;
    typedef typename block::bid_type bid;
    std::vector<bid> bids; std::vector<uint32_t> m; AS as;
    std::unique_ptr<block> buf;
    BlockActor(uint32_t i, uint64_t s) : Actor(i, s, "blocks"), buf(new block) { }
    void fill(uint32_t v) { for (unsigned i = 0; i < block::size; ++i) (*buf)[i] = E(id, v + i); }
    void test(uint32_t v) { for (unsigned i = 0; i < block::size; ++i) HAS((*buf)[i], v + i, "element " << i << " of a block"); }
    void step()
    {
        if (rnd(5) < 3) {
            size_t n = 1 + rnd(6), old = bids.size();
            bids.resize(old + n);
            stxxl::block_manager::get_instance()->new_blocks(as, bids.begin() + old, bids.end(), old);
            for (size_t k = old; k < old + n; ++k) { m.push_back(stamp); fill(stamp); stamp += block::size; buf->write(bids[k])->wait(); }
        }
        else if (!bids.empty()) {
            size_t n = 1 + rnd((uint32_t)bids.size()), f = bids.size() - n;
            for (size_t k = f; k < bids.size(); ++k) { buf->read(bids[k])->wait(); test(m[k]); }
            stxxl::block_manager::get_instance()->delete_blocks(bids.begin() + f, bids.end());
            bids.resize(f); m.resize(f);
        }
        did(1, bids.size() * block::size);
    }
    void verify() { for (size_t k = 0; k < bids.size(); ++k) { buf->read(bids[k])->wait(); test(m[k]); } }
    ~BlockActor() { stxxl::block_manager::get_instance()->delete_blocks(bids.begin(), bids.end()); }
};

// a matrix over its own scheduler
struct MatrixActor : Actor
{
    typedef uint64_t T; enum { B = 32 };
    typedef stxxl::block_scheduler<stxxl::matrix_swappable_block<T, B> > BSch;
    typedef stxxl::matrix<T, B> M;
    BSch bs; std::unique_ptr<M> a; int h, w; std::vector<T> m;
    MatrixActor(uint32_t i, uint64_t s) : Actor(i, s, "matrix"), bs(12 * B * B * sizeof(T)) { h = 10 + (int)rnd(60); w = 10 + (int)rnd(60); a.reset(new M(bs, h, w)); m.assign((size_t)h * w, 0); }
    void step()
    {
        switch (rnd(3)) {
        case 0: { int r = (int)rnd(h); for (auto it = M::row_major_iterator((*a)(r, 0)); ; ++it) { if (it.empty() || it.get_row() != r) break; T v = (uint64_t)id << 40 | ++stamp; *it = v; m[(size_t)r * w + it.get_col()] = v; } } break;
        case 1: { M t(bs, h, w); t += *a; t += *a; *a = t; for (auto& v : m) v += v; } break;
        case 2: a->transpose(); { std::vector<T> n(m.size()); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) n[(size_t)j * h + i] = m[(size_t)i * w + j]; m = n; std::swap(h, w); } break;
        }
        did(h, m.size());
    }
    void verify() { size_t k = 0; for (M::const_row_major_iterator i = a->cbegin(); !i.empty(); ++i, ++k) PBT_EQ((T)*i, m[k], WHO("element " << k)); PBT_EQ(k, m.size(), WHO("elements")); }
};

// a pipeline of streams: materialized sorted runs
struct StreamActor : Actor
{
    typedef El<40> E; enum { BS = 4096 };
    typedef stxxl::VECTOR_GENERATOR<E, 1, 2, BS>::result V;
    StreamActor(uint32_t i, uint64_t s) : Actor(i, s, "streams") { }
    struct In
    {
        typedef E value_type;
        StreamActor* a; size_t n; E cur; std::vector<uint32_t>* m;
        In(StreamActor* a_, size_t n_, std::vector<uint32_t>* m_) : a(a_), n(n_), m(m_) { next(); }
        void next() { if (n) { uint32_t v = 1 + a->rnd(1 << 20); m->push_back(v); cur = E(a->id, v); } }
        const E& operator * () const { return cur; }
        const E* operator -> () const { return &cur; }
        In& operator ++ () { --n; next(); return *this; }
        bool empty() const { return n == 0; }
    };
    void step()
    {
        size_t n = 1 + rnd(30 * BS / 40);
        std::vector<uint32_t> m;
        In in(this, n, &m);
        typedef stxxl::stream::sort<In, LessEl<40>, BS> Sort;
        Sort sort(in, LessEl<40>(id), 24 * BS);
        V v(n);
        V::iterator e = stxxl::stream::materialize(sort, v.begin(), v.end());
        PBT_CHECK(e == v.end(), WHO("end of materialize"));
        std::sort(m.begin(), m.end());
        size_t k = 0;
        for (V::const_iterator i = v.cbegin(); i != v.cend(); ++i, ++k) HAS(*i, m[k], "element " << k);
        did(n, n);
    }
    void verify() { }
};

struct LruTag { }; struct RandomTag { char c[2]; };
Actor* make(unsigned kind, uint32_t id, uint64_t seed)
{
    switch (kind) {
    case 0: return new VectorActor<16, 2, 3, 4096, stxxl::RC, LruTag>(id, seed);
    case 1: return new VectorActor<64, 1, 2, 8192, stxxl::striping, RandomTag>(id, seed);
    case 2: return new VectorActor<512, 4, 2, 4096, stxxl::SR, LruTag>(id, seed);
    case 3: return new QueueActor<stxxl::queue<El<64>, 4096>, 64, 4096>(id, seed);
    case 4: return new QueueActor<stxxl::queue<El<128>, 16384, stxxl::FR>, 128, 16384>(id, seed);
    case 5: return new SequenceActor<64, 4096>(id, seed);
    case 6: return new DequeActor<64, 4096>(id, seed);
    case 7: return new StackActor<stxxl::STACK_GENERATOR<El<64>, stxxl::external, stxxl::normal, 2, 4096>::result, 64, 4096>(id, seed);
    case 8: return new StackActor<stxxl::STACK_GENERATOR<El<64>, stxxl::external, stxxl::grow_shrink, 2, 4096>::result, 64, 4096>(id, seed);
    case 9: return new StackActor<stxxl::STACK_GENERATOR<El<64>, stxxl::migrating, stxxl::normal, 1, 4096, std::stack<El<64> >, 100>::result, 64, 4096>(id, seed);
    case 10: return new PoolStackActor<64, 4096>(id, seed);
    case 11: return new MapActor<32, 4096, 4096>(id, seed);
    case 12: return new MapActor<100, 4096, 8192>(id, seed);
    case 13: return new HashActor<24>(id, seed);
    case 14: return new PqActor<24>(id, seed);
    case 15: return new SorterActor<64, 4096>(id, seed);
    case 16: return new SorterActor<32, 8192>(id, seed);
    case 17: return new BlockActor<4096, stxxl::striping>(id, seed);
    case 18: return new BlockActor<65536, stxxl::RC>(id, seed);
    case 19: return new MatrixActor(id, seed);
    default: return new StreamActor(id, seed);
    }
}
enum { KINDS = 21 };
} // namespace

// one thread: operations of the containers interleaved, some destroyed and created on the way
static void interleaved(pbt::Src& s)
{
    stx::Opt o; o.allow_slow = s.chance(1, 4);
    stx::setup(s, o);
    unsigned n = (unsigned)s.range(2, 6);
    std::vector<std::unique_ptr<Actor> > a;
    uint32_t id = 1;
    auto fresh = [&]() { unsigned k = (unsigned)s.raw(KINDS); uint64_t seed = s.raw(1u << 20); Actor* x = make(k, id++, seed); PBT_NOTE("[" << x->id << ": " << x->name << " " << k << "]"); return x; };
    for (unsigned i = 0; i < n; ++i) a.emplace_back(fresh());
    unsigned steps = (unsigned)s.range(1, 60), replaced = 0;
    uint64_t ops = 0; unsigned large = 0;
    for (unsigned i = 0; i < steps; ++i) {
        unsigned k = (unsigned)s.raw(a.size());
        switch (s.weighted({ 30, 1, 2 })) {
        case 0: a[k]->step(); break;
        case 1: PBT_NOTE("verify " << a[k]->id); a[k]->verify(); ops += a[k]->ops; a[k].reset(); a[k].reset(fresh()); ++replaced; break;
        case 2: PBT_NOTE("drop " << a[k]->id); ops += a[k]->ops; a[k].reset(); a[k].reset(fresh()); ++replaced; break;
        }
    }
    while (!a.empty()) {
        size_t k = s.raw(a.size());
        ops += a[k]->ops; large += a[k]->peak > 100;
        if (s.chance(3, 4)) a[k]->verify();
        a.erase(a.begin() + k);
    }
    pbt::ops(ops);
    stx::check_no_blocks("after everything was destroyed");
    if (large > 1) pbt::nontrivial();
    pbt::label("replaced", replaced);
}
PBT_TARGET_F(interleaved, 700, 12000, 1, interleaved);

// several threads, each with containers of its own
static void threads(pbt::Src& s)
{
    stx::Opt o; o.max_threads = 2;
    stx::setup(s, o);
    unsigned n = (unsigned)s.range(2, 5);
    struct Plan { std::vector<unsigned> kinds; std::vector<uint64_t> seeds; std::vector<uint32_t> script; std::vector<uint64_t> done; unsigned first; };
    std::vector<Plan> p(n);
    unsigned id = 1;
    for (auto& x : p) {
        unsigned k = (unsigned)s.range(1, 3);
        x.first = id;
        for (unsigned i = 0; i < k; ++i) { x.kinds.push_back((unsigned)s.raw(KINDS)); x.seeds.push_back(s.raw(1u << 20)); PBT_NOTE("[" << id << ": kind " << x.kinds.back() << "]"); ++id; }
        PBT_NOTE("|");
        unsigned steps = (unsigned)s.range(1, 30);
        for (unsigned i = 0; i < steps; ++i) x.script.push_back((uint32_t)s.raw(k * 16));
    }
    std::vector<std::thread> th;
    std::vector<uint64_t> ops(n, 0);
    auto run = [&](unsigned t) {
        Plan& x = p[t];
        std::vector<std::unique_ptr<Actor> > a;
        for (size_t i = 0; i < x.kinds.size(); ++i) a.emplace_back(make(x.kinds[i], x.first + (uint32_t)i, x.seeds[i]));
        for (uint32_t c : x.script) {
            unsigned k = c / 16;
            if (c % 16 == 15) { ops[t] += a[k]->ops; a[k].reset(); a[k].reset(make(x.kinds[k], x.first + k, x.seeds[k])); }
            else a[k]->step();
        }
        for (auto& y : a) { y->verify(); ops[t] += y->ops; }
    };
    for (unsigned t = 1; t < n; ++t) th.emplace_back(run, t);
    run(0);
    for (auto& t : th) t.join();
    uint64_t total = 0; for (uint64_t x : ops) total += x;
    pbt::ops(total);
    stx::check_no_blocks("after all threads ended");
    if (total > 500) pbt::nontrivial();
}
PBT_TARGET_F(threads, 700, 12000, 1, threads);
