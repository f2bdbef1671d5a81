// The parallel priority queue against an ordered multiset.
#include "common.hpp"
#include <stxxl/bits/containers/parallel_priority_queue.h>
#include <omp.h>
#include <map>
#include <memory>
#include <set>

template <unsigned PAD> struct Item
{
    int32_t key;
    uint32_t id;
    unsigned char pad[PAD];
    Item() { }
    Item(int32_t k, uint32_t i) : key(k), id(i) { for (unsigned j = 0; j < PAD; ++j) pad[j] = (unsigned char)(i * 31 + j * 7 + (unsigned)k); }
    bool sound() const { Item o(key, id); return memcmp(pad, o.pad, PAD) == 0; }
    friend std::ostream& operator << (std::ostream& os, const Item& i) { return os << i.key; }
};
// greatest (Max) or smallest key first
template <class I, bool Max> struct Cmp { bool operator () (const I& a, const I& b) const { return Max ? a.key < b.key : b.key < a.key; } };

template <unsigned PAD, bool Max, unsigned BS>
struct Ppq
{
    typedef Item<PAD> I;
    typedef stxxl::parallel_priority_queue<I, Cmp<I, Max>, STXXL_DEFAULT_ALLOC_STRATEGY, BS, 64 * 1024 * 1024> Q;
    typedef std::map<int32_t, std::set<uint32_t> > Model;
    pbt::Src& s;
    std::unique_ptr<Q> q;
    Model m;
    uint64_t sz, pops, most, eb, heap_items, ram;
    uint32_t id;
    unsigned heaps;
    int32_t cursor;
    bool ext;
    explicit Ppq(pbt::Src& x) : s(x), sz(0), pops(0), most(0), id(1), cursor(0), ext(false) { }

    int32_t front() const { return Max ? m.rbegin()->first : m.begin()->first; }
    static bool before(int32_t a, int32_t b) { return Max ? a > b : a < b; }
    void note(int32_t k) { m[k].insert(id++); ++sz; most = std::max(most, sz); }
    // the element that is taken out, or taken a look at
    void match(const I& t, const char* what, bool out)
    {
        PBT_CHECK(sz, what << ": an element of an empty queue");
        int32_t want = front();
        PBT_CHECK(t.key == want, what << ": of " << sz << " elements has key " << t.key << " instead of " << want);
        std::set<uint32_t>& ids = m[want];
        PBT_CHECK(ids.count(t.id), what << ": element " << t.id << " with key " << want << " was never inserted or was taken out before");
        PBT_CHECK(t.sound(), what << ": contents of element " << t.id << " changed");
        if (!out) return;
        ids.erase(t.id);
        if (ids.empty()) m.erase(want);
        --sz; ++pops;
    }
    void create()
    {
        heaps = (unsigned)s.range(1, 4);
        uint64_t single = sizeof(I) * (s.chance(1, 2) ? s.range(1, 40) : s.range(41, 400));
        heap_items = single / sizeof(I);
        // a few blocks are needed for reading and writing, and the heaps
        unsigned write = (unsigned)s.range(1, 16);
        uint64_t need = heaps * single * 5 + 64 * BS + (uint64_t)std::max<unsigned>(3 * std::max<unsigned>(heaps, stxxl::ppq_local::max_merge_threads()), 4) * 2 * BS + write * BS;
        ram = need + s.size(64, 8) * (uint64_t)BS;
        eb = s.chance(1, 3) ? 0 : sizeof(I) * s.range(2, 600);
        float read = s.pick({ 1.0f, 1.5f, 1.5f, 2.0f, 3.0f, 4.0f });
        PBT_NOTE("heaps " << heaps << "x" << heap_items << " ram " << ram << " read " << read << " write " << write << " extract " << eb / sizeof(I) << " threads " << omp_get_max_threads() << ";");
        q.reset(new Q(Cmp<I, Max>(), ram, read, write, heaps, single, eb));
        if (eb == 0) eb = (uint64_t)((double)ram * 0.05 / sizeof(I)); else eb /= sizeof(I);
        q->c_max_internal_level_size = s.pick({ 4u, 4u, 5u, 8u, 64u });
        q->c_max_external_level_size = s.pick({ 4u, 4u, 5u, 8u, 64u });
        PBT_NOTE("levels " << q->c_max_internal_level_size << "," << q->c_max_external_level_size << ";");
    }
    int32_t draw(unsigned dist, uint64_t x)
    {
        switch (dist) {
        case 0: return (int32_t)(x % 41) - 20;
        case 1: return (int32_t)(x >> 7);
        case 2: return cursor += 1;
        case 3: return cursor -= 1;
        case 4: { int32_t f = m.empty() ? 0 : front(); int32_t d = (int32_t)(x % 50); return Max ? f - d : f + d; }
        case 5: { int32_t f = m.empty() ? 0 : front(); return f + (int32_t)(x % 101) - 50; }
        case 6: return 7;
        default: return x & 64 ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int32_t>::max();
        }
    }
    void sizes()
    {
        PBT_EQ((uint64_t)q->size(), sz, "size");
        PBT_EQ(q->empty(), sz == 0, "empty");
        if (stx::used_bytes()) ext = true;
    }
    void run()
    {
        stx::setup(s);
        omp_set_num_threads((int)s.range(1, 4));
        create();
        const uint64_t cap = 40 * ram / sizeof(I) / 10;
        for (unsigned phases = (unsigned)s.range(1, 14); phases; --phases) {
            unsigned dist = (unsigned)s.weighted({ 4, 4, 2, 2, 3, 2, 1, 1 });
            uint64_t n = s.chance(1, 5) ? s.range(1, 3) : s.chance(1, 3) ? heap_items * s.range(1, 4) + s.raw(3) : s.size(cap, heap_items * 4);
            uint64_t x = s.raw(1u << 16) * 0x9E3779B97F4A7C15ull + 12345;
            auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
            auto room = [&]() { return sz < cap && m.size() + sz < 60000; };
            switch (s.weighted({ 4, 3, 3, 4, 2, 2, 3, 1, 1 })) {
            case 0: {
                PBT_NOTE("push " << n << " dist " << dist << ";");
                bool spread = s.chance(1, 2);
                for (uint64_t i = 0; i < n && room(); ++i) { int32_t k = draw(dist, rnd()); q->push(I(k, id), spread ? (unsigned)(i % heaps) : 0); note(k); }
            } break;
            case 1:
                PBT_NOTE("pop " << n << ";");
                for (uint64_t i = 0; i < n && sz; ++i) {
                    if (i % 3 == 0 || i < 50) match(q->top(), "top", false);
                    I t = q->top(); q->pop(); match(t, "pop", true);
                }
                break;
            case 2: {
                unsigned up = 1 + (unsigned)s.raw(8);
                PBT_NOTE("mix " << n << " up " << up << " dist " << dist << ";");
                for (uint64_t i = 0; i < n; ++i) {
                    if ((rnd() >> 5) % 9 < up) { if (room()) { int32_t k = draw(dist, rnd()); q->push(I(k, id), (unsigned)(rnd() % heaps)); note(k); } }
                    else if (sz) { I t = q->top(); q->pop(); match(t, "pop", true); }
                    if (i % 16 == 0) PBT_EQ((uint64_t)q->size(), sz, "size");
                }
            } break;
            case 3: {
                bool par = s.chance(1, 2);
                PBT_NOTE("bulk push " << n << " dist " << dist << (par ? " parallel;" : ";"));
                std::vector<int32_t> keys;
                uint32_t first = id;
                for (uint64_t i = 0; i < n && room(); ++i) { int32_t k = draw(dist, rnd()); keys.push_back(k); note(k); }
                q->bulk_push_begin(keys.size());
                if (par) {
                    #pragma omp parallel for num_threads(heaps)
                    for (long i = 0; i < (long)keys.size(); ++i) q->bulk_push(I(keys[i], first + (uint32_t)i));
                }
                else for (size_t i = 0; i < keys.size(); ++i) q->bulk_push(I(keys[i], first + (uint32_t)i), (unsigned)(rnd() % heaps));
                q->bulk_push_end();
            } break;
            case 4: {
                uint64_t k = std::min<uint64_t>(n, eb > 1 ? eb - 1 : 0);
                PBT_NOTE("bulk pop " << k << ";");
                std::vector<I> out(3);
                q->bulk_pop(out, k);
                PBT_CHECK(out.size() <= k, "bulk_pop of up to " << k << " elements yields " << out.size());
                PBT_CHECK(!out.empty() || sz == 0 || k == 0, "bulk_pop of up to " << k << " of " << sz << " elements yields none");
                for (auto& t : out) match(t, "bulk_pop", true);
            } break;
            case 5: {
                int32_t limit = s.chance(1, 2) && sz ? pickkey() : draw(dist, rnd());
                PBT_NOTE("bulk pop limit " << limit);
                for (unsigned rounds = 0; ; ++rounds) {
                    std::vector<I> out(2);
                    uint64_t max = s.chance(1, 2) ? std::numeric_limits<size_t>::max() : s.range(1, 300);
                    bool all = q->bulk_pop_limit(out, I(limit, 0), max);
                    PBT_NOTE(" " << out.size() << (all ? " all" : ""));
                    PBT_CHECK(out.size() <= max, "more elements than asked for");
                    for (auto& t : out) { PBT_CHECK(before(t.key, limit), "bulk_pop_limit " << limit << " yields key " << t.key); match(t, "bulk_pop_limit", true); }
                    bool more = sz && before(front(), limit);
                    PBT_CHECK(!all || !more, "bulk_pop_limit: not all elements before " << limit << " were taken, next is " << front());
                    PBT_CHECK(all || !out.empty(), "bulk_pop_limit neither takes an element nor tells that there is none");
                    if (all || rounds > 60 || s.chance(1, 5)) break;
                }
                PBT_NOTE(";");
            } break;
            case 6: {
                // elements before the limit are taken, others are inserted
                int32_t limit = s.chance(2, 3) && sz ? pickkey() : draw(dist, rnd());
                uint64_t k = std::min<uint64_t>(n, 2000), pushes = 0;
                PBT_NOTE("limit session " << limit << " of " << k << ";");
                q->limit_begin(I(limit, 0), k);
                for (uint64_t i = 0; i < k; ++i) {
                    if (rnd() % 3 == 0 || pushes * 2 > i) {
                        const I& t = q->limit_top();
                        if (sz && before(front(), limit)) {
                            I c = t;
                            q->limit_pop();
                            match(c, "limit_top", true);
                        }
                        else PBT_CHECK(t.key == limit, "limit_top is " << t.key << " instead of the limit " << limit);
                    }
                    else if (room()) {
                        int64_t d = dist == 0 ? (int64_t)(rnd() % 3) : (int64_t)(rnd() % 1000), y = Max ? limit - d : limit + d;
                        int32_t key = y < std::numeric_limits<int32_t>::min() || y > std::numeric_limits<int32_t>::max() ? limit : (int32_t)y;
                        q->limit_push(I(key, id), (unsigned)(rnd() % heaps)); note(key);
                        ++pushes;
                    }
                }
                q->limit_end();
            } break;
            case 7: if (ext && s.chance(1, 2)) { PBT_NOTE("merge;"); q->merge_external_arrays(); } break;
            default: PBT_NOTE("take all;"); while (sz) { I t = q->top(); q->pop(); match(t, "pop", true); } break;
            }
            sizes();
            if (sz && s.chance(1, 2)) match(q->top(), "top", false);
            pbt::ops(n);
            PBT_CHECK(q->memory_consumption() <= ram, "more memory is in use (" << q->memory_consumption() << ") than the queue was given (" << ram << ")");
        }
        if (s.chance(3, 4)) { while (sz) { I t = q->top(); q->pop(); match(t, "pop", true); } sizes(); }
        q.reset();
        stx::check_no_blocks("after the queue is gone");
        if (ext && pops > 2 * heap_items) pbt::nontrivial();
    }
    int32_t pickkey()
    {
        auto i = m.begin();
        std::advance(i, s.raw(m.size() > 2000 ? 2000 : m.size()));
        return i->first;
    }
};
template <unsigned P, bool M, unsigned BS> static void history(pbt::Src& s) { Ppq<P, M, BS> p(s); p.run(); }
#if PART == 0
PBT_TARGET_F(max_128, 400, 8000, 1, (history<120, true, 4096>));
#elif PART == 1
PBT_TARGET_F(min_16, 300, 8000, 1, (history<8, false, 4096>));
// (arrays in external memory keep the first element of each block in RAM, so blocks hold some 30 elements)
PBT_TARGET_F(max_1000, 200, 6000, 1, (history<1000, true, 32768>));
#endif
