// Buffered block streams, prefetching and the read/write pools against the sequence of blocks they stand for.
#include "common.hpp"
#include <slowfile.hpp>
#include <perturb.hpp>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_writer.h>
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/algo/async_schedule.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <memory>

enum { B = 4096 };

struct Disks
{
    std::vector<std::unique_ptr<slow_file> > f;
    std::vector<stxxl::BID<B> > bids;          // the blocks there are, in a drawn order
    void make(pbt::Src& s, unsigned nblocks)
    {
        // the block manager's disks are only there to give the library its device numbers
        stxxl::config* cfg = stxxl::config::get_instance();
        unsigned nd = (unsigned)s.range(1, 4), us = s.pick({ 0u, 20u, 60u, 200u });
        for (unsigned i = 0; i < nd; ++i) { stxxl::disk_config c("", 1 << 16, "memory"); c.direct = stxxl::disk_config::DIRECT_OFF; cfg->add_disk(c); }
        unsigned md = 0;
        stxxl::block_manager::get_instance();
        bool anon = s.chance(1, 6);
        std::vector<unsigned> per(nd, 0);
        for (unsigned i = 0; i < nblocks; ++i) ++per[s.raw(nd)];
        for (unsigned i = 0; i < nd; ++i) {
            unsigned dev = anon ? stxxl::file::DEFAULT_DEVICE_ID : (unsigned)s.raw(nd);
            if (!anon) { stxxl::config::get_instance()->update_max_device_id(dev); md = std::max(md, dev); }
            f.emplace_back(new slow_file((uint64_t)B * nblocks, 10 + (s.chance(1, 2) ? (int)i : 0), dev, s.raw(1 << 20), us));
            for (unsigned j = 0; j < per[i]; ++j) bids.push_back(stxxl::BID<B>(f[i].get(), (int64_t)B * j));
        }
        for (size_t i = bids.size(); i > 1; --i) std::swap(bids[i - 1], bids[s.raw(i)]);
        perturb::seed = s.raw(1 << 20) + 1;
        perturb::level = s.pick({ 0u, 0u, 20u, 80u });
        PBT_NOTE("{" << nd << " disks, " << nblocks << " blocks, latency " << us << (anon ? " anonymous" : "") << "}");
    }
    ~Disks() { perturb::level = 0; }
};

typedef Rec<12> E;
typedef stxxl::typed_block<B, E> block;
typedef std::vector<stxxl::BID<B> >::iterator bit;

static block* raw_block(const stxxl::BID<B>& b) { return (block*)&dynamic_cast<slow_file*>(b.storage)->data[b.offset]; }

static void streams(pbt::Src& s)
{
    unsigned n = (unsigned)s.range(1, s.chance(1, 4) ? 60 : 14);
    Disks d;
    d.make(s, n);
    const uint64_t S = block::size;
    // write the stream
    uint64_t len = (uint64_t)n * S;
    uint32_t salt = (uint32_t)s.raw(1u << 20) << 8;
    std::vector<uint32_t> want(len);
    {
        int nb = (int)s.range(0, 12);
        PBT_NOTE("ostream " << nb << " buffers");
        stxxl::buf_ostream<block, bit> os(d.bids.begin(), nb);
        uint64_t i = 0;
        while (i < len) {
            pbt::ops();
            switch (s.weighted({ 6, 3, 1 })) {
            case 0: { uint64_t k = std::min<uint64_t>(len - i, s.range(1, 3 * S)); while (k--) { want[i] = salt + (uint32_t)i; os << E(want[i]); ++i; } break; }
            case 1: { uint64_t k = std::min<uint64_t>(len - i, s.range(1, S + 3)); while (k--) { want[i] = salt + (uint32_t)i; if (k & 1) *os = E(want[i]); else os.current() = E(want[i]); ++os; ++i; } break; }
            case 2: if (i % S) { PBT_NOTE("fill@" << i); os.fill(E(7)); while (i % S) want[i++] = 7; } break;
            }
        }
    }
    for (unsigned b = 0; b < n; ++b)
        for (uint64_t j = 0; j < S; ++j)
            PBT_EQ((*raw_block(d.bids[b]))[j].value(), (int64_t)want[b * S + j], "written element " << b * S + j);
    // read it back, perhaps only a part of it
    bool rev = s.chance(1, 2);
    unsigned from = s.chance(1, 3) ? (unsigned)s.raw(n) : 0, to = s.chance(1, 3) ? (unsigned)s.range(from + 1, n) : n;
    int nb = (int)s.range(1, 16);
    uint64_t take = s.chance(1, 5) ? s.raw((to - from) * S) : (to - from) * S;
    PBT_NOTE((rev ? "reverse " : "forward ") << "blocks [" << from << "," << to << ") " << nb << " buffers, reads " << take);
    if (!rev) {
        stxxl::buf_istream<block, bit> is(d.bids.begin() + from, d.bids.begin() + to, nb);
        for (uint64_t k = 0; k < take; ++k) {
            int64_t w = want[from * S + k];
            if (k % S == 0 && s.chance(1, 8)) { // a whole block
                for (uint64_t j = 0; j < S; ++j) PBT_EQ(is.block()[j].value(), (int64_t)want[from * S + k + j], "element of a block " << k + j);
                is.next_block();
                k += S - 1;
                continue;
            }
            if (k & 1) { PBT_EQ(is.current().value(), w, "element " << k); PBT_EQ((*is).value(), w, "element " << k); ++is; }
            else { E e; is >> e; PBT_EQ(e.value(), w, "element " << k); }
        }
    }
    else {
        stxxl::buf_istream_reverse<block, bit> is(d.bids.begin() + from, d.bids.begin() + to, nb);
        for (uint64_t k = 0; k < take; ++k) {
            int64_t w = want[to * S - 1 - k];
            if (k & 1) { PBT_EQ(is.current().value(), w, "element " << k << " from the end"); PBT_EQ((*is).value(), w, "element " << k); ++is; }
            else { E e; is >> e; PBT_EQ(e.value(), w, "element " << k << " from the end"); }
        }
    }
    for (auto& f : d.f) PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
    pbt::ops(take);
    if (n > 4 && take > 2 * S) pbt::nontrivial();
}
PBT_TARGET_F(streams, 1500, 20000, 1, streams);

// the writing engine and the prefetcher by themselves
static void engines(pbt::Src& s)
{
    unsigned n = (unsigned)s.range(1, s.chance(1, 4) ? 60 : 14);
    Disks d;
    d.make(s, n);
    std::map<unsigned, uint32_t> cur;
    uint32_t id = 1;
    auto put = [](block* b, uint32_t v) { for (unsigned j = 0; j < block::size; ++j) (*b)[j] = E(v * 1000 + j); };
    auto is = [](block* b, uint32_t v) { for (unsigned j = 0; j < block::size; ++j) if ((*b)[j].value() != v * 1000 + j) return false; return true; };
    {
        unsigned wb = (unsigned)s.range(0, 10), bs = (unsigned)s.raw(std::max(2u, wb));
        if (bs >= std::max(2u, wb)) bs = std::max(2u, wb) - 1;
        PBT_NOTE("writer " << wb << "/" << bs);
        stxxl::buffered_writer<block> w(wb, bs);
        block* b = w.get_free_block();
        unsigned k = (unsigned)s.range(1, 3 * n + 2);
        while (k--) {
            pbt::ops();
            unsigned at = (unsigned)s.raw(n);
            // writes of one place are ordered by flush()
            if (cur.count(at) && cur[at] & 0x80000000u) { w.flush(); for (auto& c : cur) { c.second &= 0x7fffffffu; PBT_CHECK(is(raw_block(d.bids[c.first]), c.second), "block " << c.first << " after flush"); } b = w.get_free_block(); PBT_NOTE("flush"); }
            put(b, ++id);
            cur[at] = id | 0x80000000u;
            PBT_NOTE("w" << at);
            b = w.write(b, d.bids[at]);
        }
        if (s.chance(1, 4)) { w.flush(); b = w.get_free_block(); for (auto& c : cur) { c.second &= 0x7fffffffu; PBT_CHECK(is(raw_block(d.bids[c.first]), c.second), "block " << c.first << " after flush"); } }
    }
    for (auto& c : cur) c.second &= 0x7fffffffu;
    for (auto& c : cur) PBT_CHECK(is(raw_block(d.bids[c.first]), c.second), "block " << c.first << " after the writer is gone");
    // consume blocks in a drawn order, with repetitions
    std::vector<unsigned> have;
    for (auto& c : cur) have.push_back(c.first);
    unsigned L = (unsigned)s.range(1, s.chance(1, 3) ? 50 : 10);
    std::vector<unsigned> seq;
    std::vector<stxxl::BID<B> > cons;
    for (unsigned i = 0; i < L; ++i) { seq.push_back(have[s.raw(have.size())]); cons.push_back(d.bids[seq.back()]); }
    unsigned nb = (unsigned)s.range(1, 12);
    std::vector<stxxl::int_type> ps(L);
    bool naive = s.chance(1, 4);
    if (naive) for (unsigned i = 0; i < L; ++i) ps[i] = i;
    else stxxl::compute_prefetch_schedule(cons.begin(), cons.end(), &ps[0], nb, stxxl::config::get_instance()->get_max_device_id());
    PBT_NOTE("prefetch " << L << " with " << nb << (naive ? " in order" : " scheduled"));
    std::atomic<unsigned> after(0);
    {
        struct Count { std::atomic<unsigned>* n; void operator () (stxxl::request*) { ++*n; } };
        stxxl::block_prefetcher<block, bit> p(cons.begin(), cons.end(), &ps[0], nb, stxxl::completion_handler(Count { &after }));
        PBT_CHECK(!p.empty(), "empty before the first block");
        block* b = p.pull_block();
        unsigned stop = s.chance(1, 4) ? (unsigned)s.raw(L) : L;
        for (unsigned i = 0; i < stop; ++i) {
            PBT_CHECK(is(b, cur[seq[i]]), "block " << i << " of the consumption sequence (place " << seq[i] << ") holds other data");
            PBT_EQ(p.pos(), i + 1u, "position");
            PBT_EQ(p.empty(), i + 1 == L, "empty after block " << i);
            bool more = p.block_consumed(b);
            PBT_EQ(more, i + 1 < L, "more blocks after block " << i);
        }
        if (stop == L) PBT_EQ(after.load(), L, "blocks fetched");
    }
    pbt::ops(L);
    for (auto& f : d.f) PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
    if (L > nb && cur.size() > 3) pbt::nontrivial();
}
PBT_TARGET_F(engines, 1500, 20000, 1, engines);

// pools: the latest version of a block is what a read delivers, wherever it is at the moment
static void pools(pbt::Src& s)
{
    unsigned n = (unsigned)s.range(1, 8);
    Disks d;
    d.make(s, n);
    auto put = [](block* b, uint32_t v) { for (unsigned j = 0; j < block::size; ++j) (*b)[j] = E(v * 1000 + j); };
    auto is = [](block* b, uint32_t v) { for (unsigned j = 0; j < block::size; ++j) if ((*b)[j].value() != v * 1000 + j) return false; return true; };
    std::vector<uint32_t> ver(n);
    uint32_t id = 0;
    for (unsigned i = 0; i < n; ++i) { put(raw_block(d.bids[i]), ver[i] = ++id); }
    typedef stxxl::read_write_pool<block> Pool;
    unsigned np = (unsigned)s.range(0, 5), nw = (unsigned)s.range(1, 5);
    Pool* pool = new Pool(np, nw);
    PBT_NOTE("pool " << np << " prefetch, " << nw << " write");
    int64_t total = np + nw;               // blocks owned by pool and us
    std::vector<block*> held;
    std::map<unsigned, bool> hinted;        // places the pool said it prefetches
    struct Out { unsigned at; block* b; stxxl::request_ptr r; uint32_t v; };
    std::deque<Out> out;                    // reads under way
    auto drain = [&](size_t i) {
        Out o = out[i]; out.erase(out.begin() + i);
        o.r->wait();
        PBT_CHECK(is(o.b, o.v), "read of place " << o.at << " delivers " << (*o.b)[0].value() / 1000 << ", expected version " << o.v);
        held.push_back(o.b);
    };
    auto drain_at = [&](unsigned at) { for (size_t i = 0; i < out.size(); ) if (out[i].at == at) drain(i); else ++i; };
    auto get = [&]() -> block* {
        if (held.size() && s.chance(1, 2)) { block* b = held.back(); held.pop_back(); return b; }
        if (pool->size_write() == 0) { if (held.size()) { block* b = held.back(); held.pop_back(); return b; } return 0; }
        return pool->steal();
    };
    unsigned nops = (unsigned)s.range(1, 60);
    unsigned writes = 0, reads = 0;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        unsigned at = (unsigned)s.raw(n);
        switch (s.weighted({ 8, 8, 8, 2, 3, 2, 2, 1, 1 })) {
        case 0: { // new version
            drain_at(at);
            block* b = get();
            if (!b) break;
            put(b, ++id);
            ver[at] = id;
            PBT_NOTE("write " << at << "=" << id);
            stxxl::request_ptr r = pool->write(b, d.bids[at]);
            PBT_CHECK(b == 0, "write() leaves the block with the caller");
            if (s.chance(1, 5)) { r->wait(); }
            if (hinted.count(at)) PBT_CHECK(pool->in_prefetching(d.bids[at]) || pool->free_size_prefetch() == 0, "a hint is lost by a write");
            if (!pool->in_prefetching(d.bids[at])) hinted.erase(at);
            ++writes;
            break;
        }
        case 1: { // read
            drain_at(at);
            block* b = get();
            if (!b) break;
            PBT_NOTE("read " << at);
            stxxl::request_ptr r = pool->read(b, d.bids[at]);
            hinted.erase(at);
            PBT_CHECK(!pool->in_prefetching(d.bids[at]), "a block that was read is still hinted");
            out.push_back(Out { at, b, r, ver[at] });
            if (s.chance(2, 3)) drain(out.size() - 1);
            ++reads;
            break;
        }
        case 2: {
            PBT_NOTE("hint " << at);
            bool room = pool->free_size_prefetch() > 0, had = hinted.count(at) > 0;
            // a read under way was taken out of the pool; hinting the place again is allowed
            bool r = pool->hint(d.bids[at]);
            PBT_EQ(r, room || had, "hint");
            if (r) hinted[at] = true;
            break;
        }
        case 3: {
            PBT_NOTE("invalidate " << at);
            bool r = pool->invalidate(d.bids[at]);
            PBT_EQ(r, hinted.count(at) > 0, "invalidate");
            hinted.erase(at);
            break;
        }
        case 4: if (out.size()) { drain(s.raw(out.size())); } break;
        case 5: {
            unsigned k = (unsigned)s.raw(6);
            if (s.chance(1, 2)) {
                PBT_NOTE("resize_write " << k);
                total += (int64_t)k - (int64_t)pool->size_write();
                pool->resize_write(k);
                PBT_EQ(pool->size_write(), k, "size of the write pool");
            }
            else {
                PBT_NOTE("resize_prefetch " << k);
                uint64_t before = pool->size_prefetch(), busy = pool->busy_size_prefetch();
                pool->resize_prefetch(k);
                PBT_EQ(pool->size_prefetch(), std::max<uint64_t>(k, busy), "size of the prefetch pool");
                total += (int64_t)pool->size_prefetch() - (int64_t)before;
            }
            break;
        }
        case 6:
            if (held.size()) { block* b = held.back(); held.pop_back(); if (s.chance(1, 2)) pool->add(b); else pool->add_prefetch(b); PBT_CHECK(b == 0, "add leaves the block with the caller"); }
            break;
        case 7:
            if (pool->free_size_prefetch()) held.push_back(pool->steal_prefetch());
            break;
        case 8: {
            PBT_NOTE("swap");
            Pool* other = new Pool(0, 0);
            if (s.chance(1, 2)) std::swap(*pool, *other); else pool->swap(*other);
            delete pool;
            pool = other;
            break;
        }
        }
        PBT_EQ((int64_t)(pool->size_write() + pool->size_prefetch() + held.size() + out.size()), total, "blocks altogether");
        PBT_EQ(pool->size_prefetch(), pool->free_size_prefetch() + pool->busy_size_prefetch(), "free and busy prefetch blocks");
        PBT_EQ(pool->busy_size_prefetch(), hinted.size(), "hinted blocks");
        for (auto& h : hinted) { PBT_CHECK(pool->in_prefetching(d.bids[h.first]), "place " << h.first << " is not hinted any more"); PBT_CHECK(pool->find_hint(d.bids[h.first]).valid(), "no request for a hinted block"); }
        if (writes > 3 && reads > 3 && hinted.size()) pbt::nontrivial();
    }
    while (out.size()) drain(0);
    if (s.chance(1, 2)) for (unsigned at = 0; at < n; ++at) { // hinted or not, the latest versions come out
        block* b = new block;
        stxxl::request_ptr r = pool->read(b, d.bids[at]);
        r->wait();
        PBT_CHECK(is(b, ver[at]), "final read of place " << at << " delivers " << (*b)[0].value() / 1000 << ", expected version " << ver[at]);
        held.push_back(b);
    }
    delete pool;
    for (unsigned at = 0; at < n; ++at) PBT_CHECK(is(raw_block(d.bids[at]), ver[at]), "place " << at << " on disk holds " << (*raw_block(d.bids[at]))[0].value() / 1000 << ", expected version " << ver[at]);
    for (auto b : held) delete b;
    for (auto& f : d.f) PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
}
PBT_TARGET_F(pools, 4000, 60000, 1, pools);

// a block is written and read as a whole: elements, references and information
template <unsigned RS, class T, unsigned NR, class Info> struct InfoOf { };
struct Info { uint32_t a; uint64_t b; };
template <class Blk> static void elems(Blk& b, uint32_t v) { for (unsigned i = 0; i < Blk::size; ++i) b[i] = Val<typename Blk::value_type>::make(v * 100000 + i); }
template <class Blk> static void same(Blk& b, uint32_t v)
{
    unsigned i = 0;
    for (typename Blk::iterator it = b.begin(); it != b.end(); ++it, ++i) PBT_EQ(Val<typename Blk::value_type>::get(*it), Val<typename Blk::value_type>::norm(v * 100000 + i), "element " << i);
    PBT_EQ(i, (unsigned)Blk::size, "elements");
}
template <unsigned RS, class T>
static void blocks_of(pbt::Src& s, slow_file& f)
{
    typedef stxxl::typed_block<RS, T> A;
    typedef stxxl::typed_block<RS, T, 3> R;
    typedef stxxl::typed_block<RS, T, 0, Info> I;
    typedef stxxl::typed_block<RS, T, 2, Info> RI;
    static_assert(sizeof(A) == RS && sizeof(R) == RS && sizeof(I) == RS && sizeof(RI) == RS, "block size");
    static_assert(A::size == RS / sizeof(T), "elements per block");
    uint32_t v = (uint32_t)s.raw(1000) + 1;
    unsigned cnt = (unsigned)s.range(1, 4);
    std::unique_ptr<A[]> a(new A[cnt]), a2(new A[cnt]);
    std::unique_ptr<R> r(new R), r2(new R); std::unique_ptr<I> i(new I), i2(new I); std::unique_ptr<RI> ri(new RI), ri2(new RI);
    PBT_NOTE("blocks of " << RS << " with elements of " << sizeof(T));
    for (unsigned k = 0; k < cnt; ++k) PBT_EQ((uint64_t)&a[k] % STXXL_BLOCK_ALIGN, 0u, "alignment of block " << k << " of an array");
    PBT_EQ((uint64_t)r.get() % STXXL_BLOCK_ALIGN, 0u, "alignment");
    std::vector<stxxl::request_ptr> q;
    for (unsigned k = 0; k < cnt; ++k) { elems(a[k], v + k); q.push_back(a[k].write(stxxl::BID<RS>(&f, (int64_t)RS * k))); }
    elems(*r, v + 10); for (unsigned k = 0; k < 3; ++k) (*r)(k) = stxxl::BID<RS>(&f, v + k);
    elems(*i, v + 20); i->info.a = v; i->info.b = v * 77ull;
    elems(*ri, v + 30); ri->info.a = v + 1; ri->info.b = v * 78ull; for (unsigned k = 0; k < 2; ++k) ri->ref[k] = stxxl::BID<RS>(&f, v * 2 + k);
    q.push_back(r->write(stxxl::BID<RS>(&f, (int64_t)RS * 4)));
    q.push_back(i->write(stxxl::BID<RS>(&f, (int64_t)RS * 5)));
    q.push_back(ri->write(stxxl::BID<RS>(&f, (int64_t)RS * 6)));
    stxxl::wait_all(q.begin(), q.end());
    q.clear();
    for (unsigned k = 0; k < cnt; ++k) q.push_back(a2[k].read(stxxl::BID<RS>(&f, (int64_t)RS * k)));
    q.push_back(r2->read(stxxl::BID<RS>(&f, (int64_t)RS * 4)));
    q.push_back(i2->read(stxxl::BID<RS>(&f, (int64_t)RS * 5)));
    q.push_back(ri2->read(stxxl::BID<RS>(&f, (int64_t)RS * 6)));
    stxxl::wait_all(q.begin(), q.end());
    for (unsigned k = 0; k < cnt; ++k) same(a2[k], v + k);
    same(*r2, v + 10); for (unsigned k = 0; k < 3; ++k) PBT_CHECK((*r2)(k) == stxxl::BID<RS>(&f, v + k), "reference " << k);
    same(*i2, v + 20); PBT_CHECK(i2->info.a == v && i2->info.b == v * 77ull, "information");
    same(*ri2, v + 30); PBT_CHECK(ri2->info.a == v + 1 && ri2->info.b == v * 78ull, "information"); for (unsigned k = 0; k < 2; ++k) PBT_CHECK(ri2->ref[k] == stxxl::BID<RS>(&f, v * 2 + k), "reference " << k);
    pbt::ops(8);
    pbt::nontrivial();
}
static void typed(pbt::Src& s)
{
    slow_file f(7 << 14, 10, 0, s.raw(1000), s.pick({ 0u, 20u }));
    switch (s.raw(5)) {
    case 0: blocks_of<4096, unsigned>(s, f); break;
    case 1: blocks_of<4096, Rec<12> >(s, f); break;
    case 2: blocks_of<8192, Rec<100> >(s, f); break;
    case 3: blocks_of<4096, unsigned char>(s, f); break;
    case 4: blocks_of<16384, uint64_t>(s, f); break;
    }
}
PBT_TARGET_F(typed, 300, 2000, 20, typed);
