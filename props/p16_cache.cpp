// The block cache below the hash map: blocks read whole or in part, changed, retained, prefetched and evicted.
#include "common.hpp"
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/containers/hash_map/block_cache.h>
#include <stxxl/bits/containers/hash_map/util.h>
#include <memory>
#include <vector>

namespace {
typedef Rec<500> R;
typedef stxxl::typed_block<4096, R> Sub;
enum { SUBS = 3 };
typedef stxxl::typed_block<4096 * SUBS, Sub> Block;
typedef stxxl::hash_map::block_cache<Block> Cache;
typedef Block::bid_type Bid;

struct Disks
{
    std::vector<Bid> bids; std::vector<std::vector<uint32_t> > m;   // the value of each element
    uint32_t next;
    unsigned per() const { return SUBS * Sub::size; }
    void make(unsigned n)
    {
        bids.resize(n); m.resize(n); next = 1;
        stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), bids.begin(), bids.end());
        std::unique_ptr<Block> b(new Block);
        for (unsigned i = 0; i < n; ++i) {
            for (unsigned k = 0; k < per(); ++k) { m[i].push_back(next); (*b)[k / Sub::size][k % Sub::size] = R(next++); }
            b->write(bids[i])->wait();
        }
    }
    void check(const char* what, const Sub& s, unsigned i, unsigned sub) const
    {
        for (unsigned k = 0; k < Sub::size; ++k) PBT_EQ(s[k].value(), (int64_t)m[i][sub * Sub::size + k], what << ": block " << i << ", part " << sub << ", element " << k);
    }
    void check_disk(const char* what) const
    {
        std::unique_ptr<Block> b(new Block);
        for (unsigned i = 0; i < bids.size(); ++i) { b->read(bids[i])->wait(); for (unsigned j = 0; j < SUBS; ++j) check(what, (*b)[j], i, j); }
    }
};

// the cache as a client of it sees it
void cache(pbt::Src& s)
{
    stx::setup(s);
    struct Hold { Sub* p; unsigned i, sub; };
    Disks d;
    d.make((unsigned)s.range(1, 14));
    const unsigned n = (unsigned)d.bids.size();
    unsigned size[2] = { (unsigned)s.range(2, 8), (unsigned)s.range(2, 8) };
    std::unique_ptr<Cache> c[2]; std::vector<Hold> held[2];
    // each block is cached in one of the two only
    for (unsigned w = 0; w < 2; ++w) c[w].reset(new Cache(size[w]));
    std::vector<unsigned> home(n); for (unsigned i = 0; i < n; ++i) home[i] = (unsigned)s.raw(3) == 2;
    PBT_NOTE(n << " blocks, " << size[0] << " and " << size[1] << " cached");
    auto retained = [&](unsigned w) { std::vector<unsigned> b; for (auto& h : held[w]) { if (std::find(b.begin(), b.end(), h.i) == b.end()) b.push_back(h.i); } return b.size(); };
    auto count = [&](unsigned w, unsigned i) { unsigned k = 0; for (auto& h : held[w]) k += h.i == i; return k; };
    unsigned nops = (unsigned)s.range(1, 80), changes = 0, evictions = 0;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        unsigned i = (unsigned)s.raw(n), w = home[i], sub = (unsigned)s.raw(SUBS);
        Cache& a = *c[w];
        switch (s.weighted({ 8, 6, 4, 4, 3, 1, 1, 1 })) {
        case 0: { Sub* p = a.get_subblock(d.bids[i], sub); d.check("get_subblock", *p, i, sub); ++evictions; break; }
        case 1: {   // change an element, as buffered_reader does
            Sub* p = a.get_subblock(d.bids[i], sub);
            PBT_CHECK(a.make_dirty(d.bids[i]), "make_dirty: a block just read is not cached");
            d.check("after make_dirty", *p, i, sub);
            unsigned k = (unsigned)s.raw(Sub::size);
            (*p)[k] = R(d.next); d.m[i][sub * Sub::size + k] = d.next++;
            ++changes;
            break;
        }
        case 2: {   // retain
            if (retained(w) + 2 > size[w] && !count(w, i)) break;
            Hold h = { a.get_subblock(d.bids[i], sub), i, sub };
            PBT_CHECK(a.retain_block(d.bids[i]), "retain_block: a block just read is not cached");
            held[w].push_back(h);
            break;
        }
        case 3: {   // release
            if (held[w].empty()) break;
            size_t k = s.raw(held[w].size());
            Hold h = held[w][k];
            d.check("a part of a retained block", *h.p, h.i, h.sub);
            PBT_CHECK(a.release_block(d.bids[h.i]), "release_block: a retained block is not cached");
            held[w].erase(held[w].begin() + k);
            if (!count(w, h.i)) PBT_CHECK(!a.release_block(d.bids[h.i]), "release_block succeeds although the block is not retained");
            break;
        }
        case 4: a.prefetch_block(d.bids[i]); break;
        case 5: {   // all is on the disks
            if (held[0].size() + held[1].size()) break;
            c[0]->flush(); c[1]->flush();
            d.check_disk("after flush");
            break;
        }
        case 6: {
            if (held[w].size()) break;
            a.flush(); a.clear();
            PBT_CHECK(!a.retain_block(d.bids[i]) && !a.release_block(d.bids[i]) && !a.make_dirty(d.bids[i]), "a block is cached after clear()");
            break;
        }
        case 7: c[0]->swap(*c[1]); held[0].swap(held[1]); std::swap(size[0], size[1]); for (unsigned j = 0; j < n; ++j) home[j] ^= 1; PBT_EQ((unsigned)c[0]->size(), size[0], "size after swap"); break;
        }
        for (unsigned v = 0; v < 2; ++v) for (auto& h : held[v]) if (s.chance(1, 3)) d.check("a part of a retained block", *h.p, h.i, h.sub);
    }
    for (unsigned v = 0; v < 2; ++v) { for (auto& h : held[v]) { d.check("a part of a retained block", *h.p, h.i, h.sub); PBT_CHECK(c[v]->release_block(d.bids[h.i]), "release_block"); } c[v].reset(); }
    d.check_disk("after the caches are gone");
    stxxl::block_manager::get_instance()->delete_blocks(d.bids.begin(), d.bids.end());
    stx::check_no_blocks("at the end");
    if (changes > 2 && n > size[0] && nops > 15) pbt::nontrivial();
}
PBT_TARGET_F(cache, 1500, 20000, 1, cache);

// several readers over one cache
void readers(pbt::Src& s)
{
    stx::setup(s);
    typedef std::vector<Bid>::iterator BI;
    typedef stxxl::hash_map::buffered_reader<Cache, BI> Reader;
    Disks d;
    d.make((unsigned)s.range(1, 14));
    const unsigned n = (unsigned)d.bids.size(), B = d.per();
    stxxl::hash_map::tuning* t = stxxl::hash_map::tuning::get_instance();
    t->prefetch_page_size = s.range(1, 3); t->prefetch_pages = s.range(1, 3);
    // blocks prefetched may be thrown out before they are used, but every reader retains one
    unsigned size = (unsigned)s.range(5, 16);
    Cache c(size);
    struct Rd { std::unique_ptr<Reader> r; uint64_t at; };   // the place among the elements
    std::vector<Rd> rs(s.range(1, 3));
    PBT_NOTE(n << " blocks, " << size << " cached, " << rs.size() << " readers, pages " << t->prefetch_page_size << "*" << t->prefetch_pages);
    unsigned nops = (unsigned)s.range(1, 60), changes = 0; uint64_t moved = 0;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        Rd& r = rs[s.raw(rs.size())];
        if (!r.r || s.chance(1, 12)) {
            unsigned b = (unsigned)s.raw(n), sub = (unsigned)s.raw(SUBS);
            r.r.reset();
            r.r.reset(new Reader(d.bids.begin() + b, d.bids.end(), c, sub, s.chance(1, 2)));
            r.at = (uint64_t)b * B + sub * Sub::size;
            continue;
        }
        if (r.at >= (uint64_t)n * B) continue;
        switch (s.weighted({ 6, 4, 2, 2, 1 })) {
        case 0: for (uint64_t k = s.size(80, B); k; --k) {
                PBT_EQ(r.r->const_value().value(), (int64_t)d.m[r.at / B][r.at % B], "element " << r.at);
                ++r.at; ++moved;
                PBT_EQ(++*r.r, r.at < (uint64_t)n * B, "++ at " << r.at);
                if (r.at >= (uint64_t)n * B) break;
            }
            break;
        case 1: r.r->value() = R(d.next); d.m[r.at / B][r.at % B] = d.next++; ++changes; break;
        case 2: r.r->next_subblock(); r.at = (r.at / Sub::size + 1) * Sub::size; break;
        case 3: {
            unsigned b = (unsigned)(r.at / B + s.raw(n - r.at / B)), sub = (unsigned)s.raw(SUBS);
            r.r->skip_to(d.bids.begin() + b, sub);
            r.at = (uint64_t)b * B + sub * Sub::size;
            break;
        }
        case 4: r.r->enable_prefetching(); break;
        }
    }
    for (auto& r : rs) r.r.reset();
    c.flush();
    d.check_disk("after flush");
    stxxl::block_manager::get_instance()->delete_blocks(d.bids.begin(), d.bids.end());
    if (changes > 1 && moved > 2 * B) pbt::nontrivial();
}
PBT_TARGET_F(readers, 1000, 14000, 1, readers);
}
