// The order in which prefetched blocks are requested.
#include "common.hpp"
#include <stxxl/bits/algo/async_schedule.h>
#include <stxxl/bits/io/file.h>
#include <stxxl/bits/mng/bid.h>
#include <algorithm>
#include <deque>
#include <vector>

typedef stxxl::int_type I;

// Steps needed when each disk reads one block per step, blocks are requested in the order seq while at most m of
// them are in buffers or under way, and the consumer takes them in their order; 0: it never ends.
static uint64_t steps(const std::vector<I>& disk, const std::vector<I>& seq, size_t m, size_t D)
{
    size_t L = disk.size(), issued = 0, eaten = 0;
    std::vector<char> there(L, 0);
    std::vector<std::deque<I> > q(D + 1);
    uint64_t t = 0;
    while (eaten < L) {
        while (issued < L && issued - eaten < m) { q[disk[seq[issued]]].push_back(seq[issued]); ++issued; }
        bool any = false;
        for (auto& d : q) if (!d.empty()) { there[d.front()] = 1; d.pop_front(); any = true; }
        if (any) ++t;
        size_t before = eaten;
        while (eaten < L && there[eaten]) ++eaten;
        if (!any && before == eaten) return 0;
    }
    return t;
}
// the least number of steps: writing the reversed sequence through m buffers, every disk busy whenever it can be
static uint64_t optimum(const std::vector<I>& disk, size_t m, size_t D)
{
    size_t L = disk.size(), next = L, held = 0;
    std::vector<size_t> q(D + 1, 0);
    uint64_t t = 0;
    for ( ; ; ) {
        while (next && held < m) { ++q[disk[--next]]; ++held; }
        if (!held) return t;
        for (auto& d : q) if (d) { --d; --held; }
        ++t;
    }
}
struct Storage { unsigned id; unsigned get_device_id() const { return id; } };
struct Bid { const Storage* storage; };
struct Entry { Bid bid; };

PBT_TARGET(schedule, 40000, 1500000, 50)
{
    I D = (I)s.range(1, s.chance(1, 3) ? 12 : 4);
    size_t L = (size_t)s.size(s.chance(1, 10) ? 1500 : 150, 4);
    I m = (I)s.range(1, s.chance(1, 3) ? 60 : 10);
    bool unknown = s.chance(1, 5);
    std::vector<I> d(L);
    switch (s.raw(5)) {
    case 0: for (auto& x : d) x = (I)s.raw(D); break;
    case 1: for (size_t i = 0; i < L; ++i) d[i] = (I)(i % D); break;
    case 2: { size_t i = 0; while (i < L) { I x = (I)s.raw(D); for (unsigned r = 1 + (unsigned)s.raw(20); r && i < L; --r) d[i++] = x; } } break;
    case 3: for (auto& x : d) x = s.chance(1, 8) ? (I)s.raw(D) : 0; break;
    default: { // several runs, each striped from its own first disk
        size_t i = 0; while (i < L) { I x = (I)s.raw(D); for (unsigned r = 1 + (unsigned)s.raw(3 * D); r && i < L; --r, x = (x + 1) % D) d[i++] = x; }
    } break;
    }
    std::vector<I> given(d);
    if (unknown) for (size_t i = 0; i < L; ++i) if (s.chance(1, 3)) { given[i] = (I)stxxl::file::DEFAULT_DEVICE_ID; d[i] = D; }
    PBT_NOTE(D << " disks " << m << " buffers " << L << " blocks:");
    for (size_t i = 0; i < L && i < 60; ++i) PBT_NOTE(" " << d[i]);
    std::vector<I> out(L + 2, -77);
    switch (s.raw(4)) {
    case 0: stxxl::compute_prefetch_schedule(given.data(), given.data() + L, out.data() + 1, m, D); break;
    case 1: stxxl::compute_prefetch_schedule((const I*)given.data(), (const I*)given.data() + L, out.data() + 1, m, D); break;
    default: {
        std::vector<Storage> st(L); std::vector<Entry> e(L); std::vector<Bid> b(L);
        for (size_t i = 0; i < L; ++i) { st[i].id = (unsigned)given[i]; b[i].storage = e[i].bid.storage = &st[i]; }
        if (s.chance(1, 2)) stxxl::compute_prefetch_schedule(e, out.data() + 1, m, D);
        else stxxl::compute_prefetch_schedule(b.begin(), b.end(), out.data() + 1, m, D);
    } break;
    }
    PBT_CHECK(out[0] == -77 && out[L + 1] == -77, "something is written beside the schedule");
    std::vector<I> seq(out.begin() + 1, out.end() - 1), pos(L, -1);
    for (size_t i = 0; i < L; ++i) {
        PBT_CHECK(seq[i] >= 0 && seq[i] < (I)L, "block " << seq[i] << " does not exist");
        PBT_CHECK(pos[seq[i]] < 0, "block " << seq[i] << " is read twice");
        pos[seq[i]] = (I)i;
    }
    bool moved = false;
    for (size_t k = 0; k < L; ++k) {
        PBT_CHECK(pos[k] < (I)k + m, "block " << k << " is requested as number " << pos[k] << ", with " << m << " buffers it is never there when needed");
        moved |= pos[k] != (I)k;
    }
    // blocks of one disk are requested in the order in which they are needed
    std::vector<I> last(D + 1, -1);
    for (I x : seq) { PBT_CHECK(last[d[x]] < x, "disk " << d[x] << " reads block " << last[d[x]] << " before block " << x); last[d[x]] = x; }
    uint64_t t = steps(d, seq, (size_t)m, (size_t)D);
    PBT_CHECK(L == 0 || t > 0, "the consumer waits for ever");
    std::vector<I> same(L); for (size_t i = 0; i < L; ++i) same[i] = (I)i;
    uint64_t u = steps(d, same, (size_t)m, (size_t)D);
    uint64_t o = optimum(d, (size_t)m, (size_t)D);
    PBT_CHECK(o <= t && o <= u, "model");
    PBT_CHECK(t <= u + (uint64_t)D, "the schedule takes " << t << " steps, reading in order " << u);
    pbt::label(t < u ? "faster than in order" : t == u ? "as fast as in order" : "slower than in order");
    pbt::ops(L);
    if (moved) pbt::nontrivial();
}
