// Block allocation: exclusive regions, accounting, growth, placement, failures, concurrent use.
#include "common.hpp"
#include <perturb.hpp>
#include <stxxl/bits/mng/block_alloc_interleaved.h>
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/io/io.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <thread>

using stxxl::BID;
using stxxl::file;

// regions in use: offset -> length
struct Regions
{
    std::map<int64_t, int64_t> m;
    int64_t used = 0;
    void add(int64_t off, int64_t len, int64_t end)
    {
        PBT_CHECK(off >= 0 && off + len <= end, "block " << off << "+" << len << " lies outside the disk of " << end << " bytes");
        auto n = m.lower_bound(off);
        if (n != m.end()) PBT_CHECK(off + len <= n->first, "block " << off << "+" << len << " overlaps the block in use at " << n->first);
        if (n != m.begin()) { --n; PBT_CHECK(n->first + n->second <= off, "block " << off << "+" << len << " overlaps the block in use " << n->first << "+" << n->second); }
        m[off] = len; used += len;
    }
    void del(int64_t off) { used -= m[off]; m.erase(off); }
    int64_t max_gap(int64_t end) const
    {
        int64_t g = 0, at = 0;
        for (auto& r : m) { g = std::max(g, r.first - at); at = r.first + r.second; }
        return std::max(g, end - at);
    }
};

// a file that is only a length, and cannot grow beyond a limit
class len_file : public stxxl::disk_queued_file
{
public:
    offset_type len = 0, limit = ~offset_type(0);
    unsigned refused = 0;
    len_file() : file(), disk_queued_file(0, 0) { }
    void serve(void*, offset_type, size_type, stxxl::request::request_type) { }
    void set_size(offset_type n) { if (n > limit) { ++refused; throw stxxl::io_error("no space left on device"); } len = n; }
    offset_type size() { return len; }
    void lock() { }
    const char* io_type() const { return "len"; }
};

template <unsigned S>
static void take(stxxl::disk_allocator& a, unsigned n, len_file& f, bool autogrow, Regions& R, std::vector<std::pair<int64_t, unsigned> >& live)
{
    int64_t free0 = a.get_free_bytes(), total0 = a.get_total_bytes(), want = (int64_t)n * S, gap = R.max_gap(total0);
    unsigned refused0 = f.refused;
    stxxl::BIDArray<S> bids(n);
    PBT_NOTE("new " << n << "x" << S);
    bool out = false, io = false;
    try { a.new_blocks(bids); }
    catch (const stxxl::bad_ext_alloc&) { out = true; }
    catch (const stxxl::io_error&) { io = true; }
    PBT_EQ(out, !autogrow && want > free0, "allocation of " << want << " bytes with " << free0 << " free, autogrow " << autogrow << ", reported as out of memory");
    PBT_EQ(io, f.refused != refused0, "allocation reported as failed growth");
    if (out || io) {
        if (io) PBT_CHECK(gap < want, "growing although " << gap << " contiguous bytes are free for " << want);
        PBT_EQ(a.get_used_bytes(), R.used, "bytes in use after a failed allocation");
        pbt::label(out ? "out of memory" : "cannot grow");
    }
    else {
        int64_t total = a.get_total_bytes(), grown = total - total0;
        if (gap >= want) {
            PBT_EQ(grown, 0, "growth although " << gap << " contiguous bytes are free for " << want);
            for (unsigned i = 1; i < n; ++i) PBT_EQ(bids[i].offset, bids[i - 1].offset + S, "distance of blocks allocated together with room for all");
        }
        else {
            PBT_CHECK(grown >= 0 && grown <= want, "grew by " << grown << " for " << want);
            if (want > free0) PBT_EQ(grown, want, "growth");
        }
        for (unsigned i = 0; i < n; ++i) { R.add(bids[i].offset, S, total); live.push_back(std::make_pair((int64_t)bids[i].offset, S)); }
    }
}

static void give(stxxl::disk_allocator& a, int64_t off, unsigned size)
{
    switch (size) {
    case 512: a.delete_block(BID<512>(0, off)); break;
    case 4096: a.delete_block(BID<4096>(0, off)); break;
    case 12288: a.delete_block(BID<12288>(0, off)); break;
    case 20480: a.delete_block(BID<20480>(0, off)); break;
    }
}

static void allocator(pbt::Src& s)
{
    std::unique_ptr<len_file> fp(new len_file);
    len_file& f = *fp;
    bool autogrow = s.chance(2, 3);
    int64_t size = s.pick({ 0, 512, 4096, 65536, 1 << 20, 5000 });
    if (!autogrow) size = s.pick({ 4096, 65536, 1 << 20, 300000 });
    if (s.chance(1, 4)) f.limit = size + s.raw(1 << 19);
    stxxl::disk_config cfg;
    cfg.size = size; cfg.autogrow = autogrow;
    PBT_NOTE("disk " << size << (autogrow ? " autogrow" : "") << " limit " << (f.limit == ~file::offset_type(0) ? -1 : (int64_t)f.limit));
    {
        stxxl::disk_allocator a(&f, cfg);
        PBT_EQ((int64_t)f.len, size, "initial size of the file");
        Regions R;
        std::vector<std::pair<int64_t, unsigned> > live;
        unsigned nops = (unsigned)s.range(1, 60), freed = 0;
        // one block size: no fragmentation
        int only = s.chance(1, 3) ? (int)s.raw(4) : -1;
        for (unsigned op = 0; op < nops; ++op) {
            pbt::ops();
            switch (s.weighted({ 8, 8, 1, 1 })) {
            case 0: {
                unsigned n = (unsigned)s.range(1, s.chance(1, 5) ? 30 : 6);
                switch (only >= 0 ? (unsigned)only : (unsigned)s.raw(4)) {
                case 0: take<4096>(a, n, f, autogrow, R, live); break;
                case 1: take<12288>(a, n, f, autogrow, R, live); break;
                case 2: take<512>(a, n, f, autogrow, R, live); break;
                case 3: take<20480>(a, n, f, autogrow, R, live); break;
                }
                break;
            }
            case 1: {
                unsigned k = (unsigned)s.range(1, 4);
                while (k-- && live.size()) {
                    size_t i = s.raw(live.size());
                    PBT_NOTE("del " << live[i].first << "+" << live[i].second);
                    give(a, live[i].first, live[i].second);
                    R.del(live[i].first);
                    live[i] = live.back(); live.pop_back();
                    ++freed;
                }
                break;
            }
            case 2: { // give back something that is free already, in whole or in part
                static const unsigned sizes[] = { 512, 4096, 12288, 20480 };
                unsigned sz = sizes[s.raw(4)];
                int64_t total = a.get_total_bytes();
                if (total < sz) break;
                int64_t off = 512 * (int64_t)s.raw((total - sz) / 512 + 1);
                bool hits_free = false;
                int64_t at = 0;
                for (auto r = R.m.begin(); ; ++r) {
                    int64_t e = r == R.m.end() ? total : r->first;
                    if (at < e && at < off + sz && off < e) hits_free = true;
                    if (r == R.m.end()) break;
                    at = r->first + r->second;
                }
                if (!hits_free) break;
                PBT_NOTE("double del " << off << "+" << sz);
                bool thrown = false;
                try { give(a, off, sz); } catch (const stxxl::bad_ext_alloc&) { thrown = true; }
                PBT_CHECK(thrown, "giving back " << off << "+" << sz << ", which is not in use, was accepted");
                pbt::label("double free");
                break;
            }
            case 3: // everything at once: the whole disk is one region again
                if (live.empty()) break;
                PBT_NOTE("del all");
                while (live.size()) { size_t i = s.raw(live.size()); give(a, live[i].first, live[i].second); R.del(live[i].first); live[i] = live.back(); live.pop_back(); }
                break;
            }
            PBT_EQ(a.get_used_bytes(), R.used, "bytes in use");
            PBT_EQ(a.get_free_bytes() + R.used, a.get_total_bytes(), "free and used bytes");
            PBT_EQ(a.get_total_bytes(), (int64_t)f.len, "size of the file");
            if (freed > 3 && R.m.size() > 3) pbt::nontrivial();
        }
    }
    PBT_EQ((int64_t)f.len, size, "size of the file at the end");
}
PBT_TARGET_F(allocator, 6000, 100000, 20, allocator);

// the block manager over several disks
template <unsigned S> struct Blocks { std::vector<BID<S> > v; };

static void fill(unsigned char* p, unsigned n, uint32_t id) { for (unsigned i = 0; i < n; i += 16) { uint64_t w[2] = { id * 0x9E3779B97F4A7C15ull + i, ~(uint64_t)id }; memcpy(p + i, w, 16); } }
static bool filled(const unsigned char* p, unsigned n, uint32_t id)
{
    for (unsigned i = 0; i < n; i += 16) { uint64_t w[2] = { id * 0x9E3779B97F4A7C15ull + i, ~(uint64_t)id }; if (memcmp(p + i, w, 16)) return false; }
    return true;
}

struct World
{
    unsigned nd;
    std::vector<bool> autogrow;
    std::vector<uint64_t> cfg_size;
    std::vector<Regions> R;
    std::map<file*, unsigned> disk_of;
    uint64_t cur = 0, total = 0, maxi = 0;
};

static void drives(pbt::Src& s, World& w, bool files)
{
    stxxl::config* cfg = stxxl::config::get_instance();
    w.nd = (unsigned)s.range(1, 4);
    std::string d;
    for (unsigned i = 0; i < w.nd; ++i) {
        std::string impl = files ? s.pick({ "memory", "syscall", "fileperblock_syscall", "mmap", "wbtl" }) : s.pick({ "memory", "memory", "syscall" });
        bool ag = s.chance(2, 3) || impl == "wbtl";
        uint64_t size = 4096 * s.range(1, 100);
        if (impl == "wbtl") size = 64u << 20;
        stxxl::disk_config c(std::string(pbt::scratch()) + "/d" + std::to_string(i), size, impl);
        c.autogrow = ag; c.direct = stxxl::disk_config::DIRECT_OFF; c.flash = s.chance(1, 4);
        cfg->add_disk(c);
        w.autogrow.push_back(ag); w.cfg_size.push_back(size);
        d += std::string(impl) + "/" + std::to_string(size) + (ag ? "+ " : " ") + (c.flash ? "flash " : "");
    }
    unsigned seed = (unsigned)s.raw(65536);
    stxxl::set_seed(seed); stxxl::srandom_number32(seed * 77 + 1);
    PBT_NOTE("{" << d << "seed " << seed << "}");
    stxxl::block_manager::get_instance();
    // flash devices lie behind the others; what the disks are is what the configuration now says
    unsigned flash = 0;
    for (unsigned i = 0; i < w.nd; ++i) {
        if (cfg->disk(i).flash) ++flash; else PBT_EQ(flash, 0u, "a regular disk lies behind a flash device");
        w.autogrow[i] = cfg->disk(i).autogrow; w.cfg_size[i] = cfg->disk(i).size;
    }
    PBT_EQ(cfg->regular_disk_range().first, 0u, "first regular disk");
    PBT_EQ(cfg->regular_disk_range().second, w.nd - flash, "end of the regular disks");
    PBT_EQ(cfg->flash_range().first, w.nd - flash, "first flash device");
    PBT_EQ(cfg->flash_range().second, w.nd, "end of the flash devices");
    w.R.resize(w.nd);
}

template <unsigned S, class Strategy>
static void bm_take(World& w, Blocks<S>& b, const Strategy& st, unsigned n, unsigned offset, const std::vector<unsigned>& where, int how)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    std::vector<BID<S> > v(n);
    uint64_t total0 = bm->get_total_bytes();
    bool failed = false;
    try {
        if (how == 0) bm->new_blocks(st, v.begin(), v.end(), offset);
        else if (how == 1) bm->new_blocks<stxxl::typed_block<S, unsigned char> >(n, st, v.begin(), offset);
        else if (n == 1) bm->new_block(st, v[0], offset);
        else bm->new_blocks(st, &v[0], &v[0] + n, offset);
    }
    catch (const stxxl::bad_ext_alloc&) { failed = true; }
    if (where.size()) {
        // what each disk is asked for is known
        std::vector<uint64_t> ask(w.nd);
        for (unsigned d : where) ask[d] += S;
        bool out = false;
        // fragmentation may add to the space of a disk, so its size is only bounded from below
        for (unsigned d = 0; d < w.nd; ++d) if (!w.autogrow[d] && w.R[d].used + ask[d] > w.cfg_size[d] && S == 4096) out = true;
        if (failed) PBT_CHECK([&] { for (unsigned d = 0; d < w.nd; ++d) if (!w.autogrow[d] && w.R[d].used + ask[d] > w.cfg_size[d]) return true; return false; } (), "out of external memory although every disk has room or may grow");
        (void)out;
    }
    if (failed) {
        pbt::label("out of memory");
        PBT_EQ(bm->get_current_allocation(), w.cur, "current allocation after a failed one");
        PBT_EQ(bm->get_total_bytes() - bm->get_free_bytes(), w.cur, "bytes in use after a failed allocation");
        PBT_EQ(bm->get_total_allocation(), w.total, "total allocation after a failed one");
        return;
    }
    (void)total0;
    for (unsigned i = 0; i < n; ++i) {
        PBT_CHECK(v[i].valid() && v[i].is_managed(), "invalid block identifier");
        unsigned d = (unsigned)v[i].storage->get_allocator_id();
        PBT_CHECK(d < w.nd, "disk " << d << " of " << w.nd);
        if (w.disk_of.count(v[i].storage)) PBT_EQ(w.disk_of[v[i].storage], d, "disk of a file");
        w.disk_of[v[i].storage] = d;
        if (where.size()) PBT_EQ(d, where[i], "disk of block " << i);
        w.R[d].add(v[i].offset, S, (int64_t)v[i].storage->size());
        b.v.push_back(v[i]);
    }
    w.cur += (uint64_t)n * S; w.total += (uint64_t)n * S; w.maxi = std::max(w.maxi, w.cur);
}

template <unsigned S>
static void bm_new(pbt::Src& s, World& w, Blocks<S>& b)
{
    unsigned n = (unsigned)s.range(1, s.chance(1, 5) ? 24 : 5), off = (unsigned)s.raw(7);
    int how = (int)s.raw(3);
    std::vector<unsigned> where;
    unsigned lo = (unsigned)s.raw(w.nd), hi = (unsigned)s.range(lo + 1, w.nd);
    bool whole = s.chance(1, 2);
    if (whole) { lo = 0; hi = w.nd; }
    unsigned reg = stxxl::config::get_instance()->regular_disk_range().second;
    switch (s.weighted({ 3, 2, 2, 3, 2, 2, 2, 1, 1 })) {
    case 0: {
        stxxl::striping st = whole ? stxxl::striping() : stxxl::striping(lo, hi);
        for (unsigned i = 0; i < n; ++i) where.push_back(lo + (off + i) % (hi - lo));
        PBT_NOTE("striping[" << lo << "," << hi << ") " << n << "x" << S << " offset " << off);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 1: {
        unsigned d = (unsigned)s.raw(w.nd);
        stxxl::single_disk st(d);
        where.assign(n, d);
        PBT_NOTE("disk " << d << " " << n << "x" << S);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 2: {
        stxxl::SR st = whole ? stxxl::SR() : stxxl::SR(lo, hi);
        for (unsigned i = 0; i < n; ++i) where.push_back((unsigned)st(off + i));
        for (unsigned i = 0; i < n; ++i) PBT_EQ(where[i], lo + (where[0] - lo + i) % (hi - lo), "simple randomised striping, block " << i);
        PBT_NOTE("SR " << n << "x" << S);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 3: {
        stxxl::RC st = whole ? stxxl::RC() : stxxl::RC(lo, hi);
        for (unsigned i = 0; i < n; ++i) where.push_back((unsigned)st(off + i));
        // any hi-lo blocks in a row are on different disks
        for (unsigned i = 0; i + (hi - lo) <= n; ++i) { std::set<unsigned> ds(where.begin() + i, where.begin() + i + (hi - lo)); PBT_CHECK(ds.size() == hi - lo && *ds.begin() == lo && *ds.rbegin() == hi - 1, "randomised cycling repeats a disk within a cycle"); }
        PBT_NOTE("RC[" << lo << "," << hi << ") " << n << "x" << S << " offset " << off);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 4: {
        stxxl::FR st = whole ? stxxl::FR() : stxxl::FR(lo, hi);
        PBT_NOTE("FR " << n << "x" << S);
        size_t at = b.v.size();
        bm_take(w, b, st, n, off, where, how);
        for (; at < b.v.size(); ++at) { unsigned d = (unsigned)b.v[at].storage->get_allocator_id(); PBT_CHECK(d >= lo && d < hi, "fully randomised allocation took disk " << d << " outside [" << lo << "," << hi << ")"); }
        break;
    }
    case 5: {
        bool flash = s.chance(1, 2);
        if (flash ? reg == w.nd : reg == 0) break;
        stxxl::RC_disk d; stxxl::RC_flash f;
        const stxxl::RC& st = flash ? (const stxxl::RC&)f : (const stxxl::RC&)d;
        for (unsigned i = 0; i < n; ++i) { where.push_back((unsigned)st(off + i)); PBT_CHECK(flash ? where[i] >= reg && where[i] < w.nd : where[i] < reg, (flash ? "RC_flash" : "RC_disk") << " takes disk " << where[i]); }
        PBT_NOTE((flash ? "RC_flash " : "RC_disk ") << n << "x" << S);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 6: {
        unsigned o = (unsigned)s.raw(9);
        stxxl::striping base(lo, hi);
        stxxl::offset_allocator<stxxl::striping> st(o, base);
        for (unsigned i = 0; i < n; ++i) where.push_back(lo + (o + off + i) % (hi - lo));
        PBT_EQ((unsigned)st.get_offset(), o, "offset");
        PBT_NOTE("offset+" << o << " " << n << "x" << S);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    case 7: { // runs written side by side
        unsigned runs = (unsigned)s.range(1, 5);
        stxxl::interleaved_RC st(runs, stxxl::RC(lo, hi));
        stxxl::interleaved_SR st2(runs, stxxl::SR(lo, hi));
        stxxl::interleaved_striping st3(runs, stxxl::striping(lo, hi));
        bool rc = s.chance(1, 2);
        for (unsigned i = 0; i < n; ++i) where.push_back((unsigned)(rc ? st(off + i) : st2(off + i)));
        for (unsigned i = 0; i < n; ++i) PBT_CHECK(where[i] >= lo && where[i] < hi, "interleaved allocation takes disk " << where[i]);
        for (unsigned i = 0; i < n; ++i) PBT_EQ((unsigned)st3(off + i), lo + ((off + i) / runs) % (hi - lo), "interleaved striping");
        // the blocks of one run cycle through the disks
        for (unsigned r = 0; r < runs; ++r) {
            std::vector<unsigned> of;
            for (unsigned j = 0; j < 2 * (hi - lo); ++j) of.push_back((unsigned)(rc ? st(r + j * runs) : st2(r + j * runs)));
            for (unsigned j = 0; j + (hi - lo) <= of.size(); ++j) { std::set<unsigned> ds(of.begin() + j, of.begin() + j + (hi - lo)); PBT_EQ(ds.size(), (size_t)(hi - lo), "disks of consecutive blocks of a run"); }
        }
        PBT_NOTE("interleaved " << n << "x" << S);
        if (rc) bm_take(w, b, st, n, off, where, how); else bm_take(w, b, st2, n, off, where, how);
        break;
    }
    case 8: {
        unsigned d = (unsigned)s.raw(w.nd);
        stxxl::first_disk_only st(3, stxxl::single_disk(d));
        where.assign(n, d);
        bm_take(w, b, st, n, off, where, how);
        break;
    }
    }
}

template <unsigned S>
static void bm_del(pbt::Src& s, World& w, Blocks<S>& b)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    if (b.v.empty()) return;
    unsigned k = (unsigned)s.range(1, 4);
    std::vector<BID<S> > del;
    while (k-- && b.v.size()) { size_t i = s.raw(b.v.size()); del.push_back(b.v[i]); b.v[i] = b.v.back(); b.v.pop_back(); }
    if (s.chance(1, 5)) del.push_back(BID<S>());       // ignored
    PBT_NOTE("del " << del.size() << "x" << S);
    if (s.chance(1, 2)) bm->delete_blocks(del.begin(), del.end());
    else for (auto& d : del) bm->delete_block(d);
    for (auto& d : del) if (d.valid()) { w.R[d.storage->get_allocator_id()].del(d.offset); w.cur -= S; }
}

static void manager(pbt::Src& s)
{
    World w;
    drives(s, w, false);
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    Blocks<4096> a; Blocks<16384> b;
    std::unique_ptr<file> own(new stxxl::mem_file(9));
    own->set_size(1 << 16);
    unsigned nops = (unsigned)s.range(1, 50);
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        switch (s.weighted({ 6, 4, 4, 3, 1 })) {
        case 0: bm_new(s, w, a); break;
        case 1: bm_new(s, w, b); break;
        case 2: bm_del(s, w, a); break;
        case 3: bm_del(s, w, b); break;
        case 4: bm->delete_block(BID<4096>(own.get(), 4096)); break; // not managed: ignored
        }
        PBT_EQ(bm->get_current_allocation(), w.cur, "current allocation");
        PBT_EQ(bm->get_total_allocation(), w.total, "total allocation");
        PBT_EQ(bm->get_maximum_allocation(), w.maxi, "maximum allocation");
        PBT_EQ(bm->get_total_bytes() - bm->get_free_bytes(), w.cur, "bytes in use");
        uint64_t sum = 0, cfgsum = 0;
        for (auto& d : w.disk_of) PBT_CHECK(d.first->size() >= w.cfg_size[d.second], "disk " << d.second << " is smaller than configured");
        for (unsigned d = 0; d < w.nd; ++d) cfgsum += w.cfg_size[d];
        (void)sum;
        PBT_CHECK(bm->get_total_bytes() >= cfgsum, "total bytes");
        if (w.nd > 1 && a.v.size() > 4 && b.v.size() > 2) pbt::nontrivial();
    }
    bm->delete_blocks(a.v.begin(), a.v.end());
    bm->delete_blocks(b.v.begin(), b.v.end());
    stx::check_no_blocks("at the end");
}
PBT_TARGET_F(manager, 3000, 40000, 1, manager);

// several threads allocate, fill, check and give back
template <unsigned S>
struct Owner
{
    typedef stxxl::typed_block<S, unsigned char> block;
    std::vector<std::pair<BID<S>, uint32_t> > mine;
    std::unique_ptr<block> buf;
    Owner() : buf(new block) { }
    void alloc(unsigned n, uint32_t& id)
    {
        std::vector<BID<S> > v(n);
        stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), v.begin(), v.end(), id % 5);
        for (auto& x : v) { fill(&(*buf)[0], S, ++id); buf->write(x)->wait(); mine.push_back(std::make_pair(x, id)); }
    }
    void check(size_t i, const char* when)
    {
        buf->read(mine[i].first)->wait();
        PBT_CHECK(filled(&(*buf)[0], S, mine[i].second), "a block that one thread owns holds other data " << when);
    }
    void drop(size_t i)
    {
        stxxl::block_manager::get_instance()->delete_block(mine[i].first);
        mine[i] = mine.back(); mine.pop_back();
    }
};

static void threads(pbt::Src& s)
{
    World w;
    drives(s, w, true);
    unsigned nt = (unsigned)s.range(2, 5), steps = (unsigned)s.range(5, 40);
    perturb::seed = s.raw(1 << 20) + 1;
    perturb::level = s.pick({ 0u, 10u, 40u, 100u });
    perturb::spurious = 0;
    std::vector<uint64_t> seeds;
    for (unsigned t = 0; t < nt; ++t) seeds.push_back(s.raw(1u << 30) * 2654435761u + t);
    PBT_NOTE(nt << " threads " << steps << " steps, perturbation " << perturb::level.load());
    std::vector<std::thread> ts;
    std::atomic<uint64_t> oom(0), done(0);
    for (unsigned t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            uint64_t r = seeds[t];
            auto rnd = [&](unsigned n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((r >> 33) % n); };
            uint32_t id = t << 24;
            Owner<4096> a; Owner<8192> b;
            for (unsigned i = 0; i < steps; ++i) {
                try {
                    switch (rnd(6)) {
                    case 0: a.alloc(1 + rnd(4), id); break;
                    case 1: b.alloc(1 + rnd(3), id); break;
                    case 2: if (a.mine.size()) a.check(rnd((unsigned)a.mine.size()), "while others allocate"); break;
                    case 3: if (b.mine.size()) b.check(rnd((unsigned)b.mine.size()), "while others allocate"); break;
                    case 4: if (a.mine.size()) { unsigned k = rnd((unsigned)a.mine.size()); a.check(k, "before it is given back"); a.drop(k); } break;
                    case 5: if (b.mine.size()) { unsigned k = rnd((unsigned)b.mine.size()); b.check(k, "before it is given back"); b.drop(k); } break;
                    }
                    ++done;
                }
                catch (const stxxl::bad_ext_alloc&) { ++oom; }
            }
            while (a.mine.size()) { a.check(0, "at the end"); a.drop(0); }
            while (b.mine.size()) { b.check(0, "at the end"); b.drop(0); }
        });
    for (auto& t : ts) t.join();
    perturb::level = 0;
    pbt::ops(done);
    pbt::label("out of memory", oom);
    if (done > 20) pbt::nontrivial();
    bool allgrow = true;
    for (bool g : w.autogrow) allgrow = allgrow && g;
    if (allgrow) PBT_EQ(oom.load(), 0u, "failed allocations on disks that may grow");
    stx::check_no_blocks("after all threads gave back theirs");
    PBT_EQ(stxxl::block_manager::get_instance()->get_current_allocation(), 0u, "current allocation");
}
PBT_TARGET_F(threads, 700, 8000, 1, threads);
