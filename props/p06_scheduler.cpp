// Swappable blocks under every scheduling algorithm against the plain contents they stand for.
#include "common.hpp"
#include <perturb.hpp>
#include <stxxl/bits/mng/block_scheduler.h>
#include <stxxl/bits/io/iostats.h>
#include <list>
#include <map>
#include <set>
#include <dirent.h>

enum { N = 512 };
typedef uint64_t V;
static const uint32_t DEF = 0xdefau;

// a block that has to hold a default value when it is used for the first time, as the matrices have
struct sblock : public stxxl::swappable_block<V, N>
{
    void fill_default() { for (unsigned i = 0; i < N; ++i) (*internal_data)[i] = DEF; }
};
typedef stxxl::block_scheduler<sblock> BS;
typedef BS::internal_block_type IB;
typedef BS::external_block_type EB;

struct Op { enum K { ACQ, ACQU, WR, CHK, REL, DEINIT, INIT, EXTRACT, ALLOC, FREE, STEP, ISINIT } k; unsigned b; uint32_t v; bool f; };

static void fill(IB& x, uint32_t v) { for (unsigned i = 0; i < N; ++i) x[i] = v * 1024ull + i; }
static void check(const IB& x, uint32_t v, const char* what, unsigned b)
{
    for (unsigned i = 0; i < N; ++i) PBT_EQ(x[i], v == DEF ? (uint64_t)DEF : v * 1024ull + i, what << ": element " << i << " of block " << b);
}

// what the blocks hold; the generator and the executions share it
struct Model
{
    struct B { bool there = false, temp = false, init = false; uint32_t v = 0; unsigned ref = 0; bool touched = false; };
    std::vector<B> b;
};

static void program(pbt::Src& s, Model& m, std::vector<Op>& p, unsigned n, unsigned mem, uint32_t& next, bool locality)
{
    auto acq = [&]() { unsigned c = 0; for (auto& x : m.b) c += x.ref > 0; return c; };
    unsigned last = 0;
    auto some = [&]() { unsigned i = locality && s.chance(1, 2) ? last : (unsigned)s.raw(m.b.size()); last = i; return i; };
    auto rel = [&](unsigned i, bool dirty) {
        Model::B& x = m.b[i];
        --x.ref;
        if (dirty || x.touched) { x.init = true; }
        p.push_back({ Op::REL, i, 0, dirty || x.touched });
        x.touched = false;
    };
    for (unsigned k = 0; k < n; ++k) {
        unsigned i = some();
        Model::B& x = m.b[i];
        if (!x.there) { x = Model::B(); x.temp = true; x.there = true; p.push_back({ Op::ALLOC, i, 0, false }); }
        switch (s.weighted({ 12, 12, 2, 2, 2, 1, 2, 1 })) {
        case 0: // begin an access
            if (x.ref == 0 && acq() >= mem) break;
            if (x.ref > 2) break;
            if (x.ref == 0 && s.chance(1, 6)) { p.push_back({ Op::ACQU, i, 0, false }); x.v = next++; x.touched = true; ++x.ref; p.push_back({ Op::WR, i, x.v, false }); break; }
            p.push_back({ Op::ACQ, i, 0, false });
            if (!x.init && x.ref == 0) x.v = DEF;
            ++x.ref;
            p.push_back({ Op::CHK, i, x.v, false });
            if (s.chance(1, 2)) { x.v = next++; x.touched = true; p.push_back({ Op::WR, i, x.v, false }); }
            break;
        case 1: { // end one
            std::vector<unsigned> c;
            for (unsigned j = 0; j < m.b.size(); ++j) if (m.b[j].ref) c.push_back(j);
            if (c.empty()) break;
            unsigned j = c[s.raw(c.size())];
            p.push_back({ Op::CHK, j, m.b[j].v, false });
            rel(j, s.chance(1, 4));
            break;
        }
        case 2: if (x.ref == 0) { p.push_back({ Op::DEINIT, i, 0, false }); x.init = false; } break;
        case 3: if (x.ref == 0 && !x.init) { x.v = next++; x.init = true; p.push_back({ Op::INIT, i, x.v, false }); } break;
        case 4: if (x.ref == 0 && x.init) { p.push_back({ Op::EXTRACT, i, x.v, s.chance(1, 2) }); x.init = false; } break;
        case 5: p.push_back({ Op::STEP, 0, 0, false }); break;
        case 6: p.push_back({ Op::ISINIT, i, 0, x.init || x.ref > 0 }); break;
        case 7: if (x.ref == 0 && x.temp) { p.push_back({ Op::FREE, i, 0, false }); x = Model::B(); } break;
        }
    }
    for (unsigned j = 0; j < m.b.size(); ++j) while (m.b[j].ref) { p.push_back({ Op::CHK, j, m.b[j].v, false }); rel(j, false); }
    // blocks allocated in the program are freed in it, so that a repetition allocates the same ones
    for (unsigned j = 0; j < m.b.size(); ++j) if (m.b[j].there && m.b[j].temp) { p.push_back({ Op::FREE, j, 0, false }); m.b[j] = Model::B(); }
}

static EB outside(uint32_t v)
{
    EB e;
    stxxl::block_manager::get_instance()->new_block(stxxl::striping(), e, v);
    std::unique_ptr<IB> x(new IB);
    fill(*x, v);
    x->write(e)->wait();
    return e;
}

static std::vector<std::string> files()
{
    std::vector<std::string> r;
    if (DIR* d = opendir(pbt::scratch())) { while (dirent* e = readdir(d)) r.push_back(e->d_name); closedir(d); }
    return r;
}

static uint64_t reads() { return stxxl::stats::get_instance()->get_reads(); }

struct Exec
{
    BS& bs;
    std::vector<int64_t> id;      // the scheduler's number of each block
    explicit Exec(BS& b, unsigned n) : bs(b), id(n, -1) { }
    void run(const std::vector<Op>& p, bool sim, std::vector<int64_t>& ids, const char* what)
    {
        for (const Op& o : p) {
            pbt::ops();
            switch (o.k) {
            case Op::ALLOC: ids[o.b] = (int64_t)bs.allocate_swappable_block(); break;
            case Op::FREE: bs.free_swappable_block(ids[o.b]); ids[o.b] = -1; break;
            case Op::ACQ: bs.acquire(ids[o.b]); break;
            case Op::ACQU: bs.acquire(ids[o.b], true); break;
            case Op::WR: if (!sim) fill(bs.get_internal_block(ids[o.b]), o.v); break;
            case Op::CHK: if (!sim) check(bs.get_internal_block(ids[o.b]), o.v, what, o.b); break;
            case Op::REL: bs.release(ids[o.b], o.f); break;
            case Op::DEINIT: bs.deinitialize(ids[o.b]); break;
            case Op::INIT: bs.initialize(ids[o.b], sim ? EB() : outside(o.v)); break;
            case Op::EXTRACT: {
                EB e = bs.extract_external_block(ids[o.b]);
                if (sim) break;
                PBT_CHECK(e.valid(), what << ": no block extracted");
                std::unique_ptr<IB> x(new IB);
                x->read(e)->wait();
                check(*x, o.v, "extracted", o.b);
                stxxl::block_manager::get_instance()->delete_block(e);
                break;
            }
            case Op::STEP: bs.explicit_timestep(); break;
            case Op::ISINIT: PBT_EQ(bs.is_initialized(ids[o.b]), o.f, what << ": is_initialized of block " << o.b); break;
            }
        }
    }
};

static void describe(const std::vector<Op>& p)
{
    static const char* n[] = { "acq", "acqu", "wr", "", "rel", "deinit", "init", "extract", "alloc", "free", "step", "" };
    for (const Op& o : p) if (*n[o.k]) PBT_NOTE(n[o.k] << o.b << (o.k == Op::REL && o.f ? "d" : ""));
}

static void scheduler(pbt::Src& s)
{
    stx::setup(s);
    perturb::seed = s.raw(1 << 20) + 1;
    perturb::level = s.pick({ 0u, 0u, 20u, 80u });
    unsigned nb = (unsigned)s.range(1, 10), mem = (unsigned)s.range(1, 6);
    if (mem == 0) mem = 1;
    PBT_NOTE("[" << nb << " blocks, memory for " << mem << "]");
    uint32_t next = 1;
    bool lots = false;
    {
        BS bs((stxxl::int_type)mem * sizeof(IB) - (s.chance(1, 3) ? (stxxl::int_type)s.raw(sizeof(IB)) : 0));
        Exec ex(bs, nb);
        Model m;
        m.b.resize(nb);
        unsigned temps = (unsigned)s.raw(nb);
        for (unsigned i = 0; i + temps < nb; ++i) { m.b[i].there = true; ex.id[i] = (int64_t)bs.allocate_swappable_block(); }
        unsigned phases = (unsigned)s.range(1, 4);
        for (unsigned ph = 0; ph < phases; ++ph) {
            unsigned mode = (unsigned)s.weighted({ 3, 3, 5 });
            bool loc = s.chance(1, 2);
            std::vector<Op> p;
            program(s, m, p, (unsigned)s.range(1, 40), mem, next, loc);
            unsigned accesses = 0;
            for (const Op& o : p) accesses += o.k == Op::ACQ;
            if (accesses > mem + 2) lots = true;
            static const char* names[] = { "online", "lfd", "prefetching" };
            PBT_NOTE(names[mode] << ":");
            describe(p);
            if (mode == 0) {
                ex.run(p, false, ex.id, "online");
                if (s.chance(1, 4)) { PBT_NOTE("flush"); bs.flush(); }
                continue;
            }
            typedef stxxl::block_scheduler_algorithm_simulation<sblock> Sim;
            std::vector<int64_t> ids = ex.id;
            delete bs.switch_algorithm_to(new Sim(bs));
            PBT_CHECK(bs.is_simulating(), "not simulating");
            ex.run(p, true, ids, "simulation");
            if (mode == 1) delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_offline_lfd<sblock>(bs));
            else delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_offline_lru_prefetching<sblock>(bs));
            // identifiers given away in the simulation are given away again
            ex.run(p, false, ex.id, names[mode]);
            PBT_CHECK(ids == ex.id, "identifiers differ from the simulation's");
            delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_online_lru<sblock>(bs));
        }
        // everything is still there
        for (unsigned i = 0; i < nb; ++i) {
            if (!m.b[i].there) continue;
            PBT_EQ(bs.is_initialized(ex.id[i]), m.b[i].init, "block " << i << " initialised at the end");
            if (m.b[i].init) { check(bs.acquire(ex.id[i]), m.b[i].v, "at the end", i); bs.release(ex.id[i], false); }
            bs.free_swappable_block(ex.id[i]);
        }
        stx::check_no_blocks("after freeing the swappable blocks");
    }
    stxxl::block_manager::get_instance();
    for (const std::string& f : files()) PBT_CHECK(f.find("_fpb_0") == std::string::npos, "a file of a freed block is left: " << f);
    perturb::level = 0;
    if (lots && nb > mem) pbt::nontrivial();
}
PBT_TARGET_F(scheduler, 15000, 150000, 1, scheduler);

// the least recently released block is the one that goes: what is read is exactly what is missing
static void online_io(pbt::Src& s)
{
    stx::Opt o;
    o.max_disks = 1;
    stx::setup(s, o);
    unsigned nb = (unsigned)s.range(1, 10), mem = (unsigned)s.range(1, 6);
    PBT_NOTE("[" << nb << " blocks, memory for " << mem << "]");
    BS bs((stxxl::int_type)mem * sizeof(IB));
    std::vector<BS::swappable_block_identifier_type> id;
    std::vector<uint32_t> v(nb, 0);
    for (unsigned i = 0; i < nb; ++i) id.push_back(bs.allocate_swappable_block());
    std::list<unsigned> order;        // released blocks in memory
    uint64_t r0 = reads(), expect = 0, w0 = stxxl::stats::get_instance()->get_writes(), wmax = 0;
    std::set<unsigned> dirty;
    unsigned n = (unsigned)s.range(1, 60);
    bool evicted = false;
    for (unsigned k = 0; k < n; ++k) {
        unsigned i = (unsigned)s.raw(nb);
        bool in = std::find(order.begin(), order.end(), i) != order.end();
        if (in) order.remove(i);
        else {
            if (order.size() == mem) { unsigned e = order.front(); order.pop_front(); evicted = true; if (dirty.erase(e)) ++wmax; }
            if (v[i]) ++expect;
        }
        PBT_NOTE("use" << i);
        IB& x = bs.acquire(id[i]);
        check(x, v[i] ? v[i] : DEF, "online", i);
        bool w = !v[i] || s.chance(1, 3);
        if (w) { v[i] = k + 1; fill(x, v[i]); dirty.insert(i); }
        bs.release(id[i], w);
        order.push_back(i);
        PBT_EQ(reads() - r0, expect, "blocks read after access " << k);
        PBT_EQ(stxxl::stats::get_instance()->get_writes() - w0, wmax, "blocks written after access " << k);
    }
    pbt::ops(n);
    for (unsigned i = 0; i < nb; ++i) bs.free_swappable_block(id[i]);
    stx::check_no_blocks("after freeing the swappable blocks");
    if (evicted && expect > 2) pbt::nontrivial();
}
PBT_TARGET_F(online_io, 500, 6000, 1, online_io);
