// Every kind of stack against std::vector.
#include "common.hpp"
#include <stxxl/bits/containers/stack.h>
#include <memory>
#include <stack>
#include <vector>

// brings the kinds of stacks under one interface
template <class S> struct Maker
{
    typedef S stack_type;
    static const bool pooled = false, migrating = false;
    S* make(pbt::Src&) { return new S(); }
    template <class St> S* copy(const St& st) { return new S(st); }
    void tune(pbt::Src&, S&) { }
    void check_pool(size_t) { }
};
template <class S> struct PoolMaker
{
    typedef S stack_type;
    static const bool pooled = true, migrating = false;
    typedef stxxl::read_write_pool<typename S::block_type> pool_type;
    std::unique_ptr<pool_type> pool;
    std::unique_ptr<stxxl::prefetch_pool<typename S::block_type> > pp;
    std::unique_ptr<stxxl::write_pool<typename S::block_type> > wp;
    unsigned np = 0, nw = 0;
    S* make(pbt::Src& s)
    {
        if (!pool && !pp) {
            np = (unsigned)s.raw(6); nw = (unsigned)s.range(1, 6);
            bool two = s.chance(1, 4);
            PBT_NOTE("pool " << np << "+" << nw << (two ? " separate" : ""));
            if (two) { pp.reset(new stxxl::prefetch_pool<typename S::block_type>(np)); wp.reset(new stxxl::write_pool<typename S::block_type>(nw)); }
            else pool.reset(new pool_type(np, nw));
        }
        unsigned a = (unsigned)s.raw(6);
        return pool ? new S(*pool, a) : new S(*pp, *wp, a);
    }
    template <class St> S* copy(const St&) { return NULL; }
    void tune(pbt::Src& s, S& st) { unsigned a = (unsigned)s.raw(6); PBT_NOTE("aggr" << a); st.set_prefetch_aggr(a); PBT_EQ(st.get_prefetch_aggr(), a, "prefetch aggressiveness"); }
    void check_pool(size_t)
    {
        if (pool) { PBT_EQ(pool->size_write(), nw, "blocks of the write pool"); PBT_CHECK(pool->size_prefetch() == np, "blocks of the prefetch pool " << pool->size_prefetch()); }
        else { PBT_EQ(wp->size(), nw, "blocks of the write pool"); PBT_EQ(pp->size(), np, "blocks of the prefetch pool"); }
    }
};
template <class S> struct MigMaker : Maker<S>
{
    static const bool migrating = true;
    template <class St> S* copy(const St&) { return NULL; }
};

template <class M, class T, unsigned BS, unsigned BPP, unsigned Crit>
static void run_stack(pbt::Src& s)
{
    typedef typename M::stack_type S;
    typedef Val<T> VT;
    const uint64_t B = BS / sizeof(T), page = B * BPP;
    stx::setup(s);
    M mk;
    std::unique_ptr<S> st[2];
    std::vector<int64_t> m[2];
    bool ext[2] = { false, false };
    for (int i = 0; i < 2; ++i) st[i].reset(mk.make(s));
    uint32_t next = 1;
    unsigned nops = (unsigned)s.range(1, 40);
    uint64_t maxlen = 0, turns = 0;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        int k = s.chance(1, 6) ? 1 : 0;
        S& x = *st[k];
        std::vector<int64_t>& v = m[k];
        switch (s.weighted({ 12, 12, 3, 1, 2, 1, 4, 1 })) {
        case 0: {
            uint64_t n = s.chance(1, 3) ? s.raw(4) + 1 : s.size(5 * page, page);
            if (s.chance(1, 4)) n = (v.size() / page + 1 + s.raw(2)) * page - v.size() + s.raw(3) - std::min<uint64_t>(1, v.size());   // up to around a page boundary
            if (v.size() + n > 14 * page) break;
            PBT_NOTE("push*" << n);
            for (uint64_t i = 0; i < n; ++i) { x.push(VT::make(next)); v.push_back(VT::norm(next++)); PBT_CHECK(VT::get(x.top()) == v.back(), "top after push is " << VT::get(x.top()) << " instead of " << v.back()); if (v.size() >= Crit) ext[k] = true; }
            break;
        }
        case 1: {
            uint64_t n = s.chance(1, 3) ? s.raw(4) + 1 : s.size(5 * page, page);
            if (s.chance(1, 4)) n = v.size() % page + s.raw(3);
            n = std::min<uint64_t>(n, v.size());
            PBT_NOTE("pop*" << n);
            for (uint64_t i = 0; i < n; ++i) {
                const S& c = x;
                PBT_CHECK(VT::get(c.top()) == v.back(), "top of " << v.size() << " elements is " << VT::get(c.top()) << " instead of " << v.back());
                x.pop(); v.pop_back();
                PBT_EQ(x.size(), v.size(), "size after pop");
            }
            ++turns;
            break;
        }
        case 2: if (!v.empty()) { PBT_NOTE("top="); x.top() = VT::make(next); v.back() = VT::norm(next++); } break;
        case 3: PBT_NOTE("swap"); if (s.chance(1, 2)) st[0]->swap(*st[1]); else std::swap(*st[0], *st[1]); std::swap(m[0], m[1]); std::swap(ext[0], ext[1]); break;
        case 4: mk.tune(s, x); break;
        case 5: {
            std::stack<T> src;
            uint64_t n = s.size(3 * page, page);
            std::vector<int64_t> w;
            for (uint64_t i = 0; i < n; ++i) { src.push(VT::make(next)); w.push_back(VT::norm(next++)); }
            S* c = mk.copy(src);
            if (!c) break;
            PBT_NOTE("copy of a stack of " << n);
            st[k].reset(c); v = w;
            break;
        }
        case 6: { // back and forth over the boundary
            uint64_t to = (v.size() / page) * page, n = v.size() - to + 1;
            if (v.empty() || n > v.size() || n > B) break;
            PBT_NOTE("rock " << n);
            for (int r = 0; r < 3; ++r) {
                for (uint64_t i = 0; i < n && !v.empty(); ++i) { PBT_EQ(VT::get(x.top()), v.back(), "top while rocking"); x.pop(); v.pop_back(); }
                for (uint64_t i = 0; i < n + 1; ++i) { x.push(VT::make(next)); v.push_back(VT::norm(next++)); if (v.size() >= Crit) ext[k] = true; }
            }
            break;
        }
        case 7: PBT_NOTE("new"); st[k].reset(); st[k].reset(mk.make(s)); v.clear(); ext[k] = false; break;
        }
        maxlen = std::max<uint64_t>(maxlen, v.size());
        for (int i = 0; i < 2; ++i) {
            PBT_EQ(st[i]->size(), m[i].size(), "size");
            PBT_EQ(st[i]->empty(), m[i].empty(), "empty");
            if (!m[i].empty()) PBT_EQ(VT::get(st[i]->top()), m[i].back(), "top");
        }
        // what does not fit into the two pages of internal memory is external, and no more
        uint64_t blocks = 0;
        for (int i = 0; i < 2; ++i) if (!M::migrating || ext[i]) blocks += (m[i].size() + page - 1) / page * BPP;
        PBT_CHECK(stx::allocated() <= blocks * BS, stx::allocated() / BS << " blocks allocated, for " << m[0].size() << " and " << m[1].size() << " elements " << blocks << " suffice");
    }
    for (int k = 0; k < 2; ++k) {
        if (s.chance(1, 3)) continue;
        while (!m[k].empty()) { PBT_CHECK(VT::get(st[k]->top()) == m[k].back(), "element " << m[k].size() - 1 << " at the end is " << VT::get(st[k]->top()) << " instead of " << m[k].back()); st[k]->pop(); m[k].pop_back(); }
        PBT_CHECK(st[k]->empty(), "not empty after all elements were taken");
    }
    st[0].reset(); st[1].reset();
    stx::check_no_blocks("after destroying the stacks");
    mk.check_pool(0);
    if (maxlen > 4 * page && turns > 1) pbt::nontrivial();
}

#define EXT(T, BEH, BPP, BS, AS) typename stxxl::STACK_GENERATOR<T, stxxl::external, stxxl::BEH, BPP, BS, std::stack<T>, 1, stxxl::AS>::result
#define MIG(T, BEH, BPP, BS, CRIT) typename stxxl::STACK_GENERATOR<T, stxxl::migrating, stxxl::BEH, BPP, BS, std::stack<T>, CRIT, stxxl::RC>::result
typedef Rec<500> R5;
typedef Rec<1000> R10;
template <class T, unsigned BPP, unsigned BS> struct Types
{
    typedef EXT(T, normal, BPP, BS, striping) N;
    typedef EXT(T, grow_shrink, BPP, BS, RC) G;
    typedef EXT(T, grow_shrink2, BPP, BS, SR) P;
    typedef MIG(T, normal, BPP, BS, 50) MN;
    typedef MIG(T, grow_shrink, BPP, BS, 37) MG;
};
static const unsigned NOCRIT = 1u << 30;
#if PART == 0
PBT_TARGET_F(normal_1, 1600, 20000, 1, (run_stack<Maker<Types<R5, 1, 4096>::N>, R5, 4096, 1, NOCRIT>));
PBT_TARGET_F(normal_3, 1600, 20000, 1, (run_stack<Maker<Types<R10, 3, 4096>::N>, R10, 4096, 3, NOCRIT>));
PBT_TARGET_F(normal_u64, 600, 6000, 1, (run_stack<Maker<Types<uint64_t, 2, 4096>::N>, uint64_t, 4096, 2, NOCRIT>));
#elif PART == 1
PBT_TARGET_F(growshrink_1, 1600, 20000, 1, (run_stack<Maker<Types<R5, 1, 4096>::G>, R5, 4096, 1, NOCRIT>));
PBT_TARGET_F(growshrink_4, 1600, 20000, 1, (run_stack<Maker<Types<R10, 4, 4096>::G>, R10, 4096, 4, NOCRIT>));
PBT_TARGET_F(migrating_normal, 1000, 10000, 1, (run_stack<MigMaker<Types<R5, 2, 4096>::MN>, R5, 4096, 2, 50>));
#else
PBT_TARGET_F(growshrink2_5, 2500, 30000, 1, (run_stack<PoolMaker<Types<R5, 1, 4096>::P>, R5, 4096, 1, NOCRIT>));
PBT_TARGET_F(growshrink2_10, 2000, 20000, 1, (run_stack<PoolMaker<Types<R10, 1, 8192>::P>, R10, 8192, 1, NOCRIT>));
PBT_TARGET_F(migrating_growshrink, 1000, 10000, 1, (run_stack<MigMaker<Types<R5, 1, 4096>::MG>, R5, 4096, 1, 37>));
#endif
