// Block transfers stay within the bounds of external-memory algorithms: counted by the statistics, over generated histories.
#include <unistd.h>
#include "common.hpp"
#include <stxxl/bits/io/iostats.h>
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/map>
#include <stxxl/priority_queue>
#include <stxxl/sorter>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/scan>
#include <stxxl/stream>
#include <algorithm>
#include <list>
#include <memory>
#include <set>

namespace {
struct Io { uint64_t r, w, vr, vw; };
Io now() { stxxl::stats* s = stxxl::stats::get_instance(); return Io { s->get_reads(), s->get_writes(), (uint64_t)s->get_read_volume(), (uint64_t)s->get_written_volume() }; }
Io since(const Io& a) { Io b = now(); return Io { b.r - a.r, b.w - a.w, b.vr - a.vr, b.vw - a.vw }; }
// at most so many reads and writes of blocks
void within(const Io& d, uint64_t bs, uint64_t r, uint64_t w, const std::string& what)
{
    PBT_CHECK(d.r <= r, what << ": " << d.r << " blocks read, at most " << r << " expected (" << d.w << " written)");
    PBT_CHECK(d.w <= w, what << ": " << d.w << " blocks written, at most " << w << " expected (" << d.r << " read)");
    PBT_EQ(d.vr, d.r * bs, what << ": bytes read"); PBT_EQ(d.vw, d.w * bs, what << ": bytes written");
}
uint64_t cdiv(uint64_t a, uint64_t b) { return (a + b - 1) / b; }
// merge passes that reduce n runs to at most `to`, a at a time
unsigned passes(uint64_t n, uint64_t a, uint64_t to = 1) { unsigned k = 0; while (n > to) { n = cdiv(n, a); ++k; } return k; }

void disks(pbt::Src& s)
{
    stx::Opt o; o.allow_files = false; o.small_disks = false;
    stx::setup(s, o);
}

typedef Rec<500> R5;    // eight to a block
typedef Rec<1000> R10;  // four
enum { BS = 4096 };
struct Less { template <class T> bool operator () (const T& a, const T& b) const { return a.key() < b.key(); } R5 min_value() const { return R5(0); } R5 max_value() const { return R5(0xffffffffu); } };
struct Key { typedef uint32_t key_type; uint32_t operator () (const R5& x) const { return x.key(); } R5 min_value() const { return R5(0); } R5 max_value() const { return R5(0xffffffffu); } };
}

#if PART == 0
// the cache of a vector transfers what a pager with that many pages and that strategy transfers
template <unsigned PS, unsigned NP, bool LRU>
static void paging(pbt::Src& s)
{
    typedef typename stxxl::VECTOR_GENERATOR<R5, PS, NP, BS, stxxl::RC, (LRU ? stxxl::lru : stxxl::random)>::result V;
    disks(s);
    const uint64_t B = V::block_type::size, P = B * PS;
    uint64_t blocks = s.range(1, 40), n = blocks * B - s.raw(B), pages = cdiv(n, P);
    uint64_t cap = 0;
    PBT_NOTE("vector of " << n << " elements, pages of " << PS << " blocks, " << NP << " in memory");
    V v(n);
    const V& c = v;
    auto size = [&](uint64_t p) { return std::min<uint64_t>(PS, cdiv(v.capacity(), B) - p * PS); };
    std::vector<char> stored(cdiv(v.capacity(), P), 0), dirty(stored);
    std::list<uint64_t> in;      // least recently used first
    std::set<uint64_t> used;     // since everything was out
    uint64_t r = 0, w = 0, switches = 0, last = ~0ull, kicks = 0;
    Io start = now();
    unsigned nops = (unsigned)s.range(1, 60);
    uint64_t cursor = 0, x = 1;
    auto access = [&](uint64_t i, bool write) {
        uint64_t p = i / P;
        if (write) v[i] = R5((uint32_t)++x); else { R5 y = c[i]; (void)y; }
        pbt::ops();
        if (p != last) { ++switches; last = p; }
        used.insert(p);
        auto f = std::find(in.begin(), in.end(), p);
        if (f != in.end()) in.erase(f);
        else {
            if (in.size() == NP) { uint64_t q = in.front(); in.pop_front(); ++kicks; if (dirty[q]) { w += size(q); dirty[q] = 0; stored[q] = 1; } }
            if (stored[p]) r += size(p);
        }
        in.push_back(p);
        if (write) dirty[p] = 1;
    };
    for (unsigned k = 0; k < nops; ++k) {
        unsigned op = (unsigned)s.weighted({ 5, 3, 3, 2, 1 });
        bool write = s.chance(1, 2);
        switch (op) {
        case 0: access(s.raw(n), write); break;
        case 1: { uint64_t m = s.range(1, 3 * P); cursor = s.raw(n); for (uint64_t j = 0; j < m; ++j, cursor = (cursor + 1) % n) access(cursor, write); break; }
        case 2: { uint64_t a = s.raw(n), b = s.raw(n), m = s.range(1, 8); for (uint64_t j = 0; j < m; ++j) { access(a, write); access(b, !write); } break; }
        case 3: { uint64_t base = s.raw(n), m = s.range(1, 30), span = std::min<uint64_t>(n, NP * P); for (uint64_t j = 0; j < m; ++j) access((base + s.raw(span)) % n, write); break; }
        case 4: {
            v.flush();
            for (uint64_t p : in) if (dirty[p]) { w += size(p); dirty[p] = 0; stored[p] = 1; }
            in.clear(); used.clear(); last = ~0ull;
            if (!LRU) { Io d = since(start); r = d.r; w = d.w; switches = 0; }
            Io b = now(); v.flush(); within(since(b), BS, 0, 0, "flushing twice");
            break;
        }
        }
        Io d = since(start);
        if (LRU) within(d, BS, r, w, "pager");
        else if (used.size() <= NP) { within(d, BS, r + PS * used.size(), w, "pager, everything fits"); }
        else within(d, BS, r + PS * switches, w + PS * switches, "random pager");
    }
    (void)cap;
    if (kicks > 3) pbt::nontrivial();
}
PBT_TARGET_F(paging_1_3, 1500, 20000, 1, (paging<1, 3, true>));
PBT_TARGET_F(paging_2_2, 1200, 15000, 1, (paging<2, 2, true>));
PBT_TARGET_F(paging_4_4, 1200, 15000, 1, (paging<4, 4, true>));
PBT_TARGET_F(paging_1_1, 800, 10000, 1, (paging<1, 1, true>));
PBT_TARGET_F(paging_random, 1200, 15000, 1, (paging<2, 4, false>));

// scanning touches every block of the range once
template <unsigned PS, unsigned NP>
static void scanning(pbt::Src& s)
{
    typedef typename stxxl::VECTOR_GENERATOR<R5, PS, NP, BS, stxxl::striping, stxxl::lru>::result V;
    disks(s);
    const uint64_t B = V::block_type::size, P = B * PS;
    uint64_t n = 1 + s.size(40 * B, B);
    PBT_NOTE("vector of " << n << " elements, pages of " << PS << " blocks;");
    Io b = now();
    V v;
    for (uint64_t i = 0; i < n; ++i) v.push_back(R5((uint32_t)i));
    v.flush();
    within(since(b), BS, 0, cdiv(n, P) * PS, "appending");
    const V& c = v;
    unsigned nops = (unsigned)s.range(1, 8);
    for (unsigned k = 0; k < nops; ++k) {
        uint64_t f = s.chance(1, 2) ? 0 : s.raw(n), l = s.chance(1, 2) ? n : f + s.raw(n - f + 1);
        uint64_t blocks = l > f ? cdiv(l, B) - f / B : 0, pgs = l > f ? cdiv(l, P) - f / P : 0;
        unsigned nb = (unsigned)s.pick({ 0u, 2u, 3u, 5u, 20u });
        unsigned op = (unsigned)s.raw(12);
        v.flush();
        b = now();
        pbt::ops(l - f);
        uint64_t sum = 0;
        switch (op) {
        case 0: for (auto i = c.begin() + f; i != c.begin() + l; ++i) sum += i->key(); v.flush(); within(since(b), BS, pgs * PS, 0, "iterating"); break;
        case 1: for (uint64_t i = l; i-- > f; ) sum += c[i].key(); v.flush(); within(since(b), BS, pgs * PS, 0, "iterating backwards"); break;
        case 2: { typename V::bufreader_type r(v.begin() + f, v.begin() + l, nb); for ( ; !r.empty(); ++r) sum += r->key(); within(since(b), BS, blocks, 0, "buffered reading"); break; }
        case 3: { typename V::bufreader_reverse_type r(v.begin() + f, v.begin() + l, nb); for ( ; !r.empty(); ++r) sum += r->key(); within(since(b), BS, blocks, 0, "buffered reading backwards"); break; }
        case 4: stxxl::for_each(c.begin() + f, c.begin() + l, [&](const R5& x) { sum += x.key(); }, (int)nb); within(since(b), BS, blocks, 0, "for_each"); break;
        case 5: stxxl::for_each_m(v.begin() + f, v.begin() + l, [&](R5& x) { sum += x.key(); x = R5(x.key()); }, (int)nb); v.flush(); within(since(b), BS, blocks + 2 * PS, blocks + 2 * PS, "for_each_m"); break;
        case 6: { uint64_t at = l > f ? f + s.raw(l - f) : f; auto i = stxxl::find(c.begin() + f, c.begin() + l, R5((uint32_t)at), (int)nb); (void)i;
            uint64_t bufs = std::max<uint64_t>(nb, 2 * stxxl::config::get_instance()->disks_number());
            within(since(b), BS, std::min<uint64_t>(blocks, at / B - f / B + 2 + bufs), 0, "find"); sum = ~0ull; break; }
        case 7: { struct G { uint64_t i; R5 operator () () { return R5((uint32_t)i++); } } g = { f };
            stxxl::generate(v.begin() + f, v.begin() + l, g, (int)nb); v.flush(); within(since(b), BS, 2 * PS, blocks + 2 * PS, "generate"); sum = ~0ull; break; }
        case 8: { V u; { typename V::bufwriter_type w(u, nb); for (uint64_t i = f; i < l; ++i) w << R5((uint32_t)i); w.finish(); } u.flush(); within(since(b), BS, 2 * PS, cdiv(l - f, B) + 2 * PS, "buffered writing"); sum = ~0ull; break; }
        case 9: { auto st = stxxl::stream::streamify(c.begin() + f, c.begin() + l, nb); for ( ; !st.empty(); ++st) sum += (*st).key(); within(since(b), BS, blocks, 0, "streamify"); break; }
        case 10: { V u(l - f); if (l > f) { auto st = stxxl::stream::streamify(c.begin() + f, c.begin() + l, nb); stxxl::stream::materialize(st, u.begin(), u.end(), nb); } u.flush(); within(since(b), BS, blocks + 2 * PS, blocks + 2 * PS, "streamify to materialize"); sum = ~0ull; break; }
        case 11: { V u(v); within(since(b), BS, cdiv(n, P) * PS + 2 * PS, cdiv(n, P) * PS + 2 * PS, "copying"); sum = ~0ull; break; }
        }
        if (sum != ~0ull) PBT_EQ(sum, (l * (l - 1) - f * (f - 1)) / 2 * (l > f), "sum of the elements");
        PBT_NOTE("op " << op << " [" << f << "," << l << ") " << nb << ";");
        pbt::label("scan " + std::to_string(op));
    }
    if (n > 4 * P) pbt::nontrivial();
}
PBT_TARGET_F(scanning_1, 1500, 20000, 1, (scanning<1, 2>));
PBT_TARGET_F(scanning_4, 1000, 12000, 1, (scanning<4, 2>));
#endif

#if PART == 1
// stacks: the normal one amortises any history, the others every run of pushes or pops
template <class S, unsigned PS, class M>
static void stacks(pbt::Src& s)
{
    disks(s);
    M mk(s);
    std::unique_ptr<S> st(mk.make());
    const uint64_t B = stxxl::typed_block<BS, R5>::size, P = B * PS;
    uint64_t size = 0, ops = 0, dirs = 0, lr = 0, lw = 0;
    Io start = now();
    unsigned n = (unsigned)s.range(1, 40);
    bool up = true;
    for (unsigned k = 0; k < n; ++k) {
        bool push = s.chance(1, 2);
        uint64_t len = s.chance(2, 3) ? s.range(1, 4) : s.size(6 * P, P);
        if (s.chance(1, 4)) { uint64_t to = s.raw(4) * P + s.raw(3); push = to > size; len = push ? to - size : size - to; }   // to a page boundary
        if (!push) len = std::min(len, size);
        if (size + len > 20 * P) push = false, len = std::min(len, size);
        if (!len) continue;
        PBT_NOTE((push ? "push*" : "pop*") << len);
        Io b = now();
        for (uint64_t i = 0; i < len; ++i) if (push) { st->push(R5((uint32_t)(size + i))); } else { PBT_EQ(st->top().value(), (int64_t)(size - 1 - i), "top"); st->pop(); }
        if (push) size += len; else size -= len;
        ops += len; pbt::ops(len);
        if (push != up) { up = push; ++dirs; }
        Io d = since(b);
        uint64_t pg = len / P + 1;
        if (M::amortised) { if (push) within(d, BS, 0, pg * PS, "pushing"); else within(d, BS, pg * PS, 0, "popping"); }
        else {   // transfers started earlier may be counted later
            lr += push ? M::lookahead() : pg * PS + M::lookahead(); lw += push ? pg * PS : M::writeback();
            d = since(start);
            PBT_CHECK(d.r <= lr, d.r << " blocks read, at most " << lr << " expected"); PBT_CHECK(d.w <= lw, d.w << " blocks written, at most " << lw << " expected");
        }
        if (M::amortised) { Io t = since(start); PBT_CHECK(t.r + t.w <= PS * (1 + ops / (P - 1)), t.r << " reads and " << t.w << " writes for " << ops << " operations on pages of " << P); }
    }
    st.reset();
    if (dirs > 2 && ops > 3 * P) pbt::nontrivial();
}
template <class S> struct Plain { static const bool amortised = true; static uint64_t lookahead() { return 0; } static uint64_t writeback() { return 0; } Plain(pbt::Src&) { } S* make() { return new S; } };
template <class S, unsigned PS> struct Buffered { static const bool amortised = false; static uint64_t lookahead() { return PS; } static uint64_t writeback() { return PS; } Buffered(pbt::Src&) { } S* make() { return new S; } };
template <class S> struct Pooled
{
    static const bool amortised = false; enum { AGGR = 3 }; static uint64_t lookahead() { return AGGR; } static uint64_t writeback() { return 0; }
    stxxl::read_write_pool<typename S::block_type> pool;
    unsigned aggr;
    Pooled(pbt::Src& s) : pool(4, 3), aggr((unsigned)s.raw(AGGR + 1)) { }
    S* make() { return new S(pool, aggr); }
   
};
#define EXT(BEH, BPP, AS) stxxl::STACK_GENERATOR<R5, stxxl::external, stxxl::BEH, BPP, BS, std::stack<R5>, 1, stxxl::AS>::result
typedef EXT(normal, 1, RC) N1; typedef EXT(normal, 3, striping) N3; typedef EXT(grow_shrink, 2, SR) G2; typedef EXT(grow_shrink2, 1, FR) P1;
PBT_TARGET_F(stack_normal_1, 1200, 15000, 1, (stacks<N1, 1, Plain<N1> >));
PBT_TARGET_F(stack_normal_3, 1200, 15000, 1, (stacks<N3, 3, Plain<N3> >));
PBT_TARGET_F(stack_growshrink, 800, 10000, 1, (stacks<G2, 2, Buffered<G2, 2> >));
PBT_TARGET_F(stack_growshrink2, 800, 10000, 1, (stacks<P1, 1, Pooled<P1> >));

// queues: every block is written once and read once at most
static void queues(pbt::Src& s)
{
    typedef stxxl::queue<R5, BS> Q; typedef stxxl::sequence<R5, BS> S;
    disks(s);
    const uint64_t B = Q::block_type::size;
    unsigned kind = (unsigned)s.raw(3);
    unsigned np = (unsigned)s.range(1, 6), nw = (unsigned)s.range(3, 6); int pref = (int)s.irange(-1, 6);
    std::unique_ptr<Q> q; std::unique_ptr<S> t;
    if (kind == 0) q.reset(new Q((stxxl::unsigned_type)nw, (stxxl::unsigned_type)np, pref)); else t.reset(new S((stxxl::unsigned_type)nw, (stxxl::unsigned_type)np, pref));
    uint64_t in = 0, out = 0;
    Io b = now();
    unsigned n = (unsigned)s.range(1, 30);
    for (unsigned k = 0; k < n; ++k) {
        bool push = s.chance(1, 2);
        uint64_t len = s.chance(1, 2) ? s.range(1, 2 * B) : s.size(12 * B, B);
        if (!push) len = std::min(len, in - out);
        PBT_NOTE((push ? "push*" : "pop*") << len);
        for (uint64_t i = 0; i < len; ++i) {
            if (push) { R5 x((uint32_t)in++); if (kind == 0) q->push(x); else if (kind == 1) t->push_back(x); else t->push_front(x); }
            else {
                int64_t y = kind == 0 ? q->front().value() : kind == 1 ? t->front().value() : t->back().value();
                PBT_EQ(y, (int64_t)out, "next element"); ++out;
                if (kind == 0) q->pop(); else if (kind == 1) t->pop_front(); else t->pop_back();
            }
        }
        pbt::ops(len);
        Io d = since(b);
        uint64_t lr = std::min<uint64_t>(in / B, out / B + 1 + np), lw = in / B;
        PBT_CHECK(d.r <= lr, d.r << " blocks read, at most " << lr << " expected"); PBT_CHECK(d.w <= lw, d.w << " blocks written, at most " << lw << " expected");
        PBT_CHECK(d.vr <= lr * BS && d.vw <= lw * BS, d.vr << " bytes read and " << d.vw << " written");
    }
    if (in > 6 * B && out > 3 * B) pbt::nontrivial();
}
PBT_TARGET_F(queues, 1500, 20000, 1, queues);

// the priority queue writes every element at most once per external level, and reads no block twice
template <unsigned PAD> struct PqItem { uint32_t k; unsigned char pad[PAD]; PqItem() { } explicit PqItem(uint32_t x) : k(x) { memset(pad, (int)x, PAD); } };
template <unsigned PAD> std::ostream& operator << (std::ostream& o, const PqItem<PAD>& x) { return o << x.k; }
template <unsigned PAD> struct PqCmp { typedef PqItem<PAD> I; bool operator () (const I& a, const I& b) const { return a.k > b.k; } I min_value() const { return I(0xffffffffu); } };
template <unsigned PAD, unsigned N, unsigned IK, unsigned IL, unsigned EK, unsigned EL>
static void pq(pbt::Src& s)
{
    typedef PqItem<PAD> I;
    typedef stxxl::priority_queue<stxxl::priority_queue_config<I, PqCmp<PAD>, 8, N, IK, IL, BS, EK, EL> > Q;
    disks(s);
    const uint64_t B = BS / sizeof(I);
    uint64_t cap = N; for (unsigned i = 0; i < IL; ++i) cap *= IK; for (unsigned i = 0; i < EL; ++i) cap *= EK;
    typename Q::pool_type pool((stxxl::unsigned_type)s.range(0, 5), (stxxl::unsigned_type)s.range(2, 5));
    Q q(pool);
    std::multiset<uint32_t> m;
    uint64_t pushes = 0, x = s.raw(1u << 16) + 1;
    auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 20) % 1000000000u; };
    Io b = now();
    unsigned n = (unsigned)s.range(1, 12);
    bool monotone = s.chance(1, 3);
    for (unsigned k = 0; k < n; ++k) {
        unsigned kind = (unsigned)s.raw(3);
        uint64_t len = s.size(std::min<uint64_t>(cap, 8000), N * 4);
        PBT_NOTE("push\0pop\0\0mix" + 5 * kind << " " << len << ";");
        for (uint64_t i = 0; i < len; ++i) {
            bool push = kind == 0 || (kind == 2 && (rnd() & 1));
            if (push) { if (m.size() >= cap / 2) continue; uint32_t v = monotone && !m.empty() ? *m.begin() + rnd() % 100000 : rnd(); q.push(I(v)); m.insert(v); ++pushes; }
            else if (!m.empty()) { PBT_EQ(q.top().k, *m.begin(), "top"); q.pop(); m.erase(m.begin()); }
        }
        pbt::ops(len);
        Io d = since(b);
        uint64_t lim = EL * (pushes / B + pushes / N + 1);
        PBT_CHECK(d.w <= lim, d.w << " blocks written, at most " << lim << " expected");
        PBT_CHECK(d.r <= d.w, d.r << " blocks read, " << d.w << " written");
    }
    Io d = since(b);
    if (d.w > 5 && d.r > 3) pbt::nontrivial();
}
PBT_TARGET_F(pq_a, 700, 8000, 1, (pq<248, 16, 4, 1, 3, 2>));
PBT_TARGET_F(pq_b, 700, 8000, 1, (pq<60, 24, 5, 2, 4, 2>));
#endif

#if PART == 2
static std::vector<uint32_t> keys(pbt::Src& s, uint64_t n)
{
    std::vector<uint32_t> k(n);
    uint64_t x = s.raw(1u << 16) * 0x9E3779B97F4A7C15ull + 12345; unsigned dist = (unsigned)s.raw(4);
    for (uint64_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; k[i] = 1 + (dist == 0 ? (uint32_t)(x >> 24) % 1000000 : dist == 1 ? (uint32_t)i : dist == 2 ? (uint32_t)(n - i) : (uint32_t)(x >> 24) % 5); }
    return k;
}
// sorting takes one pass for the runs and as many as needed for merging them
static void sorting(pbt::Src& s)
{
    typedef stxxl::VECTOR_GENERATOR<R5, 1, 2, BS, stxxl::RC>::result V;
    disks(s);
    const uint64_t B = V::block_type::size, F = stxxl::sort_memory_usage_factor();
    uint64_t M = s.range(2, s.chance(1, 2) ? 5 : 14), n = 1 + s.size(s.chance(1, 6) ? 600 * B : 60 * B, M / 2 * B);
    bool by_key = s.chance(1, 2);
    uint64_t f = s.chance(2, 3) ? 0 : s.raw(n), l = s.chance(2, 3) ? n : f + s.raw(n - f + 1);
    PBT_NOTE((by_key ? "ksort" : "sort") << " of [" << f << "," << l << ") of " << n << " elements with " << M << " blocks");
    std::vector<uint32_t> k = keys(s, n);
    V v;
    for (uint32_t x : k) v.push_back(R5(x));
    v.flush();
    stxxl::SETTINGS::native_merge = s.chance(1, 2);
    Io b = now();
    if (by_key) stxxl::ksort(v.begin() + f, v.begin() + l, Key(), (stxxl::unsigned_type)(M * F * BS));
    else stxxl::sort(v.begin() + f, v.begin() + l, Less(), (stxxl::unsigned_type)(M * F * BS));
    v.flush();
    Io d = since(b);
    uint64_t blocks = l > f ? cdiv(l, B) - f / B : 0, run = M / 2, runs = cdiv(blocks, std::max<uint64_t>(1, by_key ? (M + 1) / 2 - 1 : run));   // the keys of a run take part of a block
    unsigned ps = (l - f) * sizeof(R5) * F < M * F * BS ? 0 : passes(runs, M);
    within(d, BS, blocks * (1 + ps) + 8, blocks * (1 + ps) + 8, "sorting");
    std::sort(k.begin() + f, k.begin() + l);
    uint64_t i = 0;
    for (V::const_iterator it = v.cbegin(); it != v.cend(); ++it, ++i) PBT_EQ(it->value(), (int64_t)k[i], "element " << i);
    pbt::ops(n);
    if (ps > 0) pbt::nontrivial();
    pbt::label("merge passes " + std::to_string(ps));
}
PBT_TARGET_F(sorting, 1200, 15000, 1, sorting);

// sorters: the runs are written once, reading them is one pass as long as there is a buffer for each
static void sorters(pbt::Src& s)
{
    typedef stxxl::sorter<R5, Less, BS> S;
    disks(s);
    const uint64_t B = stxxl::typed_block<BS, R5>::size, F = stxxl::sort_memory_usage_factor(), D = stxxl::config::get_instance()->disks_number();
    uint64_t C = s.range(2, 9), A = 2 + s.raw(s.chance(1, 2) ? 6 : 20), mm = 4 * D + 1 + A;
    uint64_t run = C / 2, n = 1 + s.size(60 * B, run * B);
    if (s.chance(1, 25)) {   // numbers of runs around a power of the number that can be merged
        uint64_t e = 1, p = A; while (p * A <= 3200 && s.chance(4, 5)) { p *= A; ++e; }
        C = 2; run = 1; n = p * B; n = n - 3 + s.raw(3 + B);
        pbt::label("power of the fan-in");
    }
    PBT_NOTE("sorter of " << n << " elements, runs of " << run << " blocks, " << mm << " blocks for merging on " << D << " disks, fan-in " << A << ";");
    stxxl::SETTINGS::native_merge = s.chance(1, 2);
    std::vector<uint32_t> k = keys(s, n);
    S q(Less(), (stxxl::unsigned_type)(C * F * BS), (stxxl::unsigned_type)(mm * BS));
    uint64_t blocks = cdiv(n, B), runs = cdiv(blocks, run);
    Io b = now();
    for (uint32_t x : k) q.push(R5(x));
    within(since(b), BS, 0, blocks + runs, "forming runs");
    bool small = n <= B;
    q.sort();
    // what is left to be read: if there are more runs than buffers, they are merged to fewer first
    unsigned rec = runs + 2 * D <= mm - 1 ? 0 : std::max(1u, passes(runs, A, A));
    std::sort(k.begin(), k.end());
    unsigned rounds = (unsigned)s.range(1, 3);
    uint64_t lim = small ? 0 : blocks + runs;
    for (unsigned r = 0; r < rounds; ++r) {
        uint64_t i = 0;
        if (s.chance(1, 3) && r + 1 < rounds) {   // not to the end
            uint64_t h = s.raw(n);
            for ( ; i < h; ++i, ++q) PBT_EQ((*q).value(), (int64_t)k[i], "element " << i);
        }
        else for ( ; !q.empty(); ++i, ++q) PBT_EQ((*q).value(), (int64_t)k[i], "element " << i);
        Io d = since(b);
        within(d, BS, lim * (rec + r + 1), lim * (rec + 1), "sorter read " + std::to_string(r + 1) + " times with " + std::to_string(rec) + " recursive passes");
        if (r + 1 < rounds) q.rewind();
    }
    pbt::ops(n);
    if (runs > 2) pbt::nontrivial();
    pbt::label("recursive passes " + std::to_string(rec));
}
PBT_TARGET_F(sorters, 1200, 15000, 1, sorters);

// maps: an access costs one path, a scan one transfer per leaf
struct LessU { bool operator () (uint32_t a, uint32_t b) const { return a < b; } static uint32_t max_value() { return 0xffffffffu; } };
template <unsigned N>
static void maps(pbt::Src& s)
{
    typedef stxxl::map<uint32_t, Rec<N>, LessU, BS, BS, stxxl::SR> M;
    typedef std::pair<uint32_t, Rec<N> > Pair;
    disks(s);
    const uint64_t leaf = (BS - 40) / sizeof(Pair), node = (BS - 40) / 24;
    uint64_t n = s.size(60 * leaf, leaf);
    unsigned nodes = (unsigned)s.range(3, 8), leaves = (unsigned)s.range(3, 12);
    M m(nodes * BS, leaves * BS);
    std::vector<uint32_t> k(n);
    uint64_t x = s.raw(1u << 16) * 0x9E3779B97F4A7C15ull + 12345;
    std::set<uint32_t> in;
    while (in.size() < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; in.insert((uint32_t)(x >> 20) % 1000000); }
    std::copy(in.begin(), in.end(), k.begin());
    bool bulk = s.chance(1, 3);
    PBT_NOTE("map of " << n << " elements, " << leaf << " to a leaf, cache of " << nodes << " nodes and " << leaves << " leaves" << (bulk ? ", constructed at once" : ""));
    Io b = now();
    uint64_t maxleaves = n / (leaf / 2) + 1;
    unsigned H = 2 + passes(maxleaves, node / 2, node);   // a leaf, and a node on each level below the root
    std::unique_ptr<M> mb;
    if (bulk) {
        std::vector<Pair> v; for (uint32_t a : k) v.push_back(Pair(a, Rec<N>(a)));
        mb.reset(new M(v.begin(), v.end(), nodes * BS, leaves * BS, true));
        within(since(b), BS, maxleaves, 2 * maxleaves + 2, "constructing at once");
    }
    else {
        std::vector<uint32_t> p(k);
        if (s.chance(1, 2)) for (uint64_t i = p.size(); i > 1; --i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; std::swap(p[i - 1], p[(x >> 20) % i]); }
        for (uint32_t a : p) m.insert(Pair(a, Rec<N>(a)));
        within(since(b), BS, n * H, n * H + maxleaves, "inserting");
    }
    M& y = bulk ? *mb : m;
    const M& c = y;
    const Io quiet = now();   // from here on nothing changes, so what is written are the changed blocks still in memory
    uint64_t finds = s.raw(60);
    for (uint64_t i = 0; i < finds; ++i) {
        uint32_t a = s.chance(1, 2) && n ? k[s.raw(n)] : (uint32_t)s.raw(1000000);
        Io e = now();
        bool found = c.find(a) != c.end();
        PBT_EQ(found, in.count(a) == 1, "found");
        within(since(e), BS, H, H, "a lookup");
    }
    if (s.chance(1, 2)) y.enable_prefetching(); else y.disable_prefetching();
    b = now();
    uint64_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) PBT_EQ(it->first, k[i], "key " << i);
    PBT_EQ(i, n, "elements");
    within(since(b), BS, maxleaves + H + leaves, nodes + leaves + 2, "scanning");
    PBT_CHECK(since(quiet).w <= nodes + leaves, since(quiet).w << " blocks written by lookups and a scan, with " << nodes << " nodes and " << leaves << " leaves in memory");
    pbt::ops(n + finds);
    if (n > 4 * leaf && finds > 3) pbt::nontrivial();
}
PBT_TARGET_F(maps_big, 900, 10000, 1, (maps<500>));
PBT_TARGET_F(maps_small, 500, 6000, 1, (maps<60>));
#endif
