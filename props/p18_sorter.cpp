// The sorter container, and the runs creators, the runs merger and the sort stream it is made of.
#include "common.hpp"
#include <stxxl/bits/containers/sorter.h>
#include <stxxl/bits/containers/vector.h>
#include <stxxl/bits/stream/sort_stream.h>
#include <stxxl/bits/stream/stream.h>
#include <algorithm>
#include <memory>

// Elements are ordered by value / DIV, so that several are equal; the values themselves are different.
static const uint32_t DIV = 8;
template <class E> struct Cmp
{
    static uint32_t key(const E& e) { return e.key() / DIV; }
    bool operator () (const E& a, const E& b) const { return key(a) < key(b); }
    E min_value() const { return E(0); }
    E max_value() const { return E(0xffffffffu); }
};
typedef std::vector<uint32_t> Values;

// What is read in order, against the model: the same elements, ordered.
struct Reader
{
    Values sorted, got;
    size_t pos;
    explicit Reader(const Values& v) : sorted(v), pos(0) { std::sort(sorted.begin(), sorted.end()); }
    size_t left() const { return sorted.size() - pos; }
    void group_end()
    {
        if (got.empty()) return;
        std::sort(got.begin(), got.end());
        size_t b = pos - got.size();
        for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == sorted[b + i], "elements of key " << sorted[b + i] / DIV << " are not those put in: " << got[i] << " instead of " << sorted[b + i]);
        got.clear();
    }
    template <class E> void take(const E& e)
    {
        PBT_CHECK(pos < sorted.size(), "more elements than were put in: " << e.value());
        PBT_CHECK(e.value() >= 0, "damaged element at " << pos << " of " << sorted.size() << " (key " << e.key() << ")");
        PBT_CHECK(e.key() / DIV == sorted[pos] / DIV, "element " << pos << " of " << sorted.size() << " is " << e.key() << " instead of one like " << sorted[pos]);
        if (!got.empty() && got.back() / DIV != e.key() / DIV) group_end();
        got.push_back(e.key());
        ++pos;
        if (pos == sorted.size()) group_end();
    }
};

static uint32_t draw(pbt::Src& s, unsigned dist, uint64_t i, uint64_t n)
{
    uint64_t k;
    switch (dist) {
    case 0: k = 1 + s.raw(1000000); break;
    case 1: k = 1 + s.raw(4); break;
    case 2: k = 5; break;
    case 3: k = 1 + i; break;
    case 4: k = 1 + n - std::min(i, n); break;
    default: k = 1 + (i * 31) % 97; break;
    }
    return (uint32_t)(k * DIV + i % DIV);
}

static uint64_t merger_memory(pbt::Src& s, uint64_t RAW)
{
    uint64_t D = stxxl::config::get_instance()->disks_number();
    uint64_t f = stxxl::sort_memory_usage_factor();
    (void)f;
    return (4 * D + 3 + (s.chance(1, 2) ? s.raw(4) : s.raw(30))) * RAW + (s.chance(1, 4) ? s.raw(RAW) : 0);
}
static uint64_t creator_memory(pbt::Src& s, uint64_t RAW)
{
    return (2 + (s.chance(1, 2) ? s.raw(3) : s.raw(14))) * RAW * stxxl::sort_memory_usage_factor() + (s.chance(1, 4) ? s.raw(RAW) : 0);
}

template <class E, unsigned BS, class AS>
static void history(pbt::Src& s)
{
    typedef Cmp<E> C;
    typedef stxxl::sorter<E, C, BS, AS> sorter;
    const uint64_t B = stxxl::typed_block<BS, E>::size;
    stx::setup(s);
    stxxl::SETTINGS::native_merge = s.chance(1, 2);
    uint64_t cm = creator_memory(s, BS), mm = merger_memory(s, BS);
    PBT_NOTE("sorter of " << sizeof(E) << " bytes, " << cm / BS << " and " << mm / BS << " blocks of " << B << (stxxl::SETTINGS::native_merge ? " native;" : ";"));
    uint64_t maxn = 0, rounds = 0;
    {
        std::unique_ptr<sorter> p(cm >= mm || s.chance(3, 4) ? new sorter(C(), cm, mm) : new sorter(C(), mm));
        if (cm < mm) { }
        Values v;
        std::unique_ptr<Reader> r;
        bool closed = false;               // no more input until it is cleared
        unsigned dist = (unsigned)s.raw(6);
        uint64_t limit = 45 * B;
        for (unsigned t = 1 + (unsigned)s.raw(14); t; --t) {
            if (!r) {
                PBT_EQ(p->size(), v.size(), "size while filling");
                switch (s.weighted({ 8, 4, 1, 1, 2, 1, 1, 1 })) {
                case 0: {
                    if (closed) break;
                    uint64_t n = s.size(limit - v.size(), B);
                    PBT_NOTE("push*" << n);
                    for (uint64_t i = 0; i < n; ++i) { uint32_t x = draw(s, dist, v.size(), limit); v.push_back(x); p->push(E(x)); }
                    pbt::ops(n);
                } break;
                case 1: PBT_NOTE("sort"); p->sort(); r.reset(new Reader(v)); closed = true; break;
                case 2: mm = merger_memory(s, BS); PBT_NOTE("sort(" << mm / BS << ")"); p->sort((stxxl::unsigned_type)mm); r.reset(new Reader(v)); closed = true; break;
                case 3: mm = merger_memory(s, BS); PBT_NOTE("merger memory " << mm / BS); p->set_merger_memory_to_use((stxxl::unsigned_type)mm); break;
                case 4: PBT_NOTE("sort_reuse"); p->sort_reuse(); r.reset(new Reader(v)); closed = true; break;
                case 5: PBT_NOTE("clear"); p->clear(); v.clear(); closed = false; dist = (unsigned)s.raw(6); break;
                case 6: PBT_NOTE("finish"); p->finish(); closed = true; break;
                default: PBT_NOTE("finish_clear");
                    p->finish_clear();
                    PBT_EQ(stx::allocated(), 0u, "allocated after finish_clear");
                    PBT_EQ(p->size(), 0u, "size after finish_clear");
                    p->clear(); v.clear(); closed = false; break;
                }
                if (!closed && s.chance(1, 40)) {
                    // too little memory for merging: refused, or enough for these runs
                    uint64_t poor = s.raw(4 * BS);
                    PBT_NOTE("sort(poor)");
                    bool threw = false;
                    try { p->sort((stxxl::unsigned_type)poor); } catch (stxxl::bad_parameter&) { threw = true; }
                    closed = true;
                    p->set_merger_memory_to_use((stxxl::unsigned_type)mm);
                    if (threw) pbt::label("refused"); else r.reset(new Reader(v));
                }
                maxn = std::max<uint64_t>(maxn, v.size());
                if (r) {
                    ++rounds;
                    PBT_EQ(p->size(), v.size(), "size after sorting");
                    PBT_EQ(p->empty(), v.empty(), "empty after sorting");
                }
            }
            else {
                switch (s.weighted({ 8, 3, 1, 1, 3, 1, 1 })) {
                case 0: case 1: {
                    uint64_t n = s.chance(1, 2) ? r->left() : s.size(r->left(), B);
                    PBT_NOTE("read*" << n);
                    for (uint64_t i = 0; i < n; ++i) {
                        PBT_CHECK(!p->empty(), "empty with " << r->left() << " elements left of " << v.size());
                        PBT_EQ(p->size(), r->left(), "size while reading");
                        const sorter& c = *p;
                        PBT_CHECK(&*c == c.operator -> (), "-> leads to something else than *");
                        r->take(*c);
                        ++*p;
                    }
                    PBT_EQ(p->empty(), r->left() == 0, "empty after reading");
                    pbt::ops(n);
                } break;
                case 2: PBT_NOTE("rewind"); p->rewind(); r.reset(new Reader(v)); ++rounds; break;
                case 3: mm = merger_memory(s, BS); PBT_NOTE("sort again(" << mm / BS << ")"); p->sort((stxxl::unsigned_type)mm); r.reset(new Reader(v)); ++rounds; break;
                case 4: PBT_NOTE("clear"); p->clear(); v.clear(); r.reset(); closed = false; dist = (unsigned)s.raw(6); break;
                case 5: PBT_NOTE("finish, sort"); p->finish(); p->sort(); r.reset(new Reader(v)); ++rounds; break;
                default: PBT_NOTE("finish_clear, clear");
                    p->finish_clear();
                    PBT_EQ(stx::allocated(), 0u, "allocated after finish_clear");
                    PBT_CHECK(p->empty() && p->size() == 0, "elements left after finish_clear");
                    p->clear(); v.clear(); r.reset(); closed = false; break;
                }
            }
        }
    }
    stx::check_no_blocks("after the sorter is gone");
    stxxl::SETTINGS::native_merge = true;
    if (maxn * sizeof(E) > 3 * cm && rounds) pbt::nontrivial();
}

// an input stream that knows its contents and how often it was asked
template <class E>
struct Input
{
    typedef E value_type;
    const Values& v;
    size_t pos;
    E cur;
    explicit Input(const Values& x) : v(x), pos(0), cur(x.empty() ? E(1) : E(x[0])) { }
    bool empty() const { return pos == v.size(); }
    const E& operator * () const { PBT_CHECK(!empty(), "reads from the input beyond its end"); return cur; }
    const E* operator -> () const { return &**this; }
    Input& operator ++ () { PBT_CHECK(!empty(), "advances the input beyond its end"); if (++pos < v.size()) cur = E(v[pos]); return *this; }
};

template <class S>
static void drain(pbt::Src& s, S& st, Reader& r, uint64_t n)
{
    (void)s;
    for (uint64_t i = 0; i < n; ++i) {
        PBT_CHECK(!st.empty(), "empty with " << r.left() << " elements left");
        r.take(*st);
        ++st;
    }
    PBT_EQ(st.empty(), r.left() == 0, "empty after reading");
    pbt::ops(n);
}

template <class E, unsigned BS, class AS>
static void streams(pbt::Src& s)
{
    typedef Cmp<E> C;
    const uint64_t B = stxxl::typed_block<BS, E>::size;
    stx::setup(s);
    stxxl::SETTINGS::native_merge = s.chance(1, 2);
    uint64_t cm = creator_memory(s, BS), mm = merger_memory(s, BS);
    uint64_t n = s.size(45 * B, B);
    // around the ends of the first runs
    if (s.chance(1, 3)) { uint64_t run = cm / BS / stxxl::sort_memory_usage_factor() / 2 * B; n = run * s.raw(4) + s.raw(3); n -= std::min<uint64_t>(n, 1); }
    unsigned dist = (unsigned)s.raw(6), how = (unsigned)s.raw(5);
    bool whole = s.chance(2, 3);
    PBT_NOTE(n << " elements of " << sizeof(E) << " bytes, " << cm / BS << " and " << mm / BS << " blocks of " << B << ", keys " << dist << ", way " << how << (stxxl::SETTINGS::native_merge ? " native" : "") << (whole ? "" : ", read in part"));
    {
        Values v;
        for (uint64_t i = 0; i < n; ++i) v.push_back(draw(s, dist, i, n));
        Reader r(v);
        uint64_t take = whole ? n : s.size(n, B);
        if (how == 0) {
            Input<E> in(v);
            stxxl::stream::sort<Input<E>, C, BS, AS> st(in, C(), (stxxl::unsigned_type)cm, (stxxl::unsigned_type)mm);
            PBT_CHECK(in.empty(), "input left");
            if (n) PBT_CHECK(&*st == st.operator -> (), "-> leads to something else than *");
            drain(s, st, r, take);
        }
        else if (how == 1) {
            Input<E> in(v);
            typedef stxxl::stream::runs_creator<Input<E>, C, BS, AS> creator;
            typename creator::sorted_runs_type runs;
            {
                creator c(in, C(), (stxxl::unsigned_type)cm);
                runs = c.result();
                PBT_CHECK(runs == c.result(), "another result the second time");
            }
            PBT_EQ(runs->elements, n, "elements in the runs");
            PBT_CHECK(runs->small_run.empty() ? stxxl::stream::check_sorted_runs(runs, C()) : runs->runs.empty(), "runs are not ordered");
            stxxl::stream::runs_merger<typename creator::sorted_runs_type, C, AS> m(runs, C(), (stxxl::unsigned_type)mm);
            runs = NULL;
            PBT_EQ(m.size(), n, "size of the merger");
            drain(s, m, r, take);
            PBT_EQ(m.size(), n - take, "size of the merger");
        }
        else if (how == 2) {
            // pushed; merged several times
            typedef stxxl::stream::runs_creator<stxxl::stream::use_push<E>, C, BS, AS> creator;
            std::unique_ptr<creator> c(new creator(C(), (stxxl::unsigned_type)cm));
            for (uint64_t i = 0; i < n; ++i) { PBT_EQ(c->size(), i, "size of the creator"); c->push(E(v[i])); }
            PBT_EQ(c->memory_used(), cm, "memory of the creator");
            typename creator::sorted_runs_type runs = c->result();
            PBT_EQ(runs->elements, n, "elements in the runs");
            PBT_EQ(c->size(), n, "size of the creator");
            stxxl::stream::runs_merger<typename creator::sorted_runs_type, C, AS> m(C(), (stxxl::unsigned_type)mm);
            for (unsigned t = 1 + (unsigned)s.raw(3); t; --t) {
                Reader r2(v);
                m.initialize(runs);
                uint64_t k = t == 1 ? take : s.size(n, B);
                drain(s, m, r2, k);
                if (s.chance(1, 2)) m.deallocate();
                if (s.chance(1, 2)) { m.deallocate(); c.reset(); m.set_memory_to_use((stxxl::unsigned_type)merger_memory(s, BS)); }
            }
        }
        else if (how == 3) {
            // sequences that are in order already
            typedef stxxl::stream::runs_creator<stxxl::stream::from_sorted_sequences<E>, C, BS, AS> creator;
            typename creator::sorted_runs_type runs;
            {
                creator c(C(), (stxxl::unsigned_type)cm);
                uint64_t i = 0, seqs = 0;
                while (i < n) {
                    uint64_t k = std::min<uint64_t>(n - i, 1 + s.size(6 * B, B));
                    Values part(v.begin() + i, v.begin() + i + k);
                    std::sort(part.begin(), part.end());
                    for (uint64_t j = 0; j < k; ++j) c.push(E(part[j]));
                    i += k; ++seqs;
                    if (i < n || s.chance(1, 2)) c.finish();
                    if (s.chance(1, 8)) c.finish();
                }
                runs = c.result();
                PBT_EQ(runs->runs.size(), seqs, "number of runs");
                if (s.chance(1, 2)) PBT_CHECK(runs == c.result(), "another result the second time");
            }
            PBT_EQ(runs->elements, n, "elements in the runs");
            PBT_CHECK(stxxl::stream::check_sorted_runs(runs, C()), "runs are not ordered");
            stxxl::stream::runs_merger<typename creator::sorted_runs_type, C, AS> m(runs, C(), (stxxl::unsigned_type)mm);
            drain(s, m, r, take);
        }
        else {
            // over iterators
            stxxl::vector<E, 1, stxxl::lru_pager<3>, BS, AS> x;
            for (uint64_t i = 0; i < n; ++i) x.push_back(E(v[i]));
            uint64_t a = s.chance(1, 2) ? 0 : s.size(n, B), b = a + s.size(n - a, B);
            stxxl::sort<BS>(x.begin() + a, x.begin() + b, C(), (stxxl::unsigned_type)std::max(cm, mm), AS());
            Reader r2(Values(v.begin() + a, v.begin() + b));
            const stxxl::vector<E, 1, stxxl::lru_pager<3>, BS, AS>& cx = x;
            PBT_EQ(cx.size(), n, "size of the vector");
            for (uint64_t i = 0; i < n; ++i) {
                if (i < a || i >= b) PBT_CHECK(cx[i].value() == v[i], "element " << i << " outside the range " << a << ".." << b << " is " << cx[i].value() << " instead of " << v[i]);
                else r2.take(cx[i]);
            }
        }
    }
    stx::check_no_blocks("at the end");
    stxxl::SETTINGS::native_merge = true;
    static const char* L[] = { "sort stream", "runs of a stream", "runs of pushed elements", "sorted sequences", "iterators" };
    pbt::label(L[how]);
    if (n * sizeof(E) > 2 * cm) pbt::nontrivial();
    if (n * sizeof(E) / (cm / 2) > mm / BS) pbt::label("several passes");
}

#if PART == 0
PBT_TARGET_F(sorter_64, 500, 5000, 1, (history<Rec<64>, 4096, stxxl::striping>));
PBT_TARGET_F(streams_64, 500, 5000, 1, (streams<Rec<64>, 4096, stxxl::RC>));
#else
PBT_TARGET_F(sorter_400, 800, 8000, 1, (history<Rec<400>, 4096, stxxl::RC>));
PBT_TARGET_F(streams_400, 800, 8000, 1, (streams<Rec<400>, 4096, stxxl::SR>));
#endif
