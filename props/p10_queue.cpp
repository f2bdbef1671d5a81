// Queues and sequences against std::deque.
#include "common.hpp"
#include <stxxl/bits/containers/queue.h>
#include <stxxl/bits/containers/sequence.h>
#include <deque>
#include <memory>

template <class T, unsigned BS> struct QueueKind
{
    typedef stxxl::queue<T, BS, stxxl::striping> type;
    static const bool both = false;
    static void push_front(type&, const T&) { }
    static void pop_back(type&) { }
    static void pop_front(type& q) { q.pop(); }
    static void push_back(type& q, const T& v) { q.push(v); }
    template <class V> static void walk(type&, const V&, pbt::Src&, unsigned, unsigned) { }
};
template <class T, unsigned BS> struct SeqKind
{
    typedef stxxl::sequence<T, BS, stxxl::RC> type;
    static const bool both = true;
    static void push_front(type& q, const T& v) { q.push_front(v); }
    static void pop_back(type& q) { q.pop_back(); }
    static void pop_front(type& q) { q.pop_front(); }
    static void push_back(type& q, const T& v) { q.push_back(v); }
    // reads with n streams at once, alternating, some given up before the end
    template <class V>
    static void walk(type& q, const V& m, pbt::Src& s, unsigned nfwd, unsigned nrev)
    {
        typedef Val<T> VT;
        std::vector<std::unique_ptr<typename type::stream> > f;
        std::vector<std::unique_ptr<typename type::reverse_stream> > r;
        std::vector<uint64_t> fp(nfwd, 0), rp(nrev, 0);
        for (unsigned i = 0; i < nfwd; ++i) f.emplace_back(new typename type::stream(q.get_stream()));
        for (unsigned i = 0; i < nrev; ++i) r.emplace_back(new typename type::reverse_stream(q.get_reverse_stream()));
        unsigned turns = (unsigned)s.range(1, 6);
        for (unsigned t = 0; t < turns; ++t) {
            unsigned i = (unsigned)s.raw(nfwd + nrev);
            uint64_t n = t + 1 == turns || s.chance(1, 3) ? m.size() : s.raw(m.size() + 1);
            if (i < nfwd) {
                for ( ; n && fp[i] < m.size(); --n, ++fp[i], ++*f[i]) {
                    PBT_CHECK(!f[i]->empty(), "stream is empty after " << fp[i] << " of " << m.size() << " elements");
                    PBT_EQ(f[i]->size(), m.size() - fp[i], "elements left in the stream");
                    PBT_CHECK(VT::get(**f[i]) == m[fp[i]], "stream: element " << fp[i] << " of " << m.size() << " is " << VT::get(**f[i]) << " instead of " << m[fp[i]]);
                }
                if (fp[i] == m.size()) PBT_CHECK(f[i]->empty(), "stream is not empty at its end");
            }
            else {
                i -= nfwd;
                for ( ; n && rp[i] < m.size(); --n, ++rp[i], ++*r[i]) {
                    PBT_CHECK(!r[i]->empty(), "reverse stream is empty after " << rp[i] << " of " << m.size() << " elements");
                    PBT_EQ(r[i]->size(), m.size() - rp[i], "elements left in the reverse stream");
                    int64_t want = m[m.size() - 1 - rp[i]];
                    PBT_CHECK(VT::get(**r[i]) == want, "reverse stream: element " << rp[i] << " of " << m.size() << " is " << VT::get(**r[i]) << " instead of " << want);
                }
                if (rp[i] == m.size()) PBT_CHECK(r[i]->empty(), "reverse stream is not empty at its end");
            }
        }
    }
};

template <class K, class T, unsigned BS>
static void run(pbt::Src& s)
{
    typedef typename K::type Q;
    typedef typename Q::block_type block_type;
    typedef Val<T> VT;
    const uint64_t B = block_type::size;
    stx::setup(s);
    unsigned nq = (unsigned)s.range(1, 3);
    unsigned maxstreams = K::both ? (unsigned)s.raw(4) : 0;
    unsigned np = (unsigned)s.raw(6), nw = 2 * nq + maxstreams + (unsigned)s.raw(4);
    bool shared = s.chance(1, 2);
    std::unique_ptr<stxxl::read_write_pool<block_type> > pool;
    if (shared) pool.reset(new stxxl::read_write_pool<block_type>(np, nw));
    std::vector<std::unique_ptr<Q> > q(nq);
    std::vector<std::deque<int64_t> > m(nq);
    std::vector<bool> own(nq, false);   // over an own pool of two blocks only: no streams
    PBT_NOTE(nq << (shared ? " over a shared pool " : " pools ") << np << "+" << nw);
    auto make = [&](unsigned k) {
        q[k].reset();
        m[k].clear();
        int aggr = (int)s.irange(-1, 6);
        own[k] = true;
        if (shared && s.chance(4, 5)) { q[k].reset(new Q(*pool, aggr)); own[k] = false; }
        else if (s.chance(1, 3)) q[k].reset(new Q(s.chance(1, 2) ? -1 : (int)s.range(1, 4)));
        else q[k].reset(new Q((stxxl::unsigned_type)(2 + s.raw(4) + maxstreams), (stxxl::unsigned_type)np, aggr));
    };
    for (unsigned k = 0; k < nq; ++k) make(k);
    uint32_t next = 1;
    unsigned nops = (unsigned)s.range(1, 40), around = 0;
    uint64_t maxlen = 0;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        unsigned k = (unsigned)s.raw(nq);
        Q& x = *q[k];
        std::deque<int64_t>& d = m[k];
        uint64_t n = s.chance(1, 3) ? s.range(1, 4) : s.chance(1, 4) ? B * s.range(1, 3) : s.size(6 * B, B);
        switch (s.weighted({ 10, 10, K::both ? 8u : 0u, K::both ? 8u : 0u, 3, 1, 1, 1, K::both ? 4u : 0u, 3 })) {
        case 0:
            if (d.size() > 16 * B) break;
            PBT_NOTE(k << ":back+" << n);
            for (uint64_t i = 0; i < n; ++i) { K::push_back(x, VT::make(next)); d.push_back(VT::norm(next++)); PBT_CHECK(VT::get(x.back()) == d.back() && VT::get(x.front()) == d.front(), "ends after push at the back of " << d.size()); }
            break;
        case 1:
            n = std::min<uint64_t>(n, d.size());
            PBT_NOTE(k << ":front-" << n);
            for (uint64_t i = 0; i < n; ++i) {
                const Q& c = x;
                PBT_CHECK(VT::get(c.front()) == d.front(), "front of " << d.size() << " elements is " << VT::get(c.front()) << " instead of " << d.front());
                K::pop_front(x); d.pop_front();
                PBT_EQ(x.size(), d.size(), "size");
            }
            ++around;
            break;
        case 2:
            if (d.size() > 16 * B) break;
            PBT_NOTE(k << ":front+" << n);
            for (uint64_t i = 0; i < n; ++i) { K::push_front(x, VT::make(next)); d.push_front(VT::norm(next++)); PBT_CHECK(VT::get(x.back()) == d.back() && VT::get(x.front()) == d.front(), "ends after push at the front of " << d.size()); }
            break;
        case 3:
            n = std::min<uint64_t>(n, d.size());
            PBT_NOTE(k << ":back-" << n);
            for (uint64_t i = 0; i < n; ++i) {
                const Q& c = x;
                PBT_CHECK(VT::get(c.back()) == d.back(), "back of " << d.size() << " elements is " << VT::get(c.back()) << " instead of " << d.back());
                K::pop_back(x); d.pop_back();
                PBT_EQ(x.size(), d.size(), "size");
            }
            ++around;
            break;
        case 4: if (!d.empty()) { x.front() = VT::make(next); d.front() = VT::norm(next++); x.back() = VT::make(next); d.back() = VT::norm(next++); } break;
        case 5: { unsigned a = (unsigned)s.raw(6); x.set_prefetch_aggr(a); PBT_EQ(x.get_prefetch_aggr(), a, "prefetch aggressiveness"); break; }
        case 6: { unsigned o = (unsigned)s.raw(nq); if (o == k) break; PBT_NOTE("swap"); x.swap(*q[o]); m[k].swap(m[o]); bool t = own[k]; own[k] = own[o]; own[o] = t; break; }
        case 7: PBT_NOTE("new"); make(k); break;
        case 8: {
            if (!maxstreams || d.empty()) break;
            unsigned f = (unsigned)s.raw(maxstreams + 1), r = maxstreams - f;
            if (shared && own[k] && s.chance(1, 2)) { f = 1; r = 0; }
            if (own[k]) { f = std::min(f, 1u); r = f ? 0 : 1; }
            PBT_NOTE(k << ":streams " << f << "," << r);
            K::walk(x, d, s, f, r);
            break;
        }
        case 9: // through the queue at constant length
            n = s.size(10 * B, B);
            if (d.empty() || n > 12 * B) break;
            PBT_NOTE(k << ":through " << n);
            for (uint64_t i = 0; i < n; ++i) {
                bool back = !K::both || i % (2 * B) < B || n % 2;
                if (back) { K::push_back(x, VT::make(next)); d.push_back(VT::norm(next++)); }
                else { K::push_front(x, VT::make(next)); d.push_front(VT::norm(next++)); }
                if (back) { PBT_EQ(VT::get(x.front()), d.front(), "front"); K::pop_front(x); d.pop_front(); }
                else { PBT_EQ(VT::get(x.back()), d.back(), "back"); K::pop_back(x); d.pop_back(); }
            }
            ++around;
            break;
        }
        uint64_t total = 0;
        for (unsigned i = 0; i < nq; ++i) {
            PBT_EQ(q[i]->size(), m[i].size(), "size");
            PBT_EQ(q[i]->empty(), m[i].empty(), "empty");
            if (!m[i].empty()) { PBT_EQ(VT::get(q[i]->front()), m[i].front(), "front"); PBT_EQ(VT::get(q[i]->back()), m[i].back(), "back"); }
            maxlen = std::max<uint64_t>(maxlen, m[i].size());
            total += m[i].size() / B;
        }
        // full blocks only are external
        PBT_CHECK(stx::allocated() <= total * BS, stx::allocated() / BS << " blocks allocated for " << total << " full blocks of elements");
    }
    for (unsigned k = 0; k < nq; ++k) {
        if (s.chance(1, 3)) continue;
        while (!m[k].empty()) {
            PBT_CHECK(VT::get(q[k]->front()) == m[k].front(), "front of the last " << m[k].size() << " is " << VT::get(q[k]->front()) << " instead of " << m[k].front());
            K::pop_front(*q[k]); m[k].pop_front();
        }
        PBT_CHECK(q[k]->empty(), "not empty after all elements were taken");
    }
    q.clear();
    stx::check_no_blocks("after destroying the queues");
    if (pool) {
        PBT_EQ(pool->size_write(), nw, "blocks of the write pool at the end");
        PBT_EQ(pool->size_prefetch(), np, "blocks of the prefetch pool at the end");
    }
    if (maxlen > 4 * B && around > 1) pbt::nontrivial();
}

typedef Rec<500> R5;
typedef Rec<1365> R3;
PBT_TARGET_F(queue_8, 1500, 20000, 1, (run<QueueKind<R5, 4096>, R5, 4096>));
PBT_TARGET_F(queue_3, 1200, 15000, 1, (run<QueueKind<R3, 4096>, R3, 4096>));
PBT_TARGET_F(queue_u64, 400, 5000, 1, (run<QueueKind<uint64_t, 4096>, uint64_t, 4096>));
PBT_TARGET_F(sequence_8, 2000, 30000, 1, (run<SeqKind<R5, 4096>, R5, 4096>));
PBT_TARGET_F(sequence_3, 1500, 20000, 1, (run<SeqKind<R3, 4096>, R3, 4096>));
PBT_TARGET_F(sequence_u64, 400, 5000, 1, (run<SeqKind<uint64_t, 4096>, uint64_t, 4096>));
