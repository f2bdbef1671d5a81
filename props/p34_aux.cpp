// Supporting structures: winner trees, swapping vectors, addressable queues, counting pointers, random numbers.
#include "common.hpp"
#include <stxxl/bits/common/winner_tree.h>
#include <stxxl/bits/common/swap_vector.h>
#include <stxxl/bits/common/simple_vector.h>
#include <stxxl/bits/common/addressable_queues.h>
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/common/external_shared_ptr.h>
#include <stxxl/bits/common/is_heap.h>
#include <stxxl/bits/common/is_sorted.h>
#include <stxxl/bits/common/tmeta.h>
#include <stxxl/bits/common/rand.h>
#include <stxxl/bits/common/custom_stats.h>
#include <stxxl/vector>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>

// *** winner tree
struct Players
{
    std::vector<int> value;
    bool operator () (size_t a, size_t b) const { return value[a] < value[b]; }
};
PBT_TARGET(winner, 20000, 600000, 50)
{
    Players pl;
    unsigned n = (unsigned)s.range(1, s.chance(1, 4) ? 40 : 9);
    int spread = (int)s.pick({ 2, 10, 1000 });
    pl.value.assign(1100, 0);
    for (auto& v : pl.value) v = (int)s.raw(spread);
    stxxl::winner_tree<Players> t(n, pl);
    std::set<unsigned> act;
    unsigned grown = 0, steps = (unsigned)s.range(0, 80);
    PBT_NOTE(n << " players ");
    for (unsigned k = 0; k < steps; ++k) {
        unsigned slots = (unsigned)t.num_slots();
        switch (s.weighted({ 4, 5, 3, 2, 2, 1, 1, 1, 1 })) {
        case 0: { unsigned i = (unsigned)s.raw(s.chance(1, 8) ? std::min(390u, slots * 3) : slots); if (act.count(i)) break; pl.value[i] = (int)s.raw(spread); PBT_NOTE("+" << i << " "); grown += i >= slots; t.activate_player(i); act.insert(i); } break;
        case 1: if (!act.empty()) { unsigned w = (unsigned)t.top(); pl.value[w] += (int)s.raw(spread); PBT_NOTE("pop" << w << " "); t.replay_on_pop(); } break;
        case 2: if (!act.empty()) { unsigned i = *std::next(act.begin(), s.raw(act.size())); pl.value[i] = (int)s.raw(spread); PBT_NOTE("~" << i << " "); t.notify_change(i); } break;
        case 3: if (!act.empty()) { unsigned i = *std::next(act.begin(), s.raw(act.size())); PBT_NOTE("-" << i << " "); t.deactivate_player(i); act.erase(i); } break;
        case 4: { // several at once
            std::vector<unsigned> r;
            for (unsigned q = (unsigned)s.raw(5); q && !act.empty(); --q) { unsigned i = *std::next(act.begin(), s.raw(act.size())); act.erase(i); r.push_back(i); }
            PBT_NOTE("-" << r.size() << "x ");
            for (unsigned i : r) t.deactivate_player_step(i);
            for (unsigned i : r) t.replay_on_deactivations(i);
        } break;
        case 5: { // many changes, then rebuilding
            PBT_NOTE("rebuild ");
            for (unsigned i : act) if (s.chance(1, 2)) pl.value[i] = (int)s.raw(spread);
            for (unsigned q = (unsigned)s.raw(6); q; --q) { unsigned i = (unsigned)s.raw(s.chance(1, 6) ? std::min(390u, slots * 2) : slots); grown += i >= t.num_slots(); t.activate_without_replay(i); act.insert(i); }
            for (unsigned q = (unsigned)s.raw(3); q && !act.empty(); --q) { unsigned i = *std::next(act.begin(), s.raw(act.size())); t.deactivate_without_replay(i); act.erase(i); }
            t.rebuild();
        } break;
        case 6: { unsigned m = (unsigned)s.range(1, 70); PBT_NOTE("resize " << m << " "); if (s.chance(1, 2)) { t.resize_and_clear(m); act.clear(); } else { t.resize_and_rebuild(m); act.clear(); for (unsigned i = 0; i < m; ++i) act.insert(i); } } break;
        case 7: if (s.chance(1, 3)) { PBT_NOTE("clear "); t.clear(); act.clear(); } break;
        default: if (t.num_slots() < 64) { PBT_NOTE("double "); t.double_num_slots(); ++grown; } break;
        }
        PBT_EQ(t.empty(), act.empty(), "empty()");
        if (!act.empty()) {
            int best = pl.value[*act.begin()];
            for (unsigned i : act) best = std::min(best, pl.value[i]);
            PBT_CHECK(act.count((unsigned)t.top()), "player " << t.top() << " wins but is not active");
            PBT_EQ(pl.value[t.top()], best, "value of the winner " << t.top());
        }
        pbt::ops();
    }
    if (grown && steps > 20) pbt::nontrivial();
}

// *** vectors
struct Handle // swappable, copying is noticed
{
    std::unique_ptr<int> p;
    Handle() { }
    explicit Handle(int v) : p(new int(v)) { }
    Handle(Handle&&) = default;
    Handle& operator = (Handle&&) = default;
    int get() const { return p ? *p : -1; }
};
PBT_TARGET(swapvector, 15000, 400000, 50)
{
    typedef stxxl::swap_vector<Handle> V;
    std::unique_ptr<V> v[2]; std::vector<int> m[2];
    for (int i = 0; i < 2; ++i) {
        unsigned n = (unsigned)s.raw(6), c = (unsigned)s.raw(10);
        switch (s.raw(3)) { case 0: v[i].reset(new V()); n = 0; break; case 1: v[i].reset(new V(n)); break; default: v[i].reset(new V(n, c)); PBT_CHECK(v[i]->capacity() >= std::max(n, c), "capacity"); break; }
        for (unsigned k = 0; k < n; ++k) { Handle h((int)k); using std::swap; swap((*v[i])[k], h); m[i].push_back((int)k); }
    }
    unsigned steps = (unsigned)s.range(0, 60), erased = 0; int next = 100;
    for (unsigned k = 0; k < steps; ++k) {
        unsigned i = (unsigned)s.raw(2);
        V& w = *v[i]; std::vector<int>& x = m[i];
        switch (s.weighted({ 8, 3, 4, 1, 1, 1, 2, 1 })) {
        case 0: { Handle h(next); x.push_back(next++); w.swap_back(h); PBT_NOTE("push" << i << " "); } break;
        case 1: if (!x.empty()) { size_t p = s.raw(x.size()); PBT_NOTE("erase" << i << ":" << p << "/" << x.size() << " "); V::iterator r = w.erase(w.begin() + p); PBT_CHECK(r == w.begin() + p, "result of erase"); x.erase(x.begin() + p); ++erased; } break;
        case 2: { size_t a = s.raw(x.size() + 1), b = a + s.raw(x.size() - a + 1); PBT_NOTE("erase" << i << ":" << a << ".." << b << "/" << x.size() << " "); V::iterator r = w.erase(w.begin() + a, w.begin() + b); PBT_CHECK(r == w.begin() + a, "result of erase"); x.erase(x.begin() + a, x.begin() + b); erased += a < b; } break;
        case 3: { size_t c = s.raw(40); w.reserve(c); PBT_CHECK(w.capacity() >= c, "capacity"); } break;
        case 4: if (s.chance(1, 3)) { PBT_NOTE("clear" << i << " "); w.clear(); x.clear(); } break;
        case 5: { PBT_NOTE("swap "); if (s.chance(1, 2)) v[0]->swap(*v[1]); else std::swap(*v[0], *v[1]); m[0].swap(m[1]); } break;
        case 6: { int mod = (int)s.range(1, 4), r = (int)s.raw(mod); PBT_NOTE("remove" << i << " " << r << " mod " << mod << " "); std::multiset<int> before(x.begin(), x.end());
                V::iterator e = stxxl::swap_remove_if(w.begin(), w.end(), [&](const Handle& h) { return h.get() % mod == r; });
                x.erase(std::remove_if(x.begin(), x.end(), [&](int q) { return q % mod == r; }), x.end());
                PBT_EQ((size_t)(e - w.begin()), x.size(), "elements kept");
                std::multiset<int> after; for (auto& h : w) after.insert(h.get());
                PBT_CHECK(after == before, "swap_remove_if() loses an element");
                w.erase(e, w.end()); } break;
        default: { size_t q = s.raw(x.size() + 1); PBT_NOTE("resize" << i << " " << q << " "); w.resize(q); x.resize(q); } break;
        }
        for (int j = 0; j < 2; ++j) {
            const V& c = *v[j];
            PBT_EQ(c.size(), m[j].size(), "size");
            PBT_EQ(c.empty(), m[j].empty(), "empty");
            PBT_CHECK(c.capacity() >= c.size(), "capacity");
            PBT_EQ((size_t)(c.end() - c.begin()), m[j].size(), "iterators");
            for (size_t q = 0; q < m[j].size(); ++q) PBT_EQ(c[q].get(), m[j][q], "element " << q << " of " << m[j].size());
            if (!m[j].empty()) { PBT_EQ(c.front().get(), m[j].front(), "front"); PBT_EQ(c.back().get(), m[j].back(), "back"); }
        }
        pbt::ops();
    }
    if (erased > 2 && steps > 15) pbt::nontrivial();
}
PBT_TARGET(simplevector, 3000, 60000, 100)
{
    stxxl::simple_vector<uint32_t> a((size_t)s.raw(50)), b;
    std::vector<uint32_t> ma(a.size()), mb;
    for (size_t i = 0; i < ma.size(); ++i) a[i] = ma[i] = (uint32_t)s.raw(1u << 30);
    for (unsigned k = (unsigned)s.range(0, 12); k; --k) {
        switch (s.raw(4)) {
        case 0: { size_t old = ma.size(), n = s.raw(60); PBT_NOTE("resize " << n << " "); a.resize(n); ma.resize(n); for (size_t i = old; i < n; ++i) a[i] = ma[i] = (uint32_t)i; } break;
        case 1: PBT_NOTE("swap "); if (s.chance(1, 2)) a.swap(b); else std::swap(a, b); ma.swap(mb); break;
        case 2: if (s.chance(1, 3) && !ma.empty()) { PBT_NOTE("zero "); a.memzero(); std::fill(ma.begin(), ma.end(), 0u); } break;
        default: if (!ma.empty()) { size_t i = s.raw(ma.size()); *(a.begin() + i) = ma[i] = (uint32_t)s.raw(1u << 30); } break;
        }
        PBT_EQ(a.size(), ma.size(), "size"); PBT_EQ(b.size(), mb.size(), "size");
        PBT_CHECK(std::equal(ma.begin(), ma.end(), a.begin()) && a.end() - a.begin() == (ptrdiff_t)ma.size(), "contents");
        PBT_CHECK(std::equal(mb.begin(), mb.end(), b.cbegin()), "contents");
        pbt::ops();
    }
    if (ma.size() + mb.size() > 20) pbt::nontrivial();
}

// *** addressable queues
PBT_TARGET(fifo, 10000, 300000, 100)
{
    typedef stxxl::addressable_fifo_queue<int> Q;
    Q q; std::list<int> m; std::map<int, Q::handle> h;
    unsigned moved = 0;
    for (unsigned k = (unsigned)s.range(0, 80); k; --k) {
        int e = (int)s.raw(12);
        switch (s.weighted({ 6, 2, 2, 3 })) {
        case 0: { PBT_NOTE("+" << e << " "); std::pair<Q::handle, bool> r = q.insert(e); auto it = std::find(m.begin(), m.end(), e); PBT_EQ(r.second, it == m.end(), "newly inserted"); if (it != m.end()) { m.erase(it); ++moved; } m.push_back(e); h[e] = r.first; } break;
        case 1: { PBT_NOTE("-" << e << " "); auto it = std::find(m.begin(), m.end(), e); PBT_EQ(q.erase(e), it != m.end(), "erase"); if (it != m.end()) m.erase(it); h.erase(e); } break;
        case 2: if (!h.empty()) { auto it = std::next(h.begin(), s.raw(h.size())); PBT_NOTE("-h" << it->first << " "); q.erase(it->second); m.remove(it->first); h.erase(it); } break;
        default: if (!m.empty()) { PBT_NOTE("pop "); PBT_EQ(q.top(), m.front(), "top"); PBT_EQ(q.pop(), m.front(), "pop"); h.erase(m.front()); m.pop_front(); } break;
        }
        PBT_EQ(q.empty(), m.empty(), "empty");
        if (!m.empty()) PBT_EQ(q.top(), m.front(), "top");
        pbt::ops();
    }
    while (!m.empty()) { PBT_EQ(q.pop(), m.front(), "rest"); m.pop_front(); }
    PBT_CHECK(q.empty(), "not empty");
    if (moved > 2) pbt::nontrivial();
}
template <class Cmp> static void apq(pbt::Src& s)
{
    typedef stxxl::addressable_priority_queue<int, int, Cmp> Q;
    Q q; std::map<int, int> m; std::map<int, typename Q::handle> h; Cmp c;
    unsigned changed = 0;
    auto best = [&]() { int b = m.begin()->first; for (auto& x : m) if (c(x.second, m[b])) b = x.first; return b; };
    for (unsigned k = (unsigned)s.range(0, 80); k; --k) {
        int e = (int)s.raw(12), p = (int)s.raw(6);
        switch (s.weighted({ 6, 2, 2, 3 })) {
        case 0: { PBT_NOTE("+" << e << ":" << p << " "); auto r = q.insert(e, p); PBT_EQ(r.second, !m.count(e), "newly inserted"); changed += m.count(e) && m[e] != p; m[e] = p; h[e] = r.first; } break;
        case 1: PBT_NOTE("-" << e << " "); PBT_EQ(q.erase(e), m.count(e) == 1, "erase"); m.erase(e); h.erase(e); break;
        case 2: if (!h.empty()) { auto it = std::next(h.begin(), s.raw(h.size())); PBT_NOTE("-h" << it->first << " "); q.erase(it->second); m.erase(it->first); h.erase(it); } break;
        default: if (!m.empty()) { int b = best(); PBT_NOTE("pop "); PBT_EQ(q.pop(), b, "pop: smallest key of the best priority"); m.erase(b); h.erase(b); } break;
        }
        PBT_EQ(q.empty(), m.empty(), "empty");
        if (!m.empty()) PBT_EQ(q.top(), best(), "top");
        pbt::ops();
    }
    while (!m.empty()) { int b = best(); PBT_EQ(q.pop(), b, "rest"); m.erase(b); }
    PBT_CHECK(q.empty(), "not empty");
    if (changed > 2) pbt::nontrivial();
}
PBT_TARGET_F(prio_min, 6000, 200000, 100, apq<std::less<int> >);
PBT_TARGET_F(prio_max, 6000, 200000, 100, apq<std::greater<int> >);

// *** counting pointers
template <class Base> struct Obj : Base
{
    static long alive;
    int v;
    explicit Obj(int x) : v(x) { __sync_add_and_fetch(&alive, 1); }
    Obj(const Obj& o) : Base(o), v(o.v) { __sync_add_and_fetch(&alive, 1); }
    ~Obj() { v = -99; __sync_sub_and_fetch(&alive, 1); }
};
template <class Base> long Obj<Base>::alive = 0;
template <class Base> static void pointers(pbt::Src& s)
{
    typedef Obj<Base> O;
    typedef stxxl::counting_ptr<O> P;
    typedef stxxl::const_counting_ptr<O> C;
    {
        // handle -> object (by identity), object -> value
        std::vector<P> p(5); std::vector<C> c(3);
        std::vector<int> mp(5, -1), mc(3, -1);
        std::vector<int> val; std::vector<O*> raw;
        auto refs = [&](int o) { return std::count(mp.begin(), mp.end(), o) + std::count(mc.begin(), mc.end(), o); };
        unsigned shared = 0;
        for (unsigned k = (unsigned)s.range(0, 60); k; --k) {
            unsigned i = (unsigned)s.raw(5), j = (unsigned)s.raw(5), x = (unsigned)s.raw(3);
            switch (s.weighted({ 4, 5, 2, 2, 2, 2, 2, 1, 1, 1 })) {
            case 0: PBT_NOTE("new" << i << " "); raw.push_back(new O((int)val.size())); val.push_back((int)val.size()); if (s.chance(1, 2)) p[i] = raw.back(); else p[i] = P(raw.back()); mp[i] = (int)val.size() - 1; break;
            case 1: PBT_NOTE(i << "=" << j << " "); p[i] = p[j]; mp[i] = mp[j]; shared += mp[j] >= 0; break;
            case 2: PBT_NOTE("c" << x << "=" << j << " "); if (s.chance(1, 2)) c[x] = p[j]; else c[x] = C(p[j]); mc[x] = mp[j]; break;
            case 3: { unsigned y = (unsigned)s.raw(3); PBT_NOTE("c" << x << "=c" << y << " "); c[x] = c[y]; mc[x] = mc[y]; } break;
            case 4: PBT_NOTE("swap " << i << "," << j << " "); if (s.chance(1, 2)) p[i].swap(p[j]); else swap(p[i], p[j]); std::swap(mp[i], mp[j]); break;
            case 5: PBT_NOTE("reset" << i << " "); p[i] = NULL; mp[i] = -1; break;
            case 6: { PBT_NOTE("unify" << i << " "); bool copy = mp[i] >= 0 && refs(mp[i]) > 1; int old = mp[i]; p[i].unify(); if (copy) { PBT_CHECK(p[i].get() != raw[old], "unify() does not copy"); raw.push_back(p[i].get()); val.push_back(val[old]); mp[i] = (int)val.size() - 1; } } break;
            case 7: if (mp[i] >= 0) { val[mp[i]] = (int)s.raw(1000); p[i]->v = val[mp[i]]; } break;
            case 8: if (mp[i] >= 0 && mp[j] >= 0) { PBT_NOTE("*" << i << "=*" << j << " "); *p[i] = *p[j]; val[mp[i]] = val[mp[j]]; } break;
            default: { unsigned y = (unsigned)s.raw(3); swap(c[x], c[y]); std::swap(mc[x], mc[y]); P t(p[i]); P u(t.get()); PBT_CHECK(t == p[i] && u == t, "copies"); } break;
            }
            std::set<int> live;
            for (unsigned q = 0; q < 5; ++q) {
                PBT_EQ(p[q].valid(), mp[q] >= 0, "valid()"); PBT_EQ(p[q].empty(), mp[q] < 0, "empty()");
                PBT_CHECK(p[q].get() == (mp[q] < 0 ? NULL : raw[mp[q]]), "pointer " << q);
                if (mp[q] < 0) { PBT_CHECK(!p[q].unique(), "unique()"); continue; }
                live.insert(mp[q]);
                PBT_EQ(p[q]->v, val[mp[q]], "object of pointer " << q);
                PBT_EQ((long)p[q]->get_reference_count(), (long)refs(mp[q]), "references");
                PBT_EQ(p[q].unique(), refs(mp[q]) == 1, "unique()");
                for (unsigned r = 0; r < 5; ++r) { PBT_EQ(p[q] == p[r], mp[q] == mp[r], "=="); PBT_EQ(p[q] != p[r], mp[q] != mp[r], "!="); }
            }
            for (unsigned q = 0; q < 3; ++q) {
                PBT_EQ(c[q].valid(), mc[q] >= 0, "valid()");
                if (mc[q] < 0) continue;
                live.insert(mc[q]);
                PBT_EQ((*c[q]).v, val[mc[q]], "object of constant pointer " << q);
                PBT_EQ(c[q].unique(), refs(mc[q]) == 1, "unique()");
            }
            PBT_EQ(O::alive, (long)live.size(), "objects alive");
            pbt::ops();
        }
        if (shared > 3) pbt::nontrivial();
    }
    PBT_EQ(O::alive, 0L, "objects alive at the end");
}
PBT_TARGET_F(counted, 6000, 200000, 50, pointers<stxxl::counted_object>);
PBT_TARGET_F(atomic_counted, 6000, 200000, 50, pointers<stxxl::atomic_counted_object>);
PBT_TARGET(atomic_threads, 300, 8000, 10)
{
    typedef Obj<stxxl::atomic_counted_object> O;
    typedef stxxl::counting_ptr<O> P;
    unsigned nt = 2 + (unsigned)s.raw(3), n = (unsigned)s.range(1, 3000), no = 1 + (unsigned)s.raw(3);
    uint64_t seed = s.raw(1u << 30);
    PBT_NOTE(nt << " threads " << no << " objects " << n << " steps ");
    {
        std::vector<P> root; for (unsigned i = 0; i < no; ++i) root.push_back(P(new O((int)i)));
        bool keep = s.chance(1, 2), bad = false;
        std::vector<std::thread> th;
        for (unsigned t = 0; t < nt; ++t) {
            std::vector<P> mine(root);
            th.push_back(std::thread([=, &bad](std::vector<P> own) {
                uint64_t x = seed * 2 + t * 77777 + 1;
                std::vector<P> w(4);
                for (unsigned k = 0; k < n; ++k) {
                    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                    unsigned i = x % 4, o = (x >> 8) % no;
                    if ((x >> 16) % 3) { w[i] = own[o]; if (w[i]->v != (int)o) bad = true; } else w[i] = NULL;
                    if ((x >> 20) % 50 == 0) { P u(own[o]); u.unify(); if (u->v != (int)o) bad = true; }
                }
            }, std::move(mine)));
        }
        if (!keep) root.clear(); // the last thread deletes the objects
        for (auto& t : th) t.join();
        PBT_CHECK(!bad, "an object changed");
        for (auto& r : root) PBT_EQ((long)r->get_reference_count(), 1L, "references left");
    }
    PBT_EQ(O::alive, 0L, "objects alive at the end");
    pbt::ops(nt * n);
    pbt::nontrivial();
}
PBT_TARGET(external_pointer, 150, 4000, 1)
{
    stx::setup(s);
    typedef std::shared_ptr<int> S;
    typedef stxxl::external_shared_ptr<S> E;
    unsigned n = (unsigned)s.range(1, 3000), no = 1 + (unsigned)s.raw(8);
    std::vector<S> obj; for (unsigned i = 0; i < no; ++i) obj.push_back(S(new int((int)i)));
    std::vector<long> cnt(no, 1);
    std::vector<unsigned> m;
    {
        stxxl::vector<E, 1, stxxl::lru_pager<2>, 4096> v;
        for (unsigned k = 0; k < n; ++k) { unsigned o = (unsigned)s.raw(no); v.push_back(E(obj[o])); m.push_back(o); ++cnt[o]; }
        for (unsigned i = 0; i < no; ++i) PBT_EQ((long)obj[i].use_count(), cnt[i], "references");
        for (unsigned k = 0; k < 100; ++k) { unsigned i = (unsigned)s.raw(n); E e = v[i]; PBT_EQ(*e.get(), (int)m[i], "object"); PBT_CHECK(e == v[i], "=="); }
        for (unsigned k = 0; k < n; ++k) { E e = v[k]; e.unwrap(); --cnt[m[k]]; }
    }
    for (unsigned i = 0; i < no; ++i) PBT_EQ((long)obj[i].use_count(), 1L, "references left");
    pbt::ops(2 * n);
    if (n > 600) pbt::nontrivial();
}

// *** tests and numbers
PBT_TARGET(helpers, 10000, 300000, 100)
{
    std::vector<int> v(s.range(0, 40));
    int spread = (int)s.pick({ 2, 5, 1000 });
    for (auto& x : v) x = (int)s.raw(spread);
    switch (s.raw(4)) { case 0: std::sort(v.begin(), v.end()); break; case 1: std::make_heap(v.begin(), v.end()); break; case 2: std::sort(v.rbegin(), v.rend()); break; default: break; }
    if (!v.empty() && s.chance(1, 2)) v[s.raw(v.size())] = (int)s.raw(spread);
    for (int x : v) PBT_NOTE(x << " ");
    PBT_EQ(stxxl::is_heap(v.begin(), v.end(), std::less<int>()), std::is_heap(v.begin(), v.end()), "is_heap");
    PBT_EQ(stxxl::is_heap(v.begin(), v.end(), std::greater<int>()), std::is_heap(v.begin(), v.end(), std::greater<int>()), "is_heap");
    PBT_EQ(stxxl::is_sorted(v.begin(), v.end(), std::less<int>()), std::is_sorted(v.begin(), v.end()), "is_sorted");
    PBT_EQ(stxxl::is_sorted(v.begin(), v.end(), std::greater<int>()), std::is_sorted(v.begin(), v.end(), std::greater<int>()), "is_sorted");
    PBT_EQ(stxxl::is_sorted(v.begin(), v.end()), std::is_sorted(v.begin(), v.end()), "is_sorted");
    stxxl::custom_stats_counter<uint64_t> c; uint64_t m = 0;
    for (int x : v) { switch (x & 3) { case 0: c += x; m += x; break; case 1: ++c; ++m; break; case 2: PBT_EQ((uint64_t)(c++), m, "counter++"); ++m; break; default: c.set_max(x); m = std::max<uint64_t>(m, x); break; } PBT_EQ((uint64_t)c, m, "counter"); }
    PBT_CHECK(stxxl::LOG2<1>::ceil == 0 && stxxl::LOG2<2>::ceil == 1 && stxxl::LOG2<3>::ceil == 2 && stxxl::LOG2<4>::ceil == 2 && stxxl::LOG2<5>::ceil == 3 && stxxl::LOG2<1023>::floor == 9 && stxxl::LOG2<1024>::floor == 10 && stxxl::LOG2<1025>::ceil == 11, "LOG2");
    pbt::ops(v.size());
    if (v.size() > 5) pbt::nontrivial();
}
PBT_TARGET(random, 5000, 100000, 100)
{
    unsigned seed = (unsigned)s.bits();
    PBT_NOTE("seed " << seed << " ");
    // the same seed gives the same numbers, another sequence of seeds other ones
    for (int round = 0; round < 2; ++round) {
        static std::vector<uint64_t> first; std::vector<uint64_t> r;
        stxxl::set_seed(seed);
        PBT_EQ(stxxl::get_next_seed(), seed, "first seed");
        PBT_CHECK(stxxl::get_next_seed() != seed, "the next seed is the same");
        stxxl::srandom_number32();
        stxxl::random_number32 r32; stxxl::random_number32_r r32r; stxxl::random_number8_r r8; stxxl::random_number<> rn; stxxl::random_number<stxxl::random_uniform_slow> rs; stxxl::random_number64 r64; stxxl::random_uniform_fast uf; stxxl::random_uniform_slow us;
        for (unsigned k = 0; k < 30; ++k) {
            unsigned N = 1 + (unsigned)((seed >> (k % 32)) * 2654435761u);
            if (!N) N = 1;
            uint64_t N64 = k & 1 ? ~0ull >> k : N;
            unsigned a = r32(N), b = rn(N), c = rs(N); uint64_t d = r64(N64); double e = uf(), f = us();
            PBT_CHECK(a < N && b < N && c < N && d < N64, "a number outside [0," << N << ")");
            PBT_CHECK(e >= 0 && e < 1 && f >= 0 && f < 1, "a number outside [0,1)");
            r.push_back(a); r.push_back(b); r.push_back(c); r.push_back(d); r.push_back((uint64_t)(e * 1e15)); r.push_back((uint64_t)(f * 1e15)); r.push_back(r32r()); r.push_back(r8()); r.push_back(r64()); r.push_back(r32());
        }
        if (round) PBT_CHECK(r == first, "the same seed gives other numbers");
        first = r;
    }
    pbt::ops(600); pbt::nontrivial();
}
