// Deques against std::deque.
#include "common.hpp"
#include <stxxl/bits/containers/deque.h>
#include <deque>
#include <memory>

template <unsigned N, unsigned BS, unsigned Pages, unsigned PageSize>
static void run(pbt::Src& s)
{
    typedef Rec<N> T;
    typedef stxxl::vector<T, PageSize, stxxl::lru_pager<Pages>, BS> V;
    typedef stxxl::deque<T, V> D;
    typedef Val<T> VT;
    const uint64_t init = (2u << 20) / N;
    stx::Opt o; o.size = 64ull << 20;
    stx::setup(s, o);
    std::unique_ptr<D> d[2];
    std::deque<int64_t> m[2];
    uint32_t next = 1;
    for (int k = 0; k < 2; ++k) {
        if (s.chance(1, 4)) {
            uint64_t n = s.raw(init * 3 / 2);
            PBT_NOTE("deque(" << n << ")");
            d[k].reset(new D(n));
            PBT_EQ(d[k]->size(), n, "initial size");
            for (uint64_t i = 0; i < n; ++i) { (*d[k])[i] = VT::make(next); m[k].push_back(next++); }
        }
        else d[k].reset(new D());
    }
    const uint64_t maxn = 3 * init;
    unsigned nops = (unsigned)s.range(1, 24);
    uint64_t maxlen = 0;
    bool wrapped = false;
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        int k = s.chance(1, 5);
        D& x = *d[k];
        const D& c = x;
        std::deque<int64_t>& e = m[k];
        uint64_t n = s.chance(1, 2) ? s.range(1, 5) : s.chance(1, 3) ? init + s.raw(5) - 2 : s.raw(init);
        switch (s.weighted({ 10, 8, 6, 6, 4, 4, 4, 2, 1, 2, 3, 3 })) {
        case 0:
            n = std::min(n, maxn - std::min<uint64_t>(maxn, e.size()));
            PBT_NOTE("back+" << n);
            for ( ; n; --n) { x.push_back(VT::make(next)); e.push_back(next++); }
            break;
        case 1:
            n = std::min(n, maxn - std::min<uint64_t>(maxn, e.size()));
            PBT_NOTE("front+" << n);
            for ( ; n; --n) { x.push_front(VT::make(next)); e.push_front(next++); }
            wrapped = true;
            break;
        case 2:
            n = std::min<uint64_t>(n, e.size());
            PBT_NOTE("front-" << n);
            for ( ; n; --n) { PBT_EQ(VT::get(c.front()), e.front(), "front"); x.pop_front(); e.pop_front(); }
            wrapped = true;
            break;
        case 3:
            n = std::min<uint64_t>(n, e.size());
            PBT_NOTE("back-" << n);
            for ( ; n; --n) { PBT_EQ(VT::get(c.back()), e.back(), "back"); x.pop_back(); e.pop_back(); }
            break;
        case 4: // assign through every access path
            if (e.empty()) break;
            for (unsigned i = 0; i < 6; ++i) {
                uint64_t p = s.raw(e.size());
                switch (s.raw(5)) {
                case 0: x[p] = VT::make(next); break;
                case 1: *(x.begin() + p) = VT::make(next); break;
                case 2: *(x.end() - (e.size() - p)) = VT::make(next); break;
                case 3: x.rbegin()[e.size() - 1 - p] = VT::make(next); break;
                case 4: x.begin()[p].set(next); break;
                }
                e[p] = next++;
                PBT_EQ(VT::get(c[p]), e[p], "element just assigned");
            }
            x.front() = VT::make(next); e.front() = next++;
            x.back() = VT::make(next); e.back() = next++;
            break;
        case 5: { // iterators
            PBT_EQ((int64_t)(c.end() - c.begin()), (int64_t)e.size(), "distance");
            PBT_CHECK((c.begin() == c.end()) == e.empty(), "begin == end");
            typename D::const_iterator it = c.begin();
            typename D::iterator wt = x.begin();
            uint64_t p = 0;
            for (unsigned i = 0; i < 12 && !e.empty(); ++i) {
                uint64_t t = s.raw(e.size() + 1);
                int64_t dist = (int64_t)t - (int64_t)p;
                typename D::const_iterator old = it;
                switch (s.raw(5)) {
                case 0: it += dist; wt += dist; break;
                case 1: it -= -dist; wt -= -dist; break;
                case 2: it = it + dist; wt = wt + dist; break;
                case 3: std::advance(it, dist); std::advance(wt, dist); break;
                case 4: // single steps
                    if (dist > 8) dist = 8;
                    if (dist < -8) dist = -8;
                    t = p + dist;
                    for (int64_t q = dist; q > 0; --q) { ++it; wt++; }
                    for (int64_t q = dist; q < 0; ++q) { it--; --wt; }
                    break;
                }
                PBT_CHECK(it == c.begin() + t && wt == it, "iterator moved from " << p << " to " << t);
                PBT_EQ((int64_t)(it - c.begin()), (int64_t)t, "distance from the begin");
                PBT_EQ((int64_t)(it - old), dist, "distance moved");
                PBT_CHECK((old < it) == (dist > 0) && (old <= it) == (dist >= 0) && (old > it) == (dist < 0) && (old >= it) == (dist <= 0) && (old == it) == (dist == 0) && (old != it) == (dist != 0), "comparison of iterators at " << p << " and " << t << " of " << e.size());
                if (t < e.size()) {
                    PBT_EQ(VT::get(*it), e[t], "element at " << t);
                    PBT_EQ((int64_t)wt->value(), e[t], "element at " << t);
                    uint64_t u = s.raw(e.size());
                    PBT_EQ(VT::get(it[u - t]), e[u], "element " << u << " seen from " << t);
                    wt->set(next); e[t] = next++;
                }
                p = t;
            }
            break;
        }
        case 6: { // whole walks
            uint64_t p = 0;
            if (s.chance(1, 2)) for (typename D::const_iterator it = c.begin(); it != c.end(); ++it, ++p) PBT_CHECK(p < e.size() && VT::get(*it) == e[p], "walk: element " << p << " of " << e.size());
            else for (typename D::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it, ++p) PBT_CHECK(p < e.size() && VT::get(*it) == e[e.size() - 1 - p], "reverse walk: element " << p << " of " << e.size());
            PBT_EQ(p, e.size(), "elements walked over");
            break;
        }
        case 7: { // both directions of resize
            n = s.chance(1, 2) ? s.raw(e.size() + 1) : std::min(maxn, e.size() + s.raw(init + 3));
            PBT_NOTE("resize " << e.size() << "->" << n);
            x.resize(n);
            uint64_t old = e.size();
            e.resize(n);
            PBT_EQ(x.size(), n, "size after resize");
            for (uint64_t i = old; i < n; ++i) { x[i] = VT::make(next); e[i] = next++; }
            for (uint64_t i = 0; i < e.size(); i += 1 + e.size() / 37) PBT_EQ(VT::get(c[i]), e[i], "element " << i << " after resize");
            break;
        }
        case 8: PBT_NOTE("clear"); x.clear(); e.clear(); break;
        case 9: PBT_NOTE("swap"); if (s.chance(1, 2)) std::swap(*d[0], *d[1]); else d[0]->swap(*d[1]); m[0].swap(m[1]); break;
        case 10: { // comparison
            D& y = *d[1 - k];
            std::deque<int64_t>& f = m[1 - k];
            if (s.chance(3, 4)) { // made similar
                uint64_t l = std::min<uint64_t>(e.size(), init / 2);
                while (!f.empty()) { y.pop_back(); f.pop_back(); }
                for (uint64_t i = 0; i < l; ++i) { y.push_back(VT::make((uint32_t)e[i])); f.push_back(e[i]); }
                switch (s.raw(4)) {
                case 0: break;
                case 1: y.push_back(VT::make(next)); f.push_back(next++); break;
                case 2: if (l) { y.pop_back(); f.pop_back(); } break;
                case 3: if (l) { uint64_t p = s.raw(l); y[p] = VT::make(next); f[p] = next++; } break;
                }
            }
            PBT_NOTE("compare " << e.size() << " " << f.size());
            PBT_EQ(x == y, e == f, "equality of deques of " << e.size() << " and " << f.size() << " elements");
            PBT_EQ(y == x, e == f, "equality of deques of " << f.size() << " and " << e.size() << " elements");
            PBT_EQ(x < y, e < f, "order of deques of " << e.size() << " and " << f.size() << " elements");
            PBT_EQ(y < x, f < e, "order of deques of " << f.size() << " and " << e.size() << " elements");
            break;
        }
        case 11: // turning
            n = s.raw(2 * init);
            if (e.empty()) break;
            PBT_NOTE("turn " << n);
            if (s.chance(1, 2)) for ( ; n; --n) { x.push_back(VT::make(next)); e.push_back(next++); PBT_EQ(VT::get(c.front()), e.front(), "front"); x.pop_front(); e.pop_front(); }
            else for ( ; n; --n) { x.push_front(VT::make(next)); e.push_front(next++); PBT_EQ(VT::get(c.back()), e.back(), "back"); x.pop_back(); e.pop_back(); }
            wrapped = true;
            break;
        }
        for (int i = 0; i < 2; ++i) {
            PBT_EQ(d[i]->size(), m[i].size(), "size");
            PBT_EQ(d[i]->empty(), m[i].empty(), "empty");
            if (!m[i].empty()) { PBT_EQ(VT::get(d[i]->front()), m[i].front(), "front"); PBT_EQ(VT::get(d[i]->back()), m[i].back(), "back"); }
            maxlen = std::max<uint64_t>(maxlen, m[i].size());
        }
    }
    for (int k = 0; k < 2; ++k)
        for (uint64_t i = 0; i < m[k].size(); ++i) PBT_CHECK(VT::get((*d[k])[i]) == m[k][i], "element " << i << " of " << m[k].size() << " at the end is " << VT::get((*d[k])[i]) << " instead of " << m[k][i]);
    d[0].reset(); d[1].reset();
    stx::check_no_blocks("after destroying the deques");
    if (wrapped && maxlen >= init) pbt::nontrivial();
}
PBT_TARGET_F(deque_70, 900, 30000, 1, (run<30000, 65536, 3, 1>));
PBT_TARGET_F(deque_128, 500, 30000, 1, (run<16384, 16384, 2, 2>));
PBT_TARGET_F(deque_419, 200, 10000, 1, (run<5000, 16384, 4, 1>));
