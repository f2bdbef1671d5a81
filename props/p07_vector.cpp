// Vector against std::vector: every sequence of operations.
#include "common.hpp"
#include <stxxl/bits/containers/vector.h>
#include <vector>

static const int64_t UNK = -1;   // never written since the slot came into being

template <class V>
struct Side
{
    std::vector<int64_t> m;
    V* v;
    std::vector<int64_t> snapshot_unused;
};

template <class T, unsigned PageSize, class Pager, unsigned BlockSize, class Alloc>
static void run_vector(pbt::Src& s)
{
    typedef stxxl::vector<T, PageSize, Pager, BlockSize, Alloc> V;
    typedef Val<T> VT;
    const uint64_t B = V::block_type::size;
    stx::setup(s);
    uint64_t max = std::min<uint64_t>(B * 20 + 5, 12000);
    uint32_t next = 1;

    Side<V> S[2];
    for (int i = 0; i < 2; ++i) {
        uint64_t n = i == 0 ? s.size(max / 2, B) : s.raw(3) * B / 2;
        unsigned np = 1 + (unsigned)s.raw(5);
        S[i].v = new V(n, np);
        S[i].m.assign(n, UNK);
        PBT_NOTE("new(" << n << "," << np << ")");
    }
    bool wrap = false;
    uint64_t maxlen = S[0].m.size();
    auto check_elem = [&](int k, uint64_t i, const T& x, const char* how) {
        if (S[k].m[i] != UNK)
            PBT_CHECK(VT::get(x) == S[k].m[i], how << ": element " << i << " of " << S[k].m.size() << " is " << VT::get(x) << ", expected " << S[k].m[i]);
    };
    auto full = [&](int k, const char* how) {
        const V& c = *S[k].v;
        PBT_EQ(c.size(), S[k].m.size(), how << " size");
        uint64_t i = 0;
        for (typename V::const_iterator it = c.begin(); it != c.end(); ++it, ++i) check_elem(k, i, *it, how);
        PBT_EQ(i, S[k].m.size(), how << ": elements seen");
    };
    auto put = [&](int k, uint64_t i) { T x = VT::make(next); (*S[k].v)[i] = x; S[k].m[i] = VT::norm(next); ++next; };

    unsigned nops = (unsigned)s.range(1, 40);
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        int k = s.chance(1, 8) ? 1 : 0;
        V& v = *S[k].v;
        std::vector<int64_t>& m = S[k].m;
        const V& c = v;
        switch (s.weighted({ 8, 6, 10, 10, 8, 6, 3, 2, 5, 3, 3, 5, 8, 4, 10, 4, 3, 3, 3, 3 })) {
        case 0: { // push_back several
            unsigned cnt = (unsigned)s.raw(s.chance(1, 3) ? 3 * B + 2 : 6) + 1;
            if (m.size() + cnt > max) break;
            PBT_NOTE("push*" << cnt);
            for (unsigned i = 0; i < cnt; ++i) { v.push_back(VT::make(next)); m.push_back(VT::norm(next++)); }
            break;
        }
        case 1: {
            unsigned cnt = (unsigned)s.raw(s.chance(1, 4) ? 3 * B : 5) + 1;
            PBT_NOTE("pop*" << cnt);
            for (unsigned i = 0; i < cnt && m.size(); ++i) { check_elem(k, m.size() - 1, v.back(), "back"); v.pop_back(); m.pop_back(); }
            break;
        }
        case 2: { // scattered writes
            if (m.empty()) break;
            unsigned cnt = (unsigned)s.raw(12) + 1;
            PBT_NOTE("set*" << cnt);
            for (unsigned i = 0; i < cnt; ++i) put(k, s.raw(m.size()));
            break;
        }
        case 3: { // scattered reads
            if (m.empty()) break;
            unsigned cnt = (unsigned)s.raw(12) + 1;
            PBT_NOTE("get*" << cnt);
            for (unsigned i = 0; i < cnt; ++i) {
                uint64_t p = s.raw(m.size());
                switch (s.raw(5)) {
                case 0: check_elem(k, p, c[p], "const []"); break;
                case 1: check_elem(k, p, v[p], "[]"); break;
                case 2: check_elem(k, p, c.at(p), "at"); break;
                case 3: check_elem(k, p, *(c.begin() + p), "const_iterator"); break;
                case 4: check_elem(k, p, *(v.begin() + p), "iterator"); break;
                }
            }
            break;
        }
        case 4: { // fill a range, block by block writes
            if (m.empty()) break;
            uint64_t a = s.raw(m.size()), e = a + s.raw(std::min<uint64_t>(m.size() - a, 4 * B) + 1);
            PBT_NOTE("fill[" << a << "," << e << ")");
            typename V::iterator it = v.begin() + a;
            for (uint64_t i = a; i < e; ++i, ++it) { *it = VT::make(next); m[i] = VT::norm(next++); }
            break;
        }
        case 5: { // resize
            uint64_t n = s.size(max, B);
            PBT_NOTE("resize(" << n << ")");
            v.resize(n); m.resize(n, UNK);
            break;
        }
        case 6: {
            uint64_t n = s.size(max, B);
            bool sh = s.chance(2, 3);
            PBT_NOTE("resize(" << n << "," << (sh ? "shrink" : "keep") << ")");
            v.resize(n, sh); m.resize(n, UNK);
            if (sh) PBT_CHECK(v.capacity() < n + B, "capacity " << v.capacity() << " after shrinking to " << n);
            break;
        }
        case 7: {
            uint64_t n = s.size(max, B);
            PBT_NOTE("reserve(" << n << ")");
            uint64_t cap = v.capacity();
            v.reserve(n);
            PBT_CHECK(v.capacity() >= n && v.capacity() >= cap, "capacity after reserve");
            break;
        }
        case 8: PBT_NOTE("flush"); v.flush(); break;
        case 9: {
            if (!s.chance(1, 3)) break;
            PBT_NOTE("clear"); v.clear(); m.clear();
            PBT_EQ(v.capacity(), 0u, "capacity after clear");
            break;
        }
        case 10: {
            PBT_NOTE("swap");
            if (s.chance(1, 2)) S[0].v->swap(*S[1].v); else std::swap(*S[0].v, *S[1].v);
            std::swap(S[0].m, S[1].m);
            break;
        }
        case 11: { // copy
            if (s.chance(1, 2)) { PBT_NOTE("assign"); *S[1 - k].v = v; S[1 - k].m = m; }
            else {
                PBT_NOTE("copy");
                V* n = new V(v); delete S[1 - k].v; S[1 - k].v = n; S[1 - k].m = m;
            }
            break;
        }
        case 12: { // buffered reading of a range
            uint64_t a = s.raw(m.size() + 1), e = s.chance(1, 2) ? m.size() : a + s.raw(m.size() - a + 1);
            unsigned nb = (unsigned)s.raw(5);
            PBT_NOTE("bufread[" << a << "," << e << ")x" << nb);
            typename V::bufreader_type r(c.begin() + a, c.begin() + e, nb);
            uint64_t i = a;
            PBT_EQ(r.size(), e - a, "bufreader size");
            if (s.chance(1, 4) && a < e) { // read some, rewind
                uint64_t cnt = s.raw(e - a + 1);
                for (uint64_t q = 0; q < cnt; ++q, ++i) { check_elem(k, i, *r, "bufreader"); ++r; }
                r.rewind(); i = a;
            }
            for ( ; !r.empty(); ++r, ++i) {
                PBT_CHECK(i < e, "bufreader runs past the end");
                check_elem(k, i, *r, "bufreader");
            }
            PBT_EQ(i, e, "bufreader end");
            break;
        }
        case 13: {
            uint64_t a = s.raw(m.size() + 1), e = s.chance(1, 2) ? m.size() : a + s.raw(m.size() - a + 1);
            unsigned nb = (unsigned)s.raw(5);
            PBT_NOTE("bufread_rev[" << a << "," << e << ")x" << nb);
            typename V::bufreader_reverse_type r(c.begin() + a, c.begin() + e, nb);
            uint64_t i = e;
            PBT_EQ(r.size(), e - a, "bufreader_reverse size");
            for ( ; !r.empty(); ++r) { PBT_CHECK(i > a, "reverse bufreader runs past the start"); --i; check_elem(k, i, *r, "bufreader_reverse"); }
            PBT_EQ(i, a, "bufreader_reverse end");
            break;
        }
        case 14: { // buffered writing, possibly past the end
            uint64_t a = s.chance(1, 2) ? 0 : s.chance(1, 2) ? std::min<uint64_t>(m.size(), s.raw(m.size() / B + 1) * B) : s.raw(m.size() + 1);
            if (s.chance(1, 4)) a = m.size();
            uint64_t cnt = s.size(std::min<uint64_t>(max - std::min(max, a), 8 * B), B);
            if (s.chance(1, 4)) cnt = std::min<uint64_t>(max - std::min(max, a), m.size() - a + s.raw(2 * B + 1));
            unsigned nb = (unsigned)s.raw(5);
            PBT_NOTE("bufwrite " << cnt << " at " << a << " of " << m.size() << " x" << nb);
            {
                typename V::bufwriter_type w(v.begin() + a, nb);
                uint64_t gap_known = m.size();
                (void)gap_known;
                for (uint64_t i = 0; i < cnt; ++i) {
                    w << VT::make(next);
                    if (a + i < m.size()) m[a + i] = VT::norm(next); else m.push_back(VT::norm(next));
                    ++next;
                }
                if (s.chance(1, 3)) w.finish();
            }
            if (cnt > B) wrap = true;
            PBT_EQ(v.size(), m.size(), "size after buffered writing");
            break;
        }
        case 15: full(k, "scan"); break;
        case 16: { // reverse iteration and iterator arithmetic
            PBT_NOTE("reverse scan");
            uint64_t i = m.size();
            uint64_t lim = std::min<uint64_t>(m.size(), 3 * B);
            typename V::const_reverse_iterator it = c.rbegin();
            for (uint64_t q = 0; q < lim; ++q, ++it) { --i; check_elem(k, i, *it, "reverse"); }
            if (i == 0) PBT_CHECK(it == c.rend(), "reverse end");
            if (m.size()) {
                uint64_t a = s.raw(m.size()), b = s.raw(m.size());
                typename V::const_iterator x = c.begin() + a, y = c.begin() + b;
                PBT_EQ((int64_t)(x - y), (int64_t)a - (int64_t)b, "iterator difference");
                PBT_CHECK((x < y) == (a < b) && (x == y) == (a == b) && (x > y) == (a > b) && (x <= y) == (a <= b), "iterator order");
                x += b; x -= a;
                PBT_CHECK(x == y, "iterator += -=");
                if (b) { --x; check_elem(k, b - 1, *x, "--iterator"); ++x; check_elem(k, b, *x, "++iterator"); }
            }
            break;
        }
        case 17: {
            PBT_NOTE("recache"); v.deallocate_page_cache(); v.allocate_page_cache();
            break;
        }
        case 18: { // comparison
            bool unk = false;
            for (int q = 0; q < 2; ++q) for (int64_t x : S[q].m) unk |= x == UNK;
            if (unk) break;
            PBT_NOTE("compare");
            PBT_EQ(*S[0].v == *S[1].v, S[0].m == S[1].m, "operator ==");
            PBT_EQ(*S[0].v < *S[1].v, S[0].m < S[1].m, "operator <");
            break;
        }
        case 19: { // make every element known
            if (m.size() > 4 * B + 600) break;
            for (uint64_t i = 0; i < m.size(); ++i) if (m[i] == UNK) put(k, i);
            break;
        }
        }
        maxlen = std::max<uint64_t>(maxlen, m.size());
        for (int q = 0; q < 2; ++q) {
            PBT_EQ(S[q].v->size(), S[q].m.size(), "size");
            PBT_EQ(S[q].v->empty(), S[q].m.empty(), "empty");
            PBT_CHECK(S[q].v->capacity() >= S[q].v->size(), "capacity below size");
        }
        PBT_EQ(stx::allocated(), S[0].v->raw_capacity() + S[1].v->raw_capacity(), "external memory allocated by the vectors");
    }
    full(0, "final"); full(1, "final");
    if (maxlen > B * PageSize * 2) { pbt::nontrivial(); pbt::label("several pages"); }
    if (wrap) pbt::label("buffered writing over a block");
    delete S[0].v; delete S[1].v;
    stx::check_no_blocks("after destroying the vectors");
}

typedef Rec<1000> R1000;
typedef Rec<512> R512;
typedef Rec<20> R20;
#if PART == 0
PBT_TARGET_F(vec_r1000_p1_lru, 500, 6000, 1, (run_vector<R1000, 1, stxxl::lru_pager<2>, 4096, stxxl::RC>));
PBT_TARGET_F(vec_r512_p3_lru, 450, 6000, 1, (run_vector<R512, 3, stxxl::lru_pager<2>, 4096, stxxl::striping>));
#elif PART == 1
PBT_TARGET_F(vec_u64_p4_lru, 260, 4000, 1, (run_vector<uint64_t, 4, stxxl::lru_pager<8>, 4096, stxxl::SR>));
PBT_TARGET_F(vec_r512_p1_random, 400, 4000, 1, (run_vector<R512, 1, stxxl::random_pager<3>, 4096, stxxl::FR>));
#else
PBT_TARGET_F(vec_r20_p2_random, 220, 3000, 1, (run_vector<R20, 2, stxxl::random_pager<3>, 4096, stxxl::RC>));
PBT_TARGET_F(vec_u8_p2_lru, 100, 2000, 1, (run_vector<unsigned char, 2, stxxl::lru_pager<3>, 4096, stxxl::RC>));
#endif
