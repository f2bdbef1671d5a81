// Scanning algorithms on vectors: for_each, for_each_m, generate, find and random_shuffle, against an array.
#include "common.hpp"
#include <stxxl/bits/algo/random_shuffle.h>
#include <stxxl/bits/algo/scan.h>
#include <stxxl/bits/containers/vector.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <random>

static const int64_t UNKNOWN = -1;      // an element that was never written

template <class E>
struct Visit
{
    std::vector<int64_t>* seen;
    unsigned calls;
    explicit Visit(std::vector<int64_t>* p) : seen(p), calls(0) { }
    void operator () (const E& e) { ++calls; seen->push_back(Val<E>::get(e)); }
};
template <class E>
struct Change
{
    std::vector<int64_t>* seen;
    uint32_t add;
    bool set;
    unsigned calls;
    void operator () (E& e)
    {
        ++calls;
        int64_t v = Val<E>::get(e);
        seen->push_back(v);
        e = Val<E>::make(set ? add + calls - 1 : (uint32_t)v * 3 + add);
    }
};
template <class E>
struct Gen
{
    uint32_t* at;
    E operator () () { return Val<E>::make((*at)++); }
};
struct Rand
{
    std::mt19937 r;
    unsigned mode;
    uint64_t calls;
    Rand(unsigned seed, unsigned m) : r(seed + 1), mode(m), calls(0) { }
    // a number below n, however drawn
    template <class N> N operator () (N n)
    {
        ++calls;
        PBT_CHECK(n > 0, "random number below " << n << " wanted");
        switch (mode) {
        case 0: return (N)(r() % n);
        case 1: return 0;
        case 2: return n - 1;
        default: return (N)(r() % 4 ? 0 : r() % n);      // uneven buckets
        }
    }
};

template <class Vec>
static void scans(pbt::Src& s)
{
    typedef typename Vec::value_type E;
    typedef Val<E> V;
    typedef typename Vec::iterator iter;
    typedef typename Vec::const_iterator citer;
    const uint64_t B = Vec::block_type::size;
    stx::setup(s);
    uint64_t most = 0;
    {
        uint64_t n = s.size(20 * B, B);
        Vec v(n);
        const Vec& c = v;
        std::vector<int64_t> m(n, UNKNOWN);
        unsigned fill = (unsigned)s.weighted({ 4, 2, 1 });
        PBT_NOTE("vector of " << n << ", " << B << " in a block, filled " << fill << ";");
        if (fill == 0) for (uint64_t i = 0; i < n; ++i) { v[i] = V::make((uint32_t)i % 1000); m[i] = V::norm((uint32_t)i % 1000); }
        if (fill == 1 && n) { uint64_t k = s.size(n, B); for (uint64_t i = 0; i < k; ++i) { v[i] = V::make((uint32_t)i); m[i] = V::norm((uint32_t)i); } }
        for (unsigned t = 1 + (unsigned)s.raw(8); t; --t) {
            uint64_t a = s.chance(1, 3) ? 0 : s.size(n, B), b = s.chance(1, 3) ? n : a + s.size(n - a, B);
            int nb = (int)(s.chance(1, 2) ? 0 : 1 + s.raw(7));
            uint32_t x = (uint32_t)s.raw(100000);
            std::vector<int64_t> seen;
            uint64_t k = b - a;
            switch (s.weighted({ 2, 3, 3, 2, 3, 2 })) {
            case 0: {
                PBT_NOTE("for_each " << a << ".." << b << "/" << nb << ";");
                unsigned calls = s.chance(1, 2) ? stxxl::for_each(v.begin() + a, v.begin() + b, Visit<E>(&seen), nb).calls : stxxl::for_each(c.begin() + a, c.begin() + b, Visit<E>(&seen), nb).calls;
                PBT_EQ((uint64_t)calls, k, "calls counted by the functor returned");
                PBT_EQ(seen.size(), k, "elements visited");
                for (uint64_t i = 0; i < k; ++i) if (m[a + i] != UNKNOWN) PBT_EQ(seen[i], m[a + i], "element " << a + i << " visited");
            } break;
            case 1: {
                bool known = true;
                for (uint64_t i = a; i < b; ++i) known = known && m[i] != UNKNOWN;
                Change<E> f = { &seen, x, !known || s.chance(1, 3), 0 };
                PBT_NOTE("for_each_m " << a << ".." << b << "/" << nb << (f.set ? " assigning" : "") << ";");
                unsigned calls = stxxl::for_each_m(v.begin() + a, v.begin() + b, f, nb).calls;
                PBT_EQ((uint64_t)calls, k, "calls counted by the functor returned");
                PBT_EQ(seen.size(), k, "elements visited");
                for (uint64_t i = 0; i < k; ++i) {
                    int64_t& e = m[a + i];
                    if (e != UNKNOWN) PBT_EQ(seen[i], e, "element " << a + i << " visited");
                    e = V::norm(f.set ? x + (uint32_t)i : (uint32_t)e * 3 + x);
                }
            } break;
            case 2: {
                PBT_NOTE("generate " << a << ".." << b << "/" << nb << ";");
                uint32_t at = x;
                Gen<E> g = { &at };
                stxxl::generate(v.begin() + a, v.begin() + b, g, nb);
                PBT_EQ((uint64_t)(at - x), k, "calls of the generator");
                for (uint64_t i = 0; i < k; ++i) m[a + i] = V::norm(x + (uint32_t)i);
            } break;
            case 3: {
                bool known = true;
                for (uint64_t i = a; i < b; ++i) known = known && m[i] != UNKNOWN;
                if (!known) break;
                if (k && s.chance(2, 3)) x = (uint32_t)m[a + s.raw(k)];
                uint64_t want = a;
                while (want < b && m[want] != V::norm(x)) ++want;
                PBT_NOTE("find " << x << " in " << a << ".." << b << "/" << nb << ";");
                uint64_t got = s.chance(1, 2) ? stxxl::find(v.begin() + a, v.begin() + b, V::make(x), nb) - v.begin() : stxxl::find(c.begin() + a, c.begin() + b, V::make(x), nb) - c.begin();
                PBT_EQ(got, want, "position of " << x);
            } break;
            case 4: {
                // any amount of memory; what is too little is made up
                stxxl::unsigned_type mem = (stxxl::unsigned_type)(s.raw(24) * Vec::block_type::raw_size + s.raw(4096));
                bool own = s.chance(1, 2);
                Rand r((unsigned)x, (unsigned)s.weighted({ 6, 1, 1, 2 }));
                bool known = true;
                for (uint64_t i = a; i < b; ++i) known = known && m[i] != UNKNOWN;
                PBT_NOTE("random_shuffle " << a << ".." << b << " in " << mem << (own ? "" : " own") << " mode " << r.mode << ";");
                // every element into the same bucket at every depth does not end, nor has to
                if (r.mode == 1 || r.mode == 2) { if (k * sizeof(E) > Vec::block_type::raw_size) r.mode = 0; }
                uint64_t before = stx::allocated();
                if (own) stxxl::random_shuffle(v.begin() + a, v.begin() + b, r, mem);
                else stxxl::random_shuffle(v.begin() + a, v.begin() + b, mem);
                PBT_EQ(stx::allocated(), before, "allocated after shuffling");
                if (own && k > 1) PBT_CHECK(r.calls > 0, "the random numbers were not drawn from the generator given");
                std::vector<int64_t> was(m.begin() + a, m.begin() + b), now;
                if (known) {
                    for (uint64_t i = a; i < b; ++i) { m[i] = V::get(c[i]); now.push_back(m[i]); }
                    bool same = k > 300 && was == now && (!own || r.mode == 0);
                    std::sort(was.begin(), was.end());
                    bool all = !was.empty() && was.front() == was.back();
                    std::sort(now.begin(), now.end());
                    for (uint64_t i = 0; i < k; ++i) PBT_CHECK(was[i] == now[i], "not a permutation of the range: " << now[i] << " instead of " << was[i]);
                    PBT_CHECK(!same || all, "nothing was shuffled");
                }
                else {
                    // what had been written is still somewhere
                    std::map<int64_t, int64_t> have;
                    for (uint64_t i = a; i < b; ++i) { m[i] = V::get(c[i]); ++have[m[i]]; }
                    for (uint64_t i = 0; i < k; ++i) if (was[i] != UNKNOWN) PBT_CHECK(have[was[i]]-- > 0, "element " << was[i] << " is lost");
                    for (uint64_t i = a; i < b; ++i) m[i] = UNKNOWN;
                }
                if (k > 8 * B) pbt::label("shuffled more than eight blocks");
            } break;
            default: {
                PBT_NOTE("write;");
                for (unsigned j = (unsigned)s.raw(10); j && n; --j) { uint64_t i = s.raw(n); v[i] = V::make((uint32_t)i * 7); m[i] = V::norm((uint32_t)i * 7); }
                k = 0;
            } break;
            }
            most = std::max(most, k);
            pbt::ops(k);
            if (s.chance(1, 3)) for (uint64_t i = 0; i < n; ++i) if (m[i] != UNKNOWN) PBT_CHECK(V::get(c[i]) == m[i], "element " << i << " of " << n << " is " << V::get(c[i]) << " instead of " << m[i]);
            if (s.chance(1, 6)) v.flush();
        }
        for (uint64_t i = 0; i < n; ++i) if (m[i] != UNKNOWN) PBT_CHECK(V::get(c[i]) == m[i], "element " << i << " of " << n << " is " << V::get(c[i]) << " instead of " << m[i] << " at the end");
    }
    stx::check_no_blocks("at the end");
    if (most > 3 * B) pbt::nontrivial();
}

// every permutation of a few elements is about as likely as every other
template <class Vec>
static void uniform(pbt::Src& s)
{
    typedef typename Vec::value_type E;
    stx::Opt o; o.max_disks = 1; o.allow_files = false; o.max_threads = 1;
    stx::setup(s, o);
    {
        const uint64_t off = s.raw(20), n = 4, rounds = 3000;
        Vec v(64);
        Rand r((unsigned)s.raw(1u << 20), 0);
        bool own = s.chance(1, 2);
        std::map<std::vector<int64_t>, unsigned> count;
        for (uint64_t t = 0; t < rounds; ++t) {
            for (uint64_t i = 0; i < n; ++i) v[off + i] = Val<E>::make((uint32_t)i);
            if (own) stxxl::random_shuffle(v.begin() + off, v.begin() + off + n, r, 1 << 16);
            else stxxl::random_shuffle(v.begin() + off, v.begin() + off + n, 1 << 16);
            std::vector<int64_t> p;
            for (uint64_t i = 0; i < n; ++i) p.push_back(Val<E>::get(v[off + i]));
            ++count[p];
        }
        PBT_NOTE(count.size() << " permutations");
        PBT_EQ(count.size(), 24u, "permutations seen in " << rounds << " rounds");
        double chi = 0, e = rounds / 24.0;
        for (auto& x : count) chi += (x.second - e) * (x.second - e) / e;
        // 23 degrees of freedom: exceeded with a probability below 1e-9
        PBT_CHECK(chi < 95, "permutations are not equally likely: chi square " << chi);
        pbt::ops(rounds);
    }
    pbt::nontrivial();
}
#if PART == 0
PBT_TARGET_F(scans_8_1, 600, 6000, 1, (scans<stxxl::vector<Rec<8>, 1, stxxl::lru_pager<2>, 4096, stxxl::striping> >));
PBT_TARGET_F(uniform, 2, 20, 1, (uniform<stxxl::vector<Rec<8>, 1, stxxl::lru_pager<2>, 4096, stxxl::striping> >));
#elif PART == 1
PBT_TARGET_F(scans_64_4, 1000, 10000, 1, (scans<stxxl::vector<Rec<64>, 4, stxxl::lru_pager<2>, 4096, stxxl::RC> >));
#else
PBT_TARGET_F(scans_200_2, 1000, 10000, 1, (scans<stxxl::vector<Rec<200>, 2, stxxl::lru_pager<3>, 4096, stxxl::SR> >));
#endif
