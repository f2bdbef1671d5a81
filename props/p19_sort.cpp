// sort, ksort and stable_ksort over parts of vectors, in memory, by merging, and on files.
#include "common.hpp"
#include <stxxl/bits/containers/vector.h>
#include <stxxl/bits/algo/sort.h>
#include <stxxl/bits/algo/ksort.h>
#include <stxxl/bits/algo/stable_ksort.h>
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <algorithm>
#include <fstream>
#include <iterator>
#include <memory>

template <class KeyT, unsigned PAD>
struct Elem
{
    typedef KeyT key_type;
    KeyT k;
    uint32_t id;
    unsigned char pad[PAD];
    Elem() { }
    Elem(KeyT k_, uint32_t i) : k(k_), id(i) { fill(pad); }
    void fill(unsigned char* p) const { for (unsigned j = 0; j < PAD; ++j) p[j] = (unsigned char)((uint32_t)k * 7 + id * 3 + j); }
    bool ok() const { unsigned char p[PAD]; fill(p); return memcmp(p, pad, PAD) == 0; }
    KeyT key() const { return k; }
    static Elem min_value() { return Elem(std::numeric_limits<KeyT>::min(), 0xffffffffu); }
    static Elem max_value() { return Elem(std::numeric_limits<KeyT>::max(), 0xffffffffu); }
};
template <class E> struct CmpLess
{
    static bool before(const E& a, const E& b) { return a.k < b.k; }
    bool operator () (const E& a, const E& b) const { return a.k < b.k; }
    E min_value() const { return E::min_value(); }
    E max_value() const { return E::max_value(); }
};
template <class E> struct CmpGreater
{
    bool operator () (const E& a, const E& b) const { return a.k > b.k; }
    E min_value() const { return E::max_value(); }
    E max_value() const { return E::min_value(); }
};
// orders by the complement of the key
template <class E> struct KeyInv
{
    typedef typename E::key_type key_type;
    key_type operator () (const E& e) const { return std::numeric_limits<key_type>::max() - e.k; }
    E min_value() const { return E::max_value(); }
    E max_value() const { return E::min_value(); }
};

enum Alg { SORT, SORT_GREATER, KSORT, KSORT_KEY, STABLE };

template <int A, class E> struct Call;
template <class E> struct Call<SORT, E> { static const bool up = true; template <class I> static void go(I f, I l, stxxl::unsigned_type M) { stxxl::sort(f, l, CmpLess<E>(), M); } };
template <class E> struct Call<SORT_GREATER, E> { static const bool up = false; template <class I> static void go(I f, I l, stxxl::unsigned_type M) { stxxl::sort(f, l, CmpGreater<E>(), M); } };
template <class E> struct Call<KSORT, E> { static const bool up = true; template <class I> static void go(I f, I l, stxxl::unsigned_type M) { stxxl::ksort(f, l, M); } };
template <class E> struct Call<KSORT_KEY, E> { static const bool up = false; template <class I> static void go(I f, I l, stxxl::unsigned_type M) { stxxl::ksort(f, l, KeyInv<E>(), M); } };
template <class E> struct Call<STABLE, E> { static const bool up = true; template <class I> static void go(I f, I l, stxxl::unsigned_type M) { stxxl::stable_ksort(f, l, M); } };

typedef std::pair<uint64_t, uint32_t> KI;

template <class KeyT>
static KeyT draw(pbt::Src& s, unsigned dist, uint64_t i, uint64_t n)
{
    const KeyT top = std::numeric_limits<KeyT>::max() - 1;
    switch (dist) {
    case 0: return (KeyT)(1 + s.raw(top));
    case 1: return (KeyT)(1 + s.raw(5));
    case 2: return 77;
    case 3: return (KeyT)(1 + i);
    case 4: return (KeyT)(1 + n - i);
    case 5: return (KeyT)(top - s.raw(9));
    case 6: return (KeyT)(1 + (i * 37) % 101);
    case 7: return s.chance(1, 2) ? (KeyT)1 : top;
    case 8: return (KeyT)(1 + s.raw(300));
    default: return (KeyT)((KeyT)s.raw(64) << (sizeof(KeyT) * 8 - 6));   // uniform, with many equal keys
    }
}

template <int A, class E, unsigned PageSize, class AS>
static void run(pbt::Src& s)
{
    typedef stxxl::vector<E, PageSize, stxxl::lru_pager<3>, 4096, AS> V;
    typedef typename V::block_type block_type;
    typedef Call<A, E> C;
    typedef typename E::key_type KeyT;
    const uint64_t B = block_type::size, RAW = block_type::raw_size;
    stx::setup(s);
    stxxl::SETTINGS::native_merge = s.chance(1, 2);
    const unsigned D = stxxl::config::get_instance()->disks_number();
    const unsigned factor = A == SORT || A == SORT_GREATER ? stxxl::sort_memory_usage_factor() : 1;
    uint64_t m = s.chance(1, 4) ? s.range(2, 4) : s.range(2, 20);       // blocks of memory
    uint64_t n = s.size(70 * B, B);
    unsigned dist = (unsigned)s.raw(9);
    if (A == STABLE) { m = 4 * D + 2 + s.raw(12); dist = s.chance(1, 2) ? 0 : 9; }
    uint64_t M = m * RAW * factor + (s.chance(1, 3) ? s.raw(RAW) : 0);
    if (s.chance(1, 12)) M = (n + 5 * B) * sizeof(E) * 2 + 4 * RAW;     // in memory
    uint64_t a = 0, b = n;
    if (s.chance(2, 3)) { a = s.size(n, B); b = a + s.size(n - a, B); if (s.chance(1, 2)) b = std::max(a, n - std::min<uint64_t>(n, s.raw(2 * B))); }
    int file = (int)s.weighted({ 3, 1, 1 });
    bool poor = (A == SORT || A == SORT_GREATER) && s.chance(1, 20);
    if (poor) M = s.raw(2 * RAW * factor);
    if (A == STABLE) {
        // uniformly distributed keys, and buckets that fit into memory
        uint64_t nb = 1ull << stxxl::ilog2_floor(M / RAW - 4 * D), room = (M / RAW - 2 * D) / 2 * B, len = b - a;
        uint64_t e = len / nb + 1;
        while (e + 7 * (uint64_t)sqrt((double)e) + 8 > room) { len = len * 3 / 4; e = len / nb + 1; }
        b = a + len;
    }
    PBT_NOTE(n << " elements of " << sizeof(E) << ", sort " << a << ".." << b << " memory " << M << " (" << M / RAW << " blocks of " << B << ") keys " << dist << (stxxl::SETTINGS::native_merge ? " native" : "") << (file ? " file" : ""));
    std::string path = std::string(pbt::scratch()) + "/vec.dat";
    std::unique_ptr<stxxl::file> f;
    if (file == 1) f.reset(new stxxl::syscall_file(path, stxxl::file::RDWR | stxxl::file::CREAT));
    if (file == 2) f.reset(new stxxl::mmap_file(path, stxxl::file::RDWR | stxxl::file::CREAT));
    std::vector<KI> model;
    uint64_t base;
    {
        std::unique_ptr<V> pv(file ? new V(f.get(), n) : new V(n));
        V& v = *pv;
        for (uint64_t i = 0; i < n; ++i) { E e(draw<KeyT>(s, dist, i, n), (uint32_t)i); v[i] = e; model.push_back(KI(e.k, e.id)); }
        base = stx::allocated();
        bool threw = false;
        try { C::go(v.begin() + a, v.begin() + b, (stxxl::unsigned_type)M); }
        catch (stxxl::bad_parameter&) { threw = true; }
        if (threw) PBT_CHECK(poor, "refuses " << M << " bytes of memory");
        PBT_EQ(stx::allocated(), base, "allocated blocks after sorting");
        if (!threw) {
            bool up = C::up;
            if (A == STABLE) std::stable_sort(model.begin() + a, model.begin() + b, [](const KI& x, const KI& y) { return x.first < y.first; });
            else std::sort(model.begin() + a, model.begin() + b, [up](const KI& x, const KI& y) { return up ? x < y : y < x; });
        }
        const V& c = v;
        // the keys are determined, ids among equal keys are not
        std::vector<KI> got;
        for (uint64_t i = 0; i < n; ++i) {
            const E& e = c[i];
            PBT_CHECK(e.ok(), "element " << i << " is damaged (key " << e.k << " id " << e.id << ")");
            PBT_CHECK((uint64_t)e.k == model[i].first, "key at " << i << " is " << e.k << " instead of " << model[i].first << (i < a || i >= b ? " outside the sorted range" : ""));
            if (i < a || i >= b) PBT_CHECK(e.id == model[i].second, "element " << i << " outside the sorted range changed");
            else got.push_back(KI(e.k, e.id));
        }
        if (!threw) {
            if (A != STABLE) { bool up = C::up; std::sort(got.begin(), got.end(), [up](const KI& x, const KI& y) { return up ? x < y : y < x; }); }
            for (uint64_t i = a; i < b; ++i)
                PBT_CHECK(got[i - a] == model[i], (A == STABLE ? "not stable at " : "not a permutation: at ") << i << " key " << got[i - a].first << " id " << got[i - a].second << " instead of " << model[i].second);
        }
        // the vector works on
        for (uint64_t i = 0; i < n; ++i) model[i] = KI(c[i].k, c[i].id);
        for (unsigned t = (unsigned)s.raw(8); t && n; --t) {
            uint64_t i = s.raw(n);
            E e((KeyT)(1 + s.raw(1000)), 1000000 + t);
            v[i] = e; model[i] = KI(e.k, e.id);
        }
        for (unsigned t = (unsigned)s.raw(3 * B); t; --t) { E e((KeyT)(1 + t), 2000000 + t); v.push_back(e); model.push_back(KI(e.k, e.id)); }
        for (uint64_t i = 0; i < model.size(); ++i) { const E& e = c[i]; PBT_CHECK(e.ok() && KI(e.k, e.id) == model[i], "element " << i << " after changes is " << e.k << "/" << e.id << " instead of " << model[i].first << "/" << model[i].second); }
    }
    stx::check_no_blocks("after the vector is gone");
    if (file) {
        f.reset();
        std::ifstream in(path.c_str(), std::ios::binary);
        std::string raw((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        PBT_EQ(raw.size(), model.size() * sizeof(E), "length of the file");
        for (uint64_t i = 0; i < model.size(); ++i) {
            E e;
            memcpy((void*)&e, raw.data() + i * sizeof(E), sizeof(E));
            PBT_CHECK(e.ok() && KI(e.k, e.id) == model[i], "element " << i << " in the file is " << e.k << "/" << e.id << " instead of " << model[i].first << "/" << model[i].second);
        }
        pbt::label("file");
    }
    stxxl::SETTINGS::native_merge = true;
    pbt::ops(b - a);
    if (A == STABLE ? b - a > 4 * B : (b - a) * sizeof(E) * factor >= M && !poor) { pbt::label("external"); if ((b - a) * sizeof(E) > 4 * M) pbt::label("over 4 M"); pbt::nontrivial(); }
}

typedef Elem<uint32_t, 56> E64;       // 64 bytes
typedef Elem<uint64_t, 500> E512;     // 512 bytes
typedef Elem<uint64_t, 4> E16;
#if PART == 0
PBT_TARGET_F(sort_64, 400, 8000, 1, (run<SORT, E64, 1, stxxl::striping>));
PBT_TARGET_F(sort_512, 500, 12000, 1, (run<SORT, E512, 2, stxxl::RC>));
PBT_TARGET_F(sort_greater, 200, 4000, 1, (run<SORT_GREATER, E16, 1, stxxl::SR>));
#elif PART == 1
PBT_TARGET_F(ksort_64, 400, 8000, 1, (run<KSORT, E64, 1, stxxl::striping>));
PBT_TARGET_F(ksort_512, 500, 12000, 1, (run<KSORT, E512, 2, stxxl::RC>));
PBT_TARGET_F(ksort_keyobj, 200, 4000, 1, (run<KSORT_KEY, E16, 1, stxxl::FR>));
#else
PBT_TARGET_F(stable_64, 300, 6000, 1, (run<STABLE, E64, 1, stxxl::striping>));
PBT_TARGET_F(stable_16, 200, 3000, 1, (run<STABLE, E16, 2, stxxl::RC>));
#endif
