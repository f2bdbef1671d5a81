// Parallel multiway merging, splitting and merge sort (stxxl::parallel) against stable sorting of the concatenation.
#include <pbt.hpp>
#include <stxxl/bits/parallel.h>
#include <stxxl/bits/parallel/multiway_merge.h>
#include <stxxl/bits/parallel/multiway_mergesort.h>
#include <stxxl/bits/parallel/multiseq_selection.h>
#include <stxxl/bits/parallel/equally_split.h>
#include <memory>
#include <algorithm>
#include <numeric>
#include <omp.h>
namespace par = stxxl::parallel;

// elements: a key that the order looks at and a tag that tells equal elements apart
struct Rec { int32_t key; uint32_t tag; Rec() : key(0), tag(0) { } Rec(int32_t k, uint32_t t) : key(k), tag(t) { } };
static bool operator == (const Rec& a, const Rec& b) { return a.key == b.key && a.tag == b.tag; }
inline std::ostream& operator << (std::ostream& o, const Rec& r) { return o << r.key << "#" << r.tag; }
struct Fat { std::string text; int32_t key; uint32_t tag; Fat() : key(0), tag(0) { } Fat(int32_t k, uint32_t t) : text("element with memory of its own " + std::to_string(t)), key(k), tag(t) { } };
inline std::ostream& operator << (std::ostream& o, const Fat& r) { return o << r.key << "#" << r.tag; }
template <class T> struct El
{
    static T make(int32_t k, uint32_t t) { return T(k, t); }
    static int32_t key(const T& v) { return v.key; }
    static uint32_t tag(const T& v) { return v.tag; }
};
template <> struct El<int64_t>
{
    typedef int64_t T;
    static T make(int32_t k, uint32_t t) { return (int64_t)k * (1ll << 20) + t; }
    static int32_t key(T v) { return (int32_t)(v >> 20); }
    static uint32_t tag(T v) { return (uint32_t)(v & 0xfffff); }
};
template <> struct El<int>
{
    typedef int T;
    static T make(int32_t k, uint32_t t) { return k * (1 << 16) + (int)(t & 0xffff); }
    static int32_t key(T v) { return v >> 16; }
    static uint32_t tag(T v) { return (uint32_t)(v & 0xffff); }
};
template <class T> struct Cmp
{
    bool desc;
    explicit Cmp(bool d) : desc(d) { }
    bool operator () (const T& a, const T& b) const { return desc ? El<T>::key(b) < El<T>::key(a) : El<T>::key(a) < El<T>::key(b); }
};

template <class T> struct Seqs
{
    std::vector<std::unique_ptr<T[]> > mem;
    std::vector<size_t> len;
    std::vector<std::pair<T*, T*> > it;
    std::vector<std::pair<size_t, size_t> > order;   // stable order of all elements: (sequence, index)
    size_t total;
    const T& at(const std::pair<size_t, size_t>& p) const { return mem[p.first][p.second]; }
};

template <class T>
static Seqs<T> make(pbt::Src& s, unsigned k, bool empties, bool sentinel, const Cmp<T>& cmp, size_t maxlen)
{
    Seqs<T> q;
    uint32_t tag = 0;
    int32_t kinds = s.chance(1, 4) ? 1 : s.chance(1, 2) ? (int32_t)s.range(2, 6) : s.chance(1, 2) ? (int32_t)s.range(7, 60) : 8000;
    bool alike = s.chance(1, 2);
    size_t common = (size_t)s.size(maxlen, 16);
    q.total = 0;
    for (unsigned i = 0; i < k; ++i) {
        size_t n = alike ? common : (size_t)s.size(maxlen, 16);
        if (!empties && !n) n = 1;
        if (empties && s.chance(1, 8)) n = 0;
        uint64_t seed = s.raw(1u << 30);
        int32_t lo = s.chance(1, 4) ? (int32_t)s.raw(kinds) : 0, span = s.chance(1, 4) ? 1 : kinds;
        std::vector<int32_t> keys(n);
        for (size_t j = 0; j < n; ++j) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; keys[j] = (lo + (int32_t)((seed >> 33) % span)) % kinds - kinds / 2; }
        std::sort(keys.begin(), keys.end());
        if (cmp.desc) std::reverse(keys.begin(), keys.end());
        q.mem.emplace_back(new T[n + (sentinel ? 1 : 0)]);
        for (size_t j = 0; j < n; ++j) { q.mem[i][j] = El<T>::make(keys[j], tag++); q.order.push_back(std::make_pair(i, j)); }
        if (sentinel) q.mem[i][n] = El<T>::make(cmp.desc ? -20000 : 20000, 0);
        q.len.push_back(n);
        q.it.push_back(std::make_pair(q.mem[i].get(), q.mem[i].get() + n));
        q.total += n;
    }
    std::stable_sort(q.order.begin(), q.order.end(), [&](const std::pair<size_t, size_t>& a, const std::pair<size_t, size_t>& b) { return cmp(q.at(a), q.at(b)); });
    return q;
}
static const char* const ALG[] = { "bubble", "loser tree", "combined", "sentinel" };

// calls f as drawn: straight, or from within a parallel region (where the team of a nested region has one thread)
template <class F> static void calling(bool nested, F f)
{
    if (!nested) { f(); return; }
    std::exception_ptr e;
#pragma omp parallel num_threads(2)
    {
#pragma omp single
        { try { f(); } catch (...) { e = std::current_exception(); } }
    }
    if (e) std::rethrow_exception(e);
}
static void restore()
{
    par::SETTINGS::multiway_merge_algorithm = par::SETTINGS::LOSER_TREE;
    par::SETTINGS::multiway_merge_splitting = par::SETTINGS::EXACT;
    par::SETTINGS::sort_splitting = par::SETTINGS::EXACT;
    par::SETTINGS::multiway_merge_minimal_n = 1000;
    par::SETTINGS::multiway_merge_minimal_k = 2;
    par::SETTINGS::force_parallel = false;
    par::SETTINGS::force_sequential = false;
    par::SETTINGS::merge_oversampling = 10;
    par::SETTINGS::sort_mwms_oversampling = 10;
}

template <class T>
static void merging(pbt::Src& s)
{
    restore();
    bool stable = s.chance(1, 2), sentinel = s.chance(1, 3);
    Cmp<T> cmp(s.chance(1, 3));
    unsigned k = (unsigned)(s.chance(1, 3) ? s.range(2, 5) : s.range(1, 20));
    unsigned alg = (unsigned)s.raw(4);
    par::SETTINGS::multiway_merge_algorithm = (par::SETTINGS::MultiwayMergeAlgorithm)alg;
    unsigned threads = (unsigned)s.range(1, 8);
    par::SETTINGS::num_threads = (int)threads;
    bool sampling = s.chance(1, 3), nested = s.chance(1, 8);
    par::SETTINGS::multiway_merge_splitting = sampling ? par::SETTINGS::SAMPLING : par::SETTINGS::EXACT;
    par::SETTINGS::merge_oversampling = (unsigned)s.range(1, 12);
    if (s.chance(2, 3)) par::SETTINGS::multiway_merge_minimal_n = (par::sequence_index_t)s.size(3000, 500);
    par::SETTINGS::multiway_merge_minimal_k = (int)s.range(1, 5);
    if (s.chance(1, 6)) par::SETTINGS::force_sequential = true;
    Seqs<T> q = make<T>(s, k, true, sentinel, cmp, s.chance(1, 2) ? 40 : 700);
    // elements wanted at the most, in one or several calls
    unsigned calls = s.chance(1, 2) ? 1 : (unsigned)s.range(2, 4);
    std::unique_ptr<T[]> out(new T[q.total]);
    PBT_NOTE((stable ? "stable " : "") << (sentinel ? "sentinels " : "") << ALG[alg] << (sampling ? " sampling" : "") << (nested ? " nested" : "") << " k=" << k << " total=" << q.total << " threads=" << threads);
    size_t done = 0;
    for (unsigned c = 0; c < calls; ++c) {
        size_t n = c + 1 == calls && s.chance(2, 3) ? q.total - done : (size_t)s.raw(q.total - done + 1);
        std::vector<T*> before;
        for (unsigned i = 0; i < k; ++i) before.push_back(q.it[i].first);
        T* end = NULL;
        pbt::ops();
        PBT_NOTE(" +" << n);
        calling(nested, [&]() {
            T* t = out.get() + done;
            ptrdiff_t l = (ptrdiff_t)n;
            if (stable && sentinel) end = par::multiway_merge_stable_sentinels(q.it.begin(), q.it.end(), t, l, cmp);
            else if (stable) end = par::multiway_merge_stable(q.it.begin(), q.it.end(), t, l, cmp);
            else if (sentinel) end = par::multiway_merge_sentinels(q.it.begin(), q.it.end(), t, l, cmp);
            else end = par::multiway_merge(q.it.begin(), q.it.end(), t, l, cmp);
        });
        PBT_EQ(end - (out.get() + done), (ptrdiff_t)n, "elements written");
        std::vector<uint32_t> took, got;
        size_t adv = 0;
        for (unsigned i = 0; i < k; ++i) {
            PBT_CHECK(q.it[i].second == q.mem[i].get() + q.len[i], "the end of sequence " << i << " was moved");
            PBT_CHECK(q.it[i].first >= before[i] && q.it[i].first <= q.it[i].second, "the begin of sequence " << i << " left the sequence");
            adv += q.it[i].first - before[i];
            for (T* p = before[i]; p != q.it[i].first; ++p) took.push_back(El<T>::tag(*p));
        }
        PBT_EQ(adv, n, "elements taken from the sequences");
        for (size_t j = 0; j < n; ++j) {
            const T& w = q.at(q.order[done + j]);
            const T& g = out[done + j];
            got.push_back(El<T>::tag(g));
            PBT_CHECK(El<T>::key(w) == El<T>::key(g), "element " << done + j << " of " << q.total << " has key " << El<T>::key(g) << " instead of " << El<T>::key(w));
            if (stable) PBT_CHECK(El<T>::tag(w) == El<T>::tag(g), "stable merging: element " << done + j << " of " << q.total << " (key " << El<T>::key(g) << ") is number " << El<T>::tag(g) << " instead of " << El<T>::tag(w));
        }
        std::sort(took.begin(), took.end());
        std::sort(got.begin(), got.end());
        PBT_CHECK(took == got, "the elements merged are not those taken from the sequences");
        done += n;
    }
    restore();
    if (k > 2 && q.total > 50) pbt::nontrivial();
    if (threads > 1 && q.total >= 1000) pbt::label("parallel");
}

template <class T>
static void splitting(pbt::Src& s)
{
    Cmp<T> cmp(s.chance(1, 3));
    unsigned k = (unsigned)s.range(1, 14);
    Seqs<T> q = make<T>(s, k, false, false, cmp, s.chance(1, 2) ? 20 : 400);
    unsigned nranks = (unsigned)s.range(1, 8);
    for (unsigned r = 0; r < nranks; ++r) {
        pbt::ops();
        ptrdiff_t rank = (ptrdiff_t)s.raw(q.total + 1);
        PBT_NOTE("rank " << rank << " of " << q.total << " in " << k);
        std::vector<T*> off(k);
        par::multiseq_partition(q.it.begin(), q.it.end(), rank, off.begin(), cmp);
        std::vector<size_t> want(k, 0);
        for (ptrdiff_t i = 0; i < rank; ++i) ++want[q.order[i].first];
        for (unsigned i = 0; i < k; ++i)
            PBT_CHECK(off[i] - q.it[i].first == (ptrdiff_t)want[i], "splitting at rank " << rank << " of " << q.total << ": sequence " << i << " of " << k << " (" << q.len[i] << " elements) is split at " << (off[i] - q.it[i].first) << " instead of " << want[i]);
        if (rank < (ptrdiff_t)q.total) {
            ptrdiff_t at = -1;
            T v = par::multiseq_selection<T>(q.it.begin(), q.it.end(), rank, at, cmp);
            const T& w = q.at(q.order[rank]);
            PBT_EQ(El<T>::key(v), El<T>::key(w), "element selected at rank " << rank << " of " << q.total << ":");
            ptrdiff_t first = rank;
            while (first > 0 && El<T>::key(q.at(q.order[first - 1])) == El<T>::key(w)) --first;
            PBT_EQ(at, rank - first, "offset of the element selected at rank " << rank << " of " << q.total << ":");
        }
    }
    // parts of almost equal size
    ptrdiff_t n = (ptrdiff_t)s.raw(1000);
    int p = (int)s.range(1, 40);
    std::vector<ptrdiff_t> at(p + 1, -1);
    PBT_CHECK(par::equally_split(n, p, at.begin()) == at.end(), "equally_split: end of the splitters");
    PBT_CHECK(at[0] == 0 && at[p] == n, "equally_split: ends");
    for (int i = 0; i < p; ++i) PBT_CHECK(at[i + 1] - at[i] == n / p || at[i + 1] - at[i] == n / p + 1, "equally_split: part " << i << " has " << at[i + 1] - at[i] << " of " << n << " elements, " << p << " parts");
    if (k > 1 && q.total > 10) pbt::nontrivial();
}

template <class T>
static void sorting(pbt::Src& s)
{
    restore();
    Cmp<T> cmp(s.chance(1, 3));
    bool stable = s.chance(1, 2), nested = s.chance(1, 8), sampling = s.chance(1, 3);
    par::SETTINGS::sort_splitting = sampling ? par::SETTINGS::SAMPLING : par::SETTINGS::EXACT;
    par::SETTINGS::multiway_merge_algorithm = (par::SETTINGS::MultiwayMergeAlgorithm)s.raw(4);
    par::SETTINGS::sort_mwms_oversampling = (unsigned)s.range(1, 12);
    int threads = (int)s.range(1, 8);
    size_t n = (size_t)s.size(s.chance(1, 2) ? 60 : 4000, 16);
    int32_t kinds = s.chance(1, 2) ? (int32_t)s.range(1, 10) : 8000;
    std::vector<T> v, w;
    uint64_t seed = s.raw(1u << 30);
    for (size_t j = 0; j < n; ++j) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; v.push_back(El<T>::make((int32_t)((seed >> 33) % kinds) - kinds / 2, (uint32_t)j)); }
    w = v;
    std::stable_sort(w.begin(), w.end(), cmp);
    PBT_NOTE((stable ? "stable " : "") << (sampling ? "sampling " : "") << (nested ? "nested " : "") << "n=" << n << " threads=" << threads);
    pbt::ops();
    calling(nested, [&]() {
        if (stable) par::parallel_sort_mwms<true>(v.begin(), v.end(), cmp, threads);
        else par::parallel_sort_mwms<false>(v.begin(), v.end(), cmp, threads);
    });
    std::vector<uint32_t> tags;
    for (size_t j = 0; j < n; ++j) {
        PBT_CHECK(El<T>::key(v[j]) == El<T>::key(w[j]), "element " << j << " of " << n << " has key " << El<T>::key(v[j]) << " instead of " << El<T>::key(w[j]));
        if (stable) PBT_CHECK(El<T>::tag(v[j]) == El<T>::tag(w[j]), "stable sorting: element " << j << " of " << n << " is number " << El<T>::tag(v[j]) << " instead of " << El<T>::tag(w[j]));
        tags.push_back(El<T>::tag(v[j]));
    }
    std::sort(tags.begin(), tags.end());
    for (size_t j = 0; j < n; ++j) PBT_CHECK(tags[j] == j, "element number " << j << " is missing after sorting");
    restore();
    if (n > 50 && threads > 1) pbt::nontrivial();
}

#if PART == 0
PBT_TARGET_F(merge_int, 4500, 90000, 10, merging<int>);
PBT_TARGET_F(merge_struct, 4500, 90000, 10, merging<Rec>);
#elif PART == 1
PBT_TARGET_F(merge_long, 4500, 90000, 10, merging<int64_t>);
PBT_TARGET_F(merge_fat, 4500, 90000, 10, merging<Fat>);
#elif PART == 2
PBT_TARGET_F(split_int, 4500, 90000, 10, splitting<int>);
PBT_TARGET_F(split_struct, 4500, 90000, 10, splitting<Rec>);
PBT_TARGET_F(sort_int, 4500, 90000, 10, sorting<int>);
PBT_TARGET_F(sort_struct, 4500, 90000, 10, sorting<Rec>);
PBT_TARGET_F(sort_fat, 4500, 90000, 10, sorting<Fat>);
#endif
