// stxxl::map against std::map.
#include "common.hpp"
#include <stxxl/bits/containers/map.h>
#include <map>
#include <memory>

// A key of 8 + PAD bytes; the tag takes no part in the order.
template <unsigned PAD>
struct Key
{
    uint32_t k, tag;
    unsigned char pad[PAD];
    Key() { }
    Key(uint32_t k_, uint32_t t) : k(k_), tag(t) { fill(pad); }
    void fill(unsigned char* p) const { for (unsigned i = 0; i < PAD; ++i) p[i] = (unsigned char)((k * 2654435761u >> 11) + tag * 3 + i); }
    bool ok() const { unsigned char p[PAD]; fill(p); return memcmp(p, pad, PAD) == 0; }
    bool operator == (const Key& o) const { return k == o.k && tag == o.tag; }
    bool operator != (const Key& o) const { return !(*this == o); }
};
template <unsigned PAD>
static std::ostream& operator << (std::ostream& os, const Key<PAD>& k) { return os << k.k; }
template <unsigned PAD>
static bool operator < (const Key<PAD>& a, const Key<PAD>& b) { return a.k < b.k || (a.k == b.k && a.tag < b.tag); }
template <unsigned PAD>
struct Less
{
    static const bool up = true;
    bool operator () (const Key<PAD>& a, const Key<PAD>& b) const { return a.k < b.k; }
    static Key<PAD> max_value() { return Key<PAD>(std::numeric_limits<uint32_t>::max(), 0); }
};
template <unsigned PAD>
struct Greater
{
    static const bool up = false;
    bool operator () (const Key<PAD>& a, const Key<PAD>& b) const { return a.k > b.k; }
    static Key<PAD> max_value() { return Key<PAD>(0, 0); }
};

struct Entry { uint32_t tag; int64_t val; bool operator == (const Entry& o) const { return tag == o.tag && val == o.val; } };
struct ModelCmp { bool up; bool operator () (uint32_t a, uint32_t b) const { return up ? a < b : a > b; } };
typedef std::map<uint32_t, Entry, ModelCmp> Model;

template <unsigned PAD, class D, template <unsigned> class CMP, unsigned NB, unsigned LB, bool TAGS>
struct Run
{
    typedef Key<PAD> K;
    typedef CMP<PAD> C;
    typedef stxxl::map<K, D, C, NB, LB, stxxl::SR> M;
    typedef typename M::iterator iterator;
    typedef typename M::const_iterator const_iterator;
    typedef typename M::value_type value_type;
    typedef Val<D> VT;
    struct Held { iterator it; const_iterator cit; unsigned map; bool end; uint32_t k; };

    pbt::Src& s;
    std::unique_ptr<M> x[2];
    Model m[2];
    std::vector<std::unique_ptr<Held> > held;
    uint32_t range, next;
    uint64_t maxn;
    unsigned nodes, leaves, erased;

    explicit Run(pbt::Src& s_) : s(s_), range(1), next(1), maxn(0), nodes(3), leaves(3), erased(0)
    {
        ModelCmp c = { C::up };
        m[0] = Model(c); m[1] = Model(c);
    }
    uint32_t newval() { return next++; }
    uint32_t anykey() { return 1 + (uint32_t)s.raw(range); }
    // a key of the map, or some key
    uint32_t somekey(unsigned w)
    {
        if (m[w].empty() || s.chance(1, 3)) return anykey();
        if (s.chance(1, 6)) return s.chance(1, 2) ? m[w].begin()->first : m[w].rbegin()->first;
        Model::iterator i = m[w].lower_bound(anykey());
        return i == m[w].end() ? m[w].rbegin()->first : i->first;
    }
    K key(uint32_t k) { return K(k, TAGS ? (uint32_t)s.raw(4) : 0); }

    template <class It> void expect(const char* what, unsigned w, It it, Model::iterator mi, bool isend)
    {
        (void)w;
        PBT_CHECK(isend == (mi == m[w].end()), what << ": " << (isend ? "end" : "an element") << " instead of " << (isend ? "an element" : "end"));
        if (isend) return;
        at(what, it, mi);
    }
    template <class It> void at(const char* what, It it, Model::iterator mi)
    {
        const value_type v = *it;
        PBT_CHECK(v.first.ok(), what << ": the bytes of the key at " << mi->first << " do not belong together");
        PBT_CHECK(v.first.k == mi->first, what << ": key " << v.first.k << " instead of " << mi->first);
        PBT_CHECK(v.first.tag == mi->second.tag, what << ": tag of the key " << mi->first << " is " << v.first.tag << " instead of " << mi->second.tag);
        PBT_CHECK(VT::get(v.second) == mi->second.val, what << ": value of " << mi->first << " is " << VT::get(v.second) << " instead of " << mi->second.val);
    }
    void make(unsigned w)
    {
        drop(w);
        m[w].clear();
        x[w].reset();
        uint64_t nb = M::node_block_type::raw_size * nodes, lb = M::leaf_block_type::raw_size * leaves;
        unsigned how = (unsigned)s.raw(4);
        if (how < 2) { PBT_NOTE("map " << w); if (how) x[w].reset(new M(nb, lb)); else x[w].reset(new M(C(), nb, lb)); }
        else {
            bool sorted = how == 3;
            uint64_t n = s.size(sorted ? 2000 : 200, M::leaf_block_type::size);
            std::vector<value_type> v;
            uint32_t k = C::up ? 0 : range + 1;
            unsigned step = (unsigned)s.range(1, 4), dup = (unsigned)s.raw(3);
            for (uint64_t i = 0; i < n; ++i) {
                uint32_t kk;
                if (sorted) {
                    uint32_t d = dup && s.chance(1, 4) ? 0 : 1 + (uint32_t)s.raw(step);
                    if (k == 0 || k > range) d = std::max(1u, d);
                    k = C::up ? k + d : k - d;
                    if (k == 0 || k > range) break;
                    kk = k;
                }
                else kk = anykey();
                value_type e(key(kk), VT::make(newval()));
                v.push_back(e);
                Entry en = { e.first.tag, VT::get(e.second) };
                m[w].insert(std::make_pair(kk, en));
            }
            maxn = std::max<uint64_t>(maxn, m[w].size());
            double nf = 0.5 + 0.05 * (double)s.raw(11), lf = 0.5 + 0.05 * (double)s.raw(11);
            bool dflt = s.chance(1, 4);
            PBT_NOTE("map " << w << " of " << n << (sorted ? " sorted" : " unsorted") << " fill " << nf << "/" << lf);
            if (dflt) { if (s.chance(1, 2)) x[w].reset(new M(v.begin(), v.end(), nb, lb, sorted)); else x[w].reset(new M(v.begin(), v.end(), C(), nb, lb, sorted)); }
            else if (s.chance(1, 2)) x[w].reset(new M(v.begin(), v.end(), nb, lb, sorted, nf, lf));
            else x[w].reset(new M(v.begin(), v.end(), C(), nb, lb, sorted, nf, lf));
            if (sorted) pbt::label("bulk");
        }
        maxn = std::max<uint64_t>(maxn, m[w].size());
        if (s.chance(1, 2)) x[w]->disable_prefetching();
    }
    void drop(unsigned w) { for (size_t i = 0; i < held.size(); ) if (held[i]->map == w) held.erase(held.begin() + i); else ++i; }
    // an iterator to an erased element may only be destroyed
    void forget(unsigned w, uint32_t k) { for (size_t i = 0; i < held.size(); ) if (held[i]->map == w && !held[i]->end && held[i]->k == k) held.erase(held.begin() + i); else ++i; }
    void check_held()
    {
        for (size_t i = 0; i < held.size(); ++i) {
            Held& h = *held[i];
            PBT_CHECK((h.it == x[h.map]->end()) == h.end, "a held iterator " << (h.end ? "was at the end and is" : "is") << " not where it was");
            if (h.end) continue;
            Model::iterator mi = m[h.map].find(h.k);
            if (s.chance(1, 2)) at("held iterator", h.it, mi); else at("held const_iterator", h.cit, mi);
        }
    }
    void walk(unsigned w)
    {
        M& a = *x[w];
        const M& c = a;
        Model& d = m[w];
        if (s.chance(1, 2)) a.enable_prefetching(); else a.disable_prefetching();
        switch (s.raw(5)) {
        case 0: {
            Model::iterator mi = d.begin();
            for (iterator i = a.begin(); ; ) {
                expect("scan", w, i, mi, i == a.end());
                if (mi == d.end()) break;
                if (s.chance(1, 8)) { i->second = VT::make(next); mi->second.val = VT::norm(newval()); }
                if (mi->first % 2) ++i; else i++;
                ++mi;
            }
            break;
        }
        case 1: {
            Model::iterator mi = d.begin();
            for (const_iterator i = c.begin(); ; ++i, ++mi) {
                expect("const scan", w, i, mi, i == c.end());
                if (mi == d.end()) break;
            }
            break;
        }
        case 2: {
            iterator i = a.end();
            for (Model::iterator mi = d.end(); mi != d.begin(); ) {
                --mi;
                if (mi->first % 2) --i; else i--;
                at("backward scan", i, mi);
            }
            PBT_CHECK(i == a.begin(), "backward scan does not end at begin()");
            break;
        }
        case 3: {
            typename M::reverse_iterator r = a.rbegin();
            for (Model::reverse_iterator mi = d.rbegin(); mi != d.rend(); ++mi, ++r) {
                PBT_CHECK(r != a.rend(), "reverse scan ends early");
                Model::iterator f = d.find(mi->first);
                at("reverse scan", r, f);
            }
            PBT_CHECK(r == a.rend(), "reverse scan does not end");
            break;
        }
        case 4: {   // to and fro
            Model::iterator mi = d.lower_bound(anykey());
            iterator i = a.lower_bound(mi == d.end() ? C::max_value() : K(mi->first, 0));
            for (unsigned n = (unsigned)s.raw(60); n; --n) {
                expect("walk", w, i, mi, i == a.end());
                if (s.chance(1, 2)) { if (mi != d.end()) ++mi, ++i; }
                else if (mi != d.begin()) --mi, --i;
            }
            break;
        }
        }
    }
    void full(unsigned w, const char* what)
    {
        const M& c = *x[w];
        PBT_EQ(c.size(), m[w].size(), what);
        PBT_EQ(c.empty(), m[w].empty(), "empty");
        Model::iterator mi = m[w].begin();
        const_iterator i = c.begin();
        for ( ; mi != m[w].end(); ++i, ++mi) expect(what, w, i, mi, i == c.end());
        PBT_CHECK(i == c.end(), what << ": the scan goes on behind the last element");
    }
    void lookup(unsigned w)
    {
        M& a = *x[w];
        const M& c = a;
        Model& d = m[w];
        uint32_t k = somekey(w);
        K kk = key(k);
        bool cst = s.chance(1, 2);
        switch (s.raw(5)) {
        case 0: { Model::iterator mi = d.find(k); if (cst) { const_iterator i = c.find(kk); expect("find const", w, i, mi, i == c.end()); } else { iterator i = a.find(kk); expect("find", w, i, mi, i == a.end()); } break; }
        case 1: PBT_EQ(a.count(kk), d.count(k), "count"); break;
        case 2: { Model::iterator mi = d.lower_bound(k); if (cst) { const_iterator i = c.lower_bound(kk); expect("lower_bound const", w, i, mi, i == c.end()); } else { iterator i = a.lower_bound(kk); expect("lower_bound", w, i, mi, i == a.end()); } break; }
        case 3: { Model::iterator mi = d.upper_bound(k); if (cst) { const_iterator i = c.upper_bound(kk); expect("upper_bound const", w, i, mi, i == c.end()); } else { iterator i = a.upper_bound(kk); expect("upper_bound", w, i, mi, i == a.end()); } break; }
        case 4: {
            std::pair<Model::iterator, Model::iterator> me = d.equal_range(k);
            if (cst) { std::pair<const_iterator, const_iterator> e = c.equal_range(kk); expect("equal_range const first", w, e.first, me.first, e.first == c.end()); expect("equal_range const second", w, e.second, me.second, e.second == c.end()); }
            else { std::pair<iterator, iterator> e = a.equal_range(kk); expect("equal_range first", w, e.first, me.first, e.first == a.end()); expect("equal_range second", w, e.second, me.second, e.second == a.end()); }
            break;
        }
        }
    }
    void insert(unsigned w, uint32_t k, unsigned how)
    {
        M& a = *x[w];
        Model& d = m[w];
        K kk = key(k);
        uint32_t v = newval();
        Entry en = { kk.tag, VT::norm(v) };
        if (how == 3) {
            bool isnew = !d.count(k);
            D& r = a[kk];
            if (!isnew) PBT_CHECK(VT::get(r) == d.find(k)->second.val, "[" << k << "] is " << VT::get(r) << " instead of " << d.find(k)->second.val);
            r = VT::make(v);
            if (isnew) d.insert(std::make_pair(k, en)); else d.find(k)->second.val = en.val;
            return;
        }
        std::pair<Model::iterator, bool> mr = d.insert(std::make_pair(k, en));
        if (how == 0) {
            std::pair<iterator, bool> r = a.insert(value_type(kk, VT::make(v)));
            PBT_EQ(r.second, mr.second, "insert reports a new element");
            expect("insert", w, r.first, mr.first, r.first == a.end());
        }
        else if (how == 1) {
            iterator hint = s.chance(1, 2) ? a.begin() : a.lower_bound(kk);
            iterator r = a.insert(hint, value_type(kk, VT::make(v)));
            expect("insert with hint", w, r, mr.first, r == a.end());
        }
        else {
            std::vector<value_type> b(1, value_type(kk, VT::make(v)));
            a.insert(b.begin(), b.end());
        }
    }
    void erase(unsigned w, uint32_t k, bool byit)
    {
        M& a = *x[w];
        Model& d = m[w];
        forget(w, k);
        if (byit && d.count(k)) {
            iterator i = a.find(K(k, d.find(k)->second.tag));
            if (s.chance(1, 2)) { Model::iterator mi = d.find(k); a.erase(i++); expect("iterator moved on before erase", w, i, ++mi, i == a.end()); }
            else a.erase(i);
            d.erase(k);
        }
        else PBT_EQ(a.erase(key(k)), d.erase(k), "number of erased elements");
        ++erased;
    }

    void go()
    {
        stx::setup(s);
        nodes = (unsigned)s.range(3, 9);
        leaves = (unsigned)s.range(3, 8);
        range = (uint32_t)(s.chance(1, 4) ? s.range(1, 60) : s.chance(1, 2) ? s.range(60, 1000) : s.range(1000, 100000));
        PBT_NOTE("caches " << nodes << "+" << leaves << " keys to " << range);
        try {
            make(0);
            if (s.chance(1, 3)) make(1);
            unsigned nops = (unsigned)s.range(1, 30);
            for (unsigned op = 0; op < nops; ++op) step();
            for (unsigned w = 0; w < 2; ++w) if (x[w]) full(w, "final scan");
            check_held();
        }
        catch (std::runtime_error& e) {
            // announced: a tree higher than the node cache has blocks
            PBT_CHECK(strstr(e.what(), "Increase the node cache size"), "unexpected exception " << e.what());
            PBT_CHECK(maxn >= 20, "the tree is too high with " << maxn << " elements");
            pbt::label("capacity");
        }
        held.clear();
        x[0].reset(); x[1].reset();
        stx::check_no_blocks("after the maps are gone");
        if (maxn > 6 * M::leaf_block_type::size && erased > M::leaf_block_type::size) pbt::nontrivial();
    }
    void step()
    {
        pbt::ops();
        unsigned w = x[1] && s.chance(1, 3) ? 1 : 0;
        M& a = *x[w];
        Model& d = m[w];
        uint64_t L = M::leaf_block_type::size;
        switch (s.weighted({ 12, 10, 4, 6, 6, 3, 1, 1, 2, 3, 2, 2 })) {
        case 0: {   // a run of insertions
            uint64_t n = s.size(60 * L, L);
            if (d.size() > 200 * L) break;
            unsigned how = (unsigned)s.raw(4), order = (unsigned)s.raw(4);
            uint32_t k = anykey(), st = 1 + (uint32_t)s.raw(3);
            PBT_NOTE(w << ":insert " << n << (order == 0 ? " up" : order == 1 ? " down" : " random") << " by " << how);
            for (uint64_t i = 0; i < n; ++i) {
                insert(w, order == 0 ? k : order == 1 ? k : anykey(), how);
                maxn = std::max<uint64_t>(maxn, d.size());
                if (order == 0) { k += st; if (k > range) k = 1; }
                if (order == 1) k = k > st ? k - st : range;
                if (held.size() && s.chance(1, 16)) check_held();
            }
            break;
        }
        case 1: {   // a run of removals
            uint64_t n = s.size(60 * L, L);
            unsigned order = (unsigned)s.raw(4);
            bool byit = s.chance(1, 2);
            PBT_NOTE(w << ":erase " << n << (order == 0 ? " from the front" : order == 1 ? " from the back" : " random") << (byit ? " by iterator" : ""));
            for (uint64_t i = 0; i < n && !d.empty(); ++i) {
                erase(w, order == 0 ? d.begin()->first : order == 1 ? d.rbegin()->first : somekey(w), byit);
                if (held.size() && s.chance(1, 16)) check_held();
            }
            break;
        }
        case 2: {   // a range
            Model::iterator b = d.lower_bound(anykey()), e = b;
            uint64_t n = s.size(20 * L, L);
            if (s.chance(1, 8)) b = d.begin(), n = d.size();
            e = b;
            for (uint64_t i = 0; i < n && e != d.end(); ++i) ++e;
            PBT_NOTE(w << ":erase range");
            iterator i = b == d.end() ? a.end() : a.find(K(b->first, b->second.tag)), j = e == d.end() ? a.end() : a.find(K(e->first, e->second.tag));
            if (b == d.begin() && e == d.end()) drop(w);
            for (Model::iterator f = b; f != e; ++f) forget(w, f->first);
            a.erase(i, j);
            erased += (unsigned)std::distance(b, e);
            d.erase(b, e);
            expect("end of the erased range", w, a.lower_bound(e == d.end() ? C::max_value() : K(e->first, 0)), e, e == d.end());
            break;
        }
        case 3: for (unsigned n = (unsigned)s.range(1, 40); n; --n) lookup(w); break;
        case 4: walk(w); break;
        case 5: {
            Held* h = new Held;
            h->map = w;
            Model::iterator mi = d.lower_bound(anykey());
            if (s.chance(1, 8)) mi = d.end();
            h->end = mi == d.end();
            if (h->end) { h->it = a.end(); h->k = 0; }
            else { h->k = mi->first; h->it = a.find(K(mi->first, mi->second.tag)); }
            if (s.chance(1, 2)) h->cit = h->it;
            else h->cit = h->end ? ((const M&)a).end() : ((const M&)a).find(K(mi->first, mi->second.tag));
            held.emplace_back(h);
            if (s.chance(1, 3)) { std::unique_ptr<Held> cp(new Held(*h)); held.push_back(std::move(cp)); }
            unsigned more = !h->end && held.size() < 200 && s.chance(1, 2) ? 1 + (unsigned)s.raw(std::min<uint64_t>(4 * L, 120)) : 0;
            PBT_NOTE(w << ":hold" << (more ? " a run" : ""));
            // iterators to the neighbours
            Model::iterator at = mi;
            iterator prev = h->it;
            while (more-- && ++at != d.end()) {
                Held* g = new Held;
                g->map = w; g->end = false; g->k = at->first;
                if (s.chance(1, 2)) { ++prev; g->it = prev; }
                else prev = g->it = a.find(K(at->first, at->second.tag));
                g->cit = g->it;
                held.emplace_back(g);
            }
            break;
        }
        case 6:
            if (!x[1]) break;
            PBT_NOTE("swap");
            if (s.chance(1, 2)) x[0]->swap(*x[1]); else std::swap(*x[0], *x[1]);
            m[0].swap(m[1]);
            for (auto& h : held) h->map ^= 1;
            pbt::label("swap");
            break;
        case 7: PBT_NOTE(w << ":clear"); drop(w); a.clear(); d.clear(); break;   // takes the leaf with the end along
        case 8: {
            if (!x[1]) break;
            if (s.chance(1, 2)) { PBT_NOTE("copy"); drop(1); m[1] = m[0]; x[1].reset(); const M& c = *x[0]; x[1].reset(new M(c.begin(), c.end(), M::node_block_type::raw_size * nodes, M::leaf_block_type::raw_size * leaves, s.chance(1, 2))); }
            compare();
            break;
        }
        case 9: check_held(); break;
        case 10: full(w, "scan"); break;
        case 11: { PBT_NOTE("new " << w); make(w); break; }
        }
        PBT_EQ(x[w]->size(), m[w].size(), "size");
    }
    void compare();
};

template <unsigned PAD, class D, template <unsigned> class CMP, unsigned NB, unsigned LB, bool TAGS>
void Run<PAD, D, CMP, NB, LB, TAGS>::compare()
{
    const M& a = *x[0];
    const M& b = *x[1];
    std::vector<std::pair<std::pair<uint32_t, uint32_t>, int64_t> > va, vb;
    for (auto& e : m[0]) va.push_back(std::make_pair(std::make_pair(e.first, e.second.tag), e.second.val));
    for (auto& e : m[1]) vb.push_back(std::make_pair(std::make_pair(e.first, e.second.tag), e.second.val));
    PBT_EQ(a == b, va == vb, "==");
    PBT_EQ(a != b, va != vb, "!=");
    PBT_EQ(a < b, va < vb, "<");
    PBT_EQ(a > b, va > vb, ">");
    PBT_EQ(a <= b, va <= vb, "<=");
    PBT_EQ(a >= b, va >= vb, ">=");
}

template <class R> static void run(pbt::Src& s) { R r(s); r.go(); }

#if PART == 0
PBT_TARGET_F(fat, 300, 5000, 1, (run<Run<600, Rec<60>, Less, 4096, 4096, false> >));
PBT_TARGET_F(greater, 300, 5000, 1, (run<Run<240, uint64_t, Greater, 4096, 4096, false> >));
#else
PBT_TARGET_F(tags, 300, 5000, 1, (run<Run<500, Rec<100>, Less, 4096, 8192, true> >));
PBT_TARGET_F(slim, 120, 2000, 1, (run<Run<8, unsigned, Less, 4096, 4096, false> >));
#endif
