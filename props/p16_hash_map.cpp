// unordered_map against a map ordered by hash value and key, with iterators held over all operations.
#include "common.hpp"
#include <stxxl/unordered_map>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <type_traits>
#include <vector>

// hash functions of very different quality
struct Hash
{
    unsigned mode;
    explicit Hash(unsigned m = 0) : mode(m) { }
    size_t operator () (uint32_t k) const
    {
        uint64_t x = k * 0x9e3779b97f4a7c15ull;
        x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
        switch (mode) {
        case 0: return x;                                // spread
        case 1: return (x % 23) * 0x0b21642c8590b216ull; // few values: collisions
        case 2: return (uint64_t)k << 44;                // ordered
        case 3: return 5;                                // one value
        case 4: return ~0ull - (x % 5);                  // at the end of the range
        default: return x % 7 == 0 ? 0 : x % 7 == 1 ? ~0ull : x;
        }
    }
};
struct Less
{
    bool operator () (uint32_t a, uint32_t b) const { return a < b; }
    static uint32_t min_value() { return 0; }
    static uint32_t max_value() { return 0xffffffffu; }
};
typedef std::pair<size_t, uint32_t> Pos;         // order of the elements: hash value, key
typedef std::map<Pos, int64_t> Model;

template <class D>
struct Maps
{
    typedef stxxl::unordered_map<uint32_t, D, Hash, Less, 4096, 4> map_t;
    typedef typename map_t::iterator iter;
    typedef typename map_t::const_iterator citer;
    typedef typename map_t::value_type value_type;
    struct Held { iter it; bool constant; citer cit; int which; bool end; Pos pos; };

    pbt::Src& s;
    Hash hash[2];
    std::unique_ptr<map_t> m[2];
    Model ref[2];
    std::vector<std::unique_ptr<Held> > held;
    uint32_t domain, stamp;
    uint64_t most, rebuilt, nodes;
    explicit Maps(pbt::Src& x) : s(x), stamp(0), most(0), rebuilt(0) { }

    static value_type val(uint32_t k, uint32_t v) { return value_type(k, Val<D>::make(v)); }
    Pos pos(int w, uint32_t k) { return Pos(hash[w](k), k); }
    uint32_t key(int w)
    {
        if (!ref[w].empty() && s.chance(1, 2)) {
            auto i = ref[w].lower_bound(pos(w, 1 + (uint32_t)s.raw(domain)));
            if (i == ref[w].end()) i = ref[w].begin();
            return i->first.second;
        }
        return 1 + (uint32_t)s.raw(domain);
    }
    void create(int w)
    {
        hash[w] = Hash((unsigned)s.weighted({ 5, 3, 3, 1, 1, 2 }));
        uint64_t n = s.pick({ 0u, 0u, 1u, 3u, 40u });
        nodes = 2 + s.size(300, 30);
        size_t buf = nodes * sizeof(stxxl::hash_map::node<value_type>) + s.raw(20);
        PBT_NOTE("map " << w << " hash " << hash[w].mode << " buckets " << n << " buffer " << nodes << ";");
        m[w].reset();
        if (s.chance(1, 10)) {
            std::vector<value_type> v;
            Model fresh;
            uint32_t base = 1 + (uint32_t)s.raw(domain);
            for (uint64_t k = s.size(200, 20); k; --k) { uint32_t x = base + (uint32_t)(k * 3 % 250); if (fresh.count(pos(w, x))) continue; v.push_back(val(x, ++stamp)); fresh[pos(w, x)] = Val<D>::norm(stamp); }
            PBT_NOTE("of " << v.size() << ";");
            m[w].reset(new map_t(v.begin(), v.end(), 32 << 20, n, hash[w], Less(), buf));
            ref[w] = fresh;
        }
        else { m[w].reset(new map_t(n, hash[w], Less(), buf)); ref[w].clear(); }
        PBT_EQ((uint64_t)m[w]->max_buffer_size(), buf / sizeof(stxxl::hash_map::node<value_type>) * sizeof(stxxl::hash_map::node<value_type>), "maximum size of the buffer");
    }
    template <class I> void at(int w, I& it, const Pos& p, const char* what)
    {
        auto f = ref[w].find(p);
        PBT_CHECK(f != ref[w].end(), "internal");
        const value_type& e = *it;
        PBT_CHECK(e.first == p.second, what << ": the iterator is at key " << e.first << " instead of " << p.second);
        PBT_CHECK(Val<D>::get(e.second) == f->second, what << ": key " << p.second << " has value " << Val<D>::get(e.second) << " instead of " << f->second);
    }
    void hold(int w, const iter& it, const Pos& p)
    {
        if (held.size() >= 5 || !s.chance(1, 3)) return;
        PBT_NOTE("hold(" << p.second << ");");
        held.emplace_back(new Held { it, false, citer(), w, false, p });
    }
    void hold(int w, const citer& it, const Pos& p)
    {
        if (held.size() >= 5 || !s.chance(1, 3)) return;
        PBT_NOTE("hold const(" << p.second << ");");
        held.emplace_back(new Held { iter(), true, it, w, false, p });
    }
    // iterators to an erased element are at the end
    void gone(int w, const Pos& p) { for (auto& h : held) if (h->which == w && !h->end && h->pos == p) h->end = true; }
    void look(Held& h)
    {
        const map_t& c = *m[h.which];
        if (h.end) PBT_CHECK(h.constant ? h.cit == c.end() : h.it == m[h.which]->end(), "an iterator to an erased element (" << h.pos.second << ") is not at the end");
        else {
            PBT_CHECK(h.constant ? h.cit != c.end() : h.it != m[h.which]->end(), "an iterator to key " << h.pos.second << " is at the end");
            if (h.constant) at(h.which, h.cit, h.pos, "held"); else at(h.which, h.it, h.pos, "held");
        }
    }
    // what iteration yields, from the given position
    template <class I> void walk(int w, I& it, I end, typename Model::iterator f, uint64_t n, bool change)
    {
        for (; n; --n) {
            if (f == ref[w].end()) { PBT_CHECK(it == end, "more elements than the map has"); return; }
            PBT_CHECK(it != end, "the end before key " << f->first.second);
            at(w, it, f->first, "iteration");
            if (change && s.chance(1, 4)) set(it, f);
            ++it; ++f;
            pbt::ops(1);
        }
        if (f == ref[w].end()) PBT_CHECK(it == end, "more elements than the map has");
        else { PBT_CHECK(it != end, "the end before key " << f->first.second); at(w, it, f->first, "iteration"); }
    }
    void set(iter& it, typename Model::iterator f) { it->second = Val<D>::make(++stamp); f->second = Val<D>::norm(stamp); }
    void set(citer&, typename Model::iterator) { }

    void step()
    {
        int w = m[1] && s.chance(1, 3) ? 1 : 0;
        map_t& x = *m[w];
        const map_t& c = x;
        Model& r = ref[w];
        switch (s.weighted({ 8, 4, 4, 2, 5, 3, 3, 3, 3, 2, 1, 2, 1, 1, 2, 3, 4, 2, 1, 1 })) {
        case 0: {
            uint64_t n = s.chance(1, 2) ? 1 : s.size(400, 60);
            PBT_NOTE("insert*" << n << " ");
            bool seq = s.chance(1, 3);
            uint32_t base = (uint32_t)s.raw(domain);
            for (uint64_t i = 0; i < n; ++i) {
                uint32_t k = seq ? 1 + (base + (uint32_t)i) % domain : key(w);
                if (n == 1) PBT_NOTE(k << ";");
                Pos p = pos(w, k);
                bool had = r.count(p) > 0;
                std::pair<iter, bool> res = x.insert(val(k, ++stamp));
                if (!had) r[p] = Val<D>::norm(stamp);
                PBT_EQ(res.second, !had, "insert tells whether it inserted " << k);
                at(w, res.first, p, "insert");
                if (n == 1 || i + 1 == n) hold(w, res.first, p);
            }
            pbt::ops(n);
        } break;
        case 1: {
            uint32_t k = key(w);
            Pos p = pos(w, k);
            PBT_NOTE("find " << k << ";");
            iter it = x.find(k);
            PBT_EQ(it != x.end(), r.count(p) > 0, "found " << k);
            if (r.count(p)) { at(w, it, p, "find"); if (s.chance(1, 3)) set(it, r.find(p)); hold(w, it, p); }
        } break;
        case 2: {
            uint32_t k = key(w);
            Pos p = pos(w, k);
            PBT_NOTE("find const " << k << ";");
            citer it = c.find(k);
            PBT_EQ(it != c.end(), r.count(p) > 0, "found " << k);
            PBT_EQ(c.count(k), r.count(p), "count of " << k);
            if (r.count(p)) { at(w, it, p, "find"); hold(w, it, p); }
        } break;
        case 3: {
            uint32_t k = key(w);
            Pos p = pos(w, k);
            PBT_NOTE("equal_range " << k << ";");
            if (s.chance(1, 2)) {
                std::pair<iter, iter> e = x.equal_range(k);
                if (!r.count(p)) PBT_CHECK(e.first == e.second, "a range for a key that is not there");
                else { at(w, e.first, p, "equal_range"); PBT_CHECK(e.first != e.second, "an empty range for key " << k); ++e.first; PBT_CHECK(e.first == e.second, "a range of more than one element"); }
            }
            else {
                std::pair<citer, citer> e = c.equal_range(k);
                if (!r.count(p)) PBT_CHECK(e.first == e.second, "a range for a key that is not there");
                else { at(w, e.first, p, "equal_range"); PBT_CHECK(e.first != e.second, "an empty range for key " << k); ++e.first; PBT_CHECK(e.first == e.second, "a range of more than one element"); }
            }
        } break;
        case 4: {
            uint64_t n = s.chance(2, 3) ? 1 : s.size(100, 20);
            PBT_NOTE("erase*" << n << " ");
            for (; n; --n) {
                uint32_t k = key(w);
                Pos p = pos(w, k);
                if (n == 1) PBT_NOTE(k << ";");
                PBT_EQ(x.erase(k), r.count(p), "number of elements erased, key " << k);
                r.erase(p);
                gone(w, p);
            }
        } break;
        case 5: {
            if (r.empty()) break;
            uint32_t k = key(w);
            Pos p = pos(w, k);
            if (!r.count(p)) break;
            PBT_NOTE("erase at " << k << ";");
            switch (s.raw(3)) {
            case 0: x.erase(x.find(k)); break;
            case 1: x.erase(c.find(k)); break;
            default: {
                // one that was reached by walking
                auto f = r.find(p);
                citer it = c.find(k);
                ++it; ++f;
                if (f == r.end()) return;
                p = f->first;
                at(w, it, p, "erase");
                x.erase(it);
            }
            }
            r.erase(p);
            gone(w, p);
        } break;
        case 6: {
            uint64_t n = s.chance(2, 3) ? 1 : s.size(200, 30);
            PBT_NOTE("[]*" << n << " ");
            for (; n; --n) {
                uint32_t k = key(w);
                Pos p = pos(w, k);
                if (n == 1) PBT_NOTE(k << ";");
                D& d = x[k];
                if (r.count(p)) PBT_CHECK(Val<D>::get(d) == r[p], "[" << k << "] is " << Val<D>::get(d) << " instead of " << r[p]);
                d = Val<D>::make(++stamp);
                r[p] = Val<D>::norm(stamp);
            }
        } break;
        case 7: {
            uint64_t n = s.chance(2, 3) ? 1 : s.size(200, 30);
            PBT_NOTE("insert_oblivious*" << n << " ");
            for (; n; --n) {
                uint32_t k = key(w);
                Pos p = pos(w, k);
                if (n == 1) PBT_NOTE(k << ";");
                iter it = x.insert_oblivious(val(k, ++stamp));
                r[p] = Val<D>::norm(stamp);
                at(w, it, p, "insert_oblivious");
                if (n == 1) hold(w, it, p);
            }
        } break;
        case 8: {
            uint64_t n = s.chance(2, 3) ? 1 : s.size(100, 20);
            PBT_NOTE("erase_oblivious*" << n << " ");
            for (; n; --n) {
                uint32_t k = key(w);
                Pos p = pos(w, k);
                if (n == 1) PBT_NOTE(k << ";");
                x.erase_oblivious(k);
                r.erase(p);
                gone(w, p);
            }
        } break;
        case 9: {
            if (!s.chance(1, 3)) break;
            std::vector<value_type> v;
            uint64_t n = s.size(500, 60);
            PBT_NOTE("insert range " << n << ";");
            std::map<Pos, std::vector<int64_t> > fresh;
            bool dup = s.chance(1, 2);
            for (uint64_t i = 0; i < n; ++i) {
                uint32_t k = s.chance(1, 3) ? key(w) : 1 + (uint32_t)(s.raw(8) + i) % domain;
                if (fresh.count(pos(w, k)) && !dup) continue;
                v.push_back(val(k, ++stamp));
                fresh[pos(w, k)].push_back(Val<D>::norm(stamp));
            }
            x.insert(v.begin(), v.end(), 32 << 20);
            for (auto& f : fresh) {
                // one of the values given for the key
                int64_t d = f.second[0];
                if (f.second.size() > 1) {
                    citer it = c.find(f.first.second);
                    PBT_CHECK(it != c.end(), "key " << f.first.second << " was not inserted");
                    d = Val<D>::get((*it).second);
                    PBT_CHECK(std::count(f.second.begin(), f.second.end(), d), "key " << f.first.second << " has value " << d << ", which was not given");
                }
                r[f.first] = d;
            }
            pbt::ops(n);
        } break;
        case 10: PBT_NOTE("clear;"); x.clear(); r.clear(); for (auto& h : held) if (h->which == w) h->end = true; break;
        case 11: PBT_EQ(x.size(), r.size(), "size"); PBT_EQ(x.empty(), r.empty(), "empty"); break;
        case 12: {
            uint64_t n = s.raw(60);
            PBT_NOTE("rehash " << n << ";");
            x.rehash(n);
            PBT_CHECK(x.bucket_count() >= n, "fewer buckets than asked for");
            ++rebuilt;
        } break;
        case 13: {
            if (s.chance(1, 2)) {
                uint64_t n = s.size(300, 30);
                PBT_NOTE("buffer " << n << ";");
                x.max_buffer_size(n * sizeof(stxxl::hash_map::node<value_type>));
                PBT_EQ((uint64_t)x.max_buffer_size(), n * sizeof(stxxl::hash_map::node<value_type>), "maximum size of the buffer");
            }
            else {
                float f = 0.2f + (float)s.raw(20) / 10;
                PBT_NOTE("load factor " << f << ";");
                x.opt_load_factor(f);
                PBT_CHECK(x.opt_load_factor() == f, "load factor");
            }
        } break;
        case 14: {
            PBT_NOTE("iterate;");
            if (s.chance(1, 2)) { iter it = x.begin(); walk(w, it, x.end(), r.begin(), s.chance(1, 3) ? s.raw(r.size() + 1) : r.size(), s.chance(1, 3)); if (it != x.end()) hold(w, it, pos(w, (*it).first)); }
            else { citer it = c.begin(); walk(w, it, c.end(), r.begin(), r.size(), false); }
        } break;
        case 15: {
            if (held.empty()) break;
            Held& h = *held[s.raw(held.size())];
            if (h.end) break;
            uint64_t n = s.chance(1, 2) ? 1 : s.size(60, 10);
            PBT_NOTE("advance(" << h.pos.second << ", " << n << ");");
            auto f = ref[h.which].find(h.pos);
            if (h.constant) { const map_t& q = *m[h.which]; walk(h.which, h.cit, q.end(), f, n, false); }
            else walk(h.which, h.it, m[h.which]->end(), f, n, s.chance(1, 4));
            while (n-- && f != ref[h.which].end()) ++f;
            if (f == ref[h.which].end()) h.end = true; else h.pos = f->first;
        } break;
        case 16: {
            if (held.empty()) break;
            size_t i = s.raw(held.size());
            if (s.chance(1, 3)) { PBT_NOTE("drop(" << held[i]->pos.second << ");"); look(*held[i]); held.erase(held.begin() + i); }
            else if (s.chance(1, 3) && held.size() < 5) { PBT_NOTE("copy;"); held.emplace_back(new Held(*held[i])); }
            else if (held.size() > 1 && s.chance(1, 3)) { PBT_NOTE("assign;"); size_t j = s.raw(held.size()); *held[i] = *held[j]; }
            else look(*held[i]);
        } break;
        case 17: {
            if (held.empty()) break;
            Held& h = *held[s.raw(held.size())];
            if (h.end || h.constant) break;
            PBT_NOTE("assign at " << h.pos.second << ";");
            set(h.it, ref[h.which].find(h.pos));
        } break;
        case 18: {
            if (!m[1]) break;
            PBT_NOTE("swap;");
            if (s.chance(1, 2)) m[0]->swap(*m[1]); else std::swap(*m[0], *m[1]);
            std::swap(ref[0], ref[1]);
            std::swap(hash[0], hash[1]);
            for (auto& h : held) h->which = 1 - h->which;
        } break;
        default: {
            // a map that is gone leaves nothing behind
            held.clear();
            if (!m[1]) { create(1); break; }
            int v = (int)s.raw(2);
            PBT_NOTE("destroy " << v << ";");
            create(v);
        } break;
        }
        most = std::max<uint64_t>(most, r.size());
    }
    void all(int w)
    {
        map_t& x = *m[w];
        const map_t& c = x;
        PBT_EQ(x.size(), ref[w].size(), "size");
        if (s.chance(1, 2)) { citer it = c.begin(); walk(w, it, c.end(), ref[w].begin(), ref[w].size(), false); }
        else for (uint32_t k = 1; k <= domain; ++k) PBT_EQ(c.count(k), ref[w].count(pos(w, k)), "count of " << k);
    }
    void run()
    {
        stx::setup(s);
        if (s.chance(1, 2)) stxxl::hash_map::tuning::get_instance()->blockcache_size = 8 + s.raw(8);
        domain = (uint32_t)s.pick({ 20u, 200u, 1000u, 3000u });
        PBT_NOTE("cache " << stxxl::hash_map::tuning::get_instance()->blockcache_size << " keys " << domain << ";");
        create(0);
        if (s.chance(1, 3)) create(1);
        for (unsigned t = 1 + (unsigned)s.raw(40); t; --t) {
            step();
            if (s.chance(1, 10)) for (auto& h : held) look(*h);
            if (s.chance(1, 12)) all(m[1] && s.chance(1, 2) ? 1 : 0);
        }
        for (auto& h : held) look(*h);
        all(0);
        if (m[1]) all(1);
        bool first = s.chance(1, 2);
        if (first) held.clear();
        m[0].reset(); m[1].reset();
        held.clear();
        stx::check_no_blocks("after the maps are gone");
        if (most > 2 * nodes && most > 40) pbt::nontrivial();
    }
};
template <class D> static void history(pbt::Src& s) { Maps<D> m(s); m.run(); }
#if PART == 0
PBT_TARGET_F(map_12, 600, 8000, 1, (history<Rec<12> >));
#else
PBT_TARGET_F(map_196, 600, 8000, 1, (history<Rec<196> >));
#endif
