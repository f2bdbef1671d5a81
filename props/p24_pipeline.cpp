// Stream operations: random pipelines of sources, operations and sinks, against lists.
#include "common.hpp"
#include <stxxl/bits/containers/vector.h>
#include <stxxl/bits/stream/stream.h>
#include <stxxl/bits/stream/choose.h>
#include <stxxl/bits/stream/unique.h>
#include <stxxl/bits/stream/sort_stream.h>
#include <algorithm>
#include <memory>
#include <random>
#include <vector>

typedef Rec<8> E;
typedef std::vector<uint32_t> Values;
namespace st = stxxl::stream;
static const uint32_t DIV = 4;

// a stream of any kind that insists on the protocol: no reading and advancing at the end
struct Any
{
    typedef E value_type;
    Values model;
    size_t pos = 0;
    bool endless = false;
    virtual bool e() = 0;
    virtual const E& get() = 0;
    virtual const E* ptr() = 0;
    virtual void next() = 0;
    virtual ~Any() { }
    bool empty() const { return const_cast<Any*>(this)->e(); }
    const E& operator * () const { PBT_CHECK(!empty(), "an operation reads its input beyond the end"); return const_cast<Any*>(this)->get(); }
    const E* operator -> () const { PBT_CHECK(!empty(), "an operation reads its input beyond the end"); return const_cast<Any*>(this)->ptr(); }
    Any& operator ++ () { PBT_CHECK(!empty(), "an operation advances its input beyond the end"); next(); ++pos; return *this; }
};
template <class S>
struct Holder : Any
{
    std::unique_ptr<S> s;
    explicit Holder(S* p) : s(p) { }
    bool e() { return s->empty(); }
    const E& get() { const S& c = *s; return *c; }
    const E* ptr() { const S& c = *s; return c.operator -> (); }
    void next() { S& r = ++*s; PBT_CHECK(&r == s.get(), "++ does not return the stream"); }
};
typedef std::unique_ptr<Any> P;

struct Counter
{
    typedef E value_type;
    uint32_t i, step;
    E operator () () { uint32_t x = i; i += step; return E(x); }
};
// the first elements of an endless stream
struct Limit : Any
{
    st::generator2stream<Counter> g;
    uint64_t left;
    Limit(const st::generator2stream<Counter>& x, uint64_t n) : g(x), left(n) { }
    bool e() { PBT_CHECK(!g.empty(), "a generator is empty"); return left == 0; }
    const E& get() { return *g; }
    const E* ptr() { return g.operator -> (); }
    void next() { ++g; --left; }
};

// the operations of transform: they count their applications and remember the order
struct Op
{
    typedef E value_type;
    uint32_t a;
    Values* log;
    static uint32_t f(uint32_t a, const Values& x) { uint64_t r = a; for (uint32_t v : x) r = r * 31 + v; return 1 + (uint32_t)(r & 0xffff); }
    static uint32_t v(const E& e) { PBT_CHECK(e.value() >= 0, "an operation is given a damaged element"); return e.key(); }
    E run(const Values& x) { uint32_t r = f(a, x); log->push_back(r); return E(r); }
    E operator () (const E& p) { return run({ v(p) }); }
    E operator () (const E& p, const E& q) { return run({ v(p), v(q) }); }
    E operator () (const E& p, const E& q, const E& r) { return run({ v(p), v(q), v(r) }); }
    E operator () (const E& p, const E& q, const E& r, const E& s) { return run({ v(p), v(q), v(r), v(s) }); }
    E operator () (const E& p, const E& q, const E& r, const E& s, const E& t) { return run({ v(p), v(q), v(r), v(s), v(t) }); }
    E operator () (const E& p, const E& q, const E& r, const E& s, const E& t, const E& u) { return run({ v(p), v(q), v(r), v(s), v(t), v(u) }); }
};
struct TNode : Any
{
    std::vector<P> in;
    Op op;
    Values log;
    std::unique_ptr<st::transform<Op, Any> > t1;
    std::unique_ptr<st::transform<Op, Any, Any> > t2;
    std::unique_ptr<st::transform<Op, Any, Any, Any> > t3;
    std::unique_ptr<st::transform<Op, Any, Any, Any, Any> > t4;
    std::unique_ptr<st::transform<Op, Any, Any, Any, Any, Any> > t5;
    std::unique_ptr<st::transform<Op, Any, Any, Any, Any, Any, Any> > t6;
    TNode(std::vector<P>&& i, uint32_t a) : in(std::move(i))
    {
        op.a = a; op.log = &log;
        size_t n = in[0]->model.size();
        for (auto& p : in) n = std::min(n, p->model.size());
        for (size_t k = 0; k < n; ++k) { Values x; for (auto& p : in) x.push_back(p->model[k]); model.push_back(Op::f(a, x)); }
#define I(k) *in[k]
        switch (in.size()) {
        case 1: t1.reset(new st::transform<Op, Any>(op, I(0))); break;
        case 2: t2.reset(new st::transform<Op, Any, Any>(op, I(0), I(1))); break;
        case 3: t3.reset(new st::transform<Op, Any, Any, Any>(op, I(0), I(1), I(2))); break;
        case 4: t4.reset(new st::transform<Op, Any, Any, Any, Any>(op, I(0), I(1), I(2), I(3))); break;
        case 5: t5.reset(new st::transform<Op, Any, Any, Any, Any, Any>(op, I(0), I(1), I(2), I(3), I(4))); break;
        default: t6.reset(new st::transform<Op, Any, Any, Any, Any, Any, Any>(op, I(0), I(1), I(2), I(3), I(4), I(5))); break;
        }
    }
#define DO(x) (t1 ? t1->x : t2 ? t2->x : t3 ? t3->x : t4 ? t4->x : t5 ? t5->x : t6->x)
    bool e() { return DO(empty()); }
    const E& get() { return *ptr(); }
    const E* ptr() { const E& r = DO(operator * ()); PBT_CHECK(&r == DO(operator -> ()), "-> leads to something else than *"); return &r; }
    void next()
    {
        switch (in.size()) { case 1: ++*t1; break; case 2: ++*t2; break; case 3: ++*t3; break; case 4: ++*t4; break; case 5: ++*t5; break; default: ++*t6; }
        // the operation is applied once to each element, in order, and not ahead
        size_t expect = std::min(pos + 2, model.size());
        PBT_EQ(log.size(), expect, "applications of the operation");
        for (size_t i = 0; i < log.size(); ++i) PBT_EQ(log[i], model[i], "order of the applications");
    }
#undef DO
};

template <int N> struct Tuple;
template <> struct Tuple<2> { typedef st::make_tuple<Any, Any> T; static T* make(std::vector<P>& in) { return new T(I(0), I(1)); } };
template <> struct Tuple<3> { typedef st::make_tuple<Any, Any, Any> T; static T* make(std::vector<P>& in) { return new T(I(0), I(1), I(2)); } };
template <> struct Tuple<4> { typedef st::make_tuple<Any, Any, Any, Any> T; static T* make(std::vector<P>& in) { return new T(I(0), I(1), I(2), I(3)); } };
template <> struct Tuple<5> { typedef st::make_tuple<Any, Any, Any, Any, Any> T; static T* make(std::vector<P>& in) { return new T(I(0), I(1), I(2), I(3), I(4)); } };
template <> struct Tuple<6> { typedef st::make_tuple<Any, Any, Any, Any, Any, Any> T; static T* make(std::vector<P>& in) { return new T(I(0), I(1), I(2), I(3), I(4), I(5)); } };
template <int N, int K>
struct CNode : Any
{
    typedef typename Tuple<N>::T T;
    std::vector<P> in;
    std::unique_ptr<T> t;
    st::choose<T, K> c;
    explicit CNode(std::vector<P>&& i) : in(std::move(i)), t(Tuple<N>::make(in)), c(*t)
    {
        size_t n = in[0]->model.size();
        for (auto& p : in) n = std::min(n, p->model.size());
        model.assign(in[K - 1]->model.begin(), in[K - 1]->model.begin() + n);
    }
    bool e() { PBT_EQ(c.empty(), t->empty(), "empty of a component"); return c.empty(); }
    const E& get() { return *c; }
    const E* ptr() { PBT_CHECK(&**t == t->operator -> (), "-> leads to something else than *"); return c.operator -> (); }
    void next() { PBT_CHECK(&++c == &c, "++ does not return the stream"); }
};

struct Same
{
    uint32_t div;
    bool operator () (const E& a, const E& b) const { return a.key() / div == b.key() / div; }
};
struct UNode : Any
{
    P in;
    std::unique_ptr<st::unique<Any> > u;
    std::unique_ptr<st::unique<Any, Same> > up;
    UNode(P&& i, uint32_t div) : in(std::move(i))
    {
        for (uint32_t v : in->model) if (model.empty() || model.back() / div != v / div) model.push_back(v);
        Same s = { div };
        if (div == 1) u.reset(new st::unique<Any>(*in)); else up.reset(new st::unique<Any, Same>(*in, s));
    }
    bool e() { return u ? u->empty() : up->empty(); }
    const E& get() { return u ? **u : **up; }
    const E* ptr() { return u ? u->operator -> () : up->operator -> (); }
    void next() { if (u) ++*u; else ++*up; }
};
struct CmpE
{
    bool operator () (const E& a, const E& b) const { return a.key() < b.key(); }
    E min_value() const { return E(0); }
    E max_value() const { return E(0xffffffffu); }
};
struct SNode : Any
{
    P in;
    std::unique_ptr<st::sort<Any, CmpE, 4096> > s;
    SNode(P&& i, unsigned mem) : in(std::move(i))
    {
        model = in->model;
        std::sort(model.begin(), model.end());
        s.reset(new st::sort<Any, CmpE, 4096>(*in, CmpE(), mem));
    }
    bool e() { return s->empty(); }
    const E& get() { return **s; }
    const E* ptr() { return s->operator -> (); }
    void next() { ++*s; }
};

template <class Vec>
struct Case
{
    typedef typename Vec::iterator iter;
    typedef typename Vec::const_iterator citer;
    pbt::Src& s;
    static const uint64_t B = Vec::block_type::size;
    std::vector<std::unique_ptr<Vec> > vecs;
    std::vector<std::unique_ptr<std::vector<E> > > arrays;
    unsigned nodes = 0;
    explicit Case(pbt::Src& x) : s(x) { }

    Values values(uint64_t n)
    {
        unsigned dist = (unsigned)s.raw(4);
        uint64_t seed = s.raw(1u << 16);
        std::mt19937 r((unsigned)seed + 1);
        Values v;
        for (uint64_t i = 0; i < n; ++i) {
            switch (dist) {
            case 0: v.push_back(1 + (uint32_t)(r() % 60000)); break;
            case 1: v.push_back(1000 + (uint32_t)(r() % 6)); break;
            case 2: v.push_back(7); break;
            default: v.push_back(1 + (uint32_t)(i / 3 % 60000)); break;
            }
        }
        return v;
    }
    // copying a stream before it is used moves its buffers to the copy
    template <class S> P hold(const S& x, const Values& m)
    {
        P p;
        if (s.chance(1, 4)) { S y(x); S z(y); p.reset(new Holder<S>(new S(z))); }
        else p.reset(new Holder<S>(new S(x)));
        p->model = m;
        return p;
    }
    P source(uint64_t max)
    {
        uint64_t n = s.size(max, B);
        unsigned nb = (unsigned)(s.chance(1, 2) ? 0 : 1 + s.raw(6));
        switch (s.weighted({ 4, 2, 3, 2, 2, 1 })) {
        case 5: {
            uint32_t i = 1 + (uint32_t)s.raw(100), step = (uint32_t)s.raw(3);
            PBT_NOTE("generator(" << n << ")");
            Counter g = { i, step };
            Limit* l = new Limit(st::streamify(g), n);
            for (uint64_t k = 0; k < n; ++k) l->model.push_back(i + (uint32_t)k * step);
            return P(l);
        }
        case 4: {
            PBT_NOTE("array(" << n << ")");
            Values v = values(n);
            std::unique_ptr<std::vector<E> > a(new std::vector<E>);
            for (uint32_t x : v) a->push_back(E(x));
            arrays.push_back(std::move(a));
            std::vector<E>& r = *arrays.back();
            return hold(st::streamify(r.begin(), r.end()), v);
        }
        default: break;
        }
        // a range of a vector, part of which may be in its cache
        std::unique_ptr<Vec> q(new Vec);
        Values v = values(n);
        for (uint32_t x : v) q->push_back(E(x));
        uint64_t a = s.chance(1, 2) ? 0 : s.size(n, B), b = s.chance(1, 2) ? n : a + s.size(n - a, B);
        if (n && s.chance(1, 3)) { uint64_t k = s.raw(n); v[k] = 1 + (uint32_t)s.raw(60000); (*q)[k] = E(v[k]); }
        Values m(v.begin() + a, v.begin() + b);
        Vec& r = *q;
        const Vec& c = r;
        vecs.push_back(std::move(q));
        switch (s.raw(5)) {
        case 0: PBT_NOTE("vector(" << n << ", " << a << ".." << b << ", " << nb << ")"); return hold(st::streamify(r.begin() + a, r.begin() + b, nb), m);
        case 1: PBT_NOTE("const vector(" << n << ", " << a << ".." << b << ", " << nb << ")"); return hold(st::streamify(c.begin() + a, c.begin() + b, nb), m);
        case 2: PBT_NOTE("vector sr(" << n << ", " << a << ".." << b << ", " << nb << ")"); return hold(st::streamify_sr(r.begin() + a, r.begin() + b, nb), m);
        case 3: PBT_NOTE("const vector sr(" << n << ", " << a << ".." << b << ", " << nb << ")"); return hold(st::streamify_sr(c.begin() + a, c.begin() + b, nb), m);
        default: PBT_NOTE("iterators(" << n << ", " << a << ".." << b << ")"); return hold(st::iterator2stream<citer>(c.begin() + a, c.begin() + b), m);
        }
    }
    template <int N> P choice(std::vector<P>&& in, unsigned k)
    {
        switch (k) {
        case 1: return P(new CNode<N, 1>(std::move(in)));
        case 2: return P(new CNode<N, 2>(std::move(in)));
        case 3: return P(new CNode<N, (N >= 3 ? 3 : 1)>(std::move(in)));
        case 4: return P(new CNode<N, (N >= 4 ? 4 : 1)>(std::move(in)));
        case 5: return P(new CNode<N, (N >= 5 ? 5 : 1)>(std::move(in)));
        default: return P(new CNode<N, (N >= 6 ? 6 : 1)>(std::move(in)));
        }
    }
    P node(unsigned depth, uint64_t max)
    {
        ++nodes;
        if (depth == 0 || nodes > 14 || s.chance(1, 5)) return source(max);
        switch (s.raw(4)) {
        case 0: {
            std::vector<P> in;
            unsigned k = 1 + (unsigned)s.raw(6);
            for (unsigned i = 0; i < k; ++i) in.push_back(node(i ? depth / 2 : depth - 1, max));
            PBT_NOTE("transform" << k);
            return P(new TNode(std::move(in), (uint32_t)s.raw(100)));
        }
        case 1: {
            std::vector<P> in;
            unsigned k = 2 + (unsigned)s.raw(5);
            for (unsigned i = 0; i < k; ++i) in.push_back(node(i ? depth / 2 : depth - 1, max));
            unsigned w = 1 + (unsigned)s.raw(k);
            PBT_NOTE("tuple" << k << " choose" << w);
            switch (k) {
            case 2: return choice<2>(std::move(in), w);
            case 3: return choice<3>(std::move(in), w);
            case 4: return choice<4>(std::move(in), w);
            case 5: return choice<5>(std::move(in), w);
            default: return choice<6>(std::move(in), w);
            }
        }
        case 2: {
            P in = node(depth - 1, max);
            uint32_t div = s.chance(1, 2) ? 1 : DIV;
            PBT_NOTE("unique/" << div);
            return P(new UNode(std::move(in), div));
        }
        default: {
            P in = node(depth - 1, max);
            unsigned mem = 4096 * (30 + (unsigned)s.raw(10));
            PBT_NOTE("sort");
            return P(new SNode(std::move(in), mem));
        }
        }
    }
    void check(Any& a, uint64_t n)
    {
        for (uint64_t i = 0; i < n; ++i) {
            PBT_CHECK(!a.empty(), "empty after " << a.pos << " of " << a.model.size() << " elements");
            PBT_CHECK((*a).value() == (int64_t)a.model[a.pos], "element " << a.pos << " of " << a.model.size() << " is " << (*a).value() << " instead of " << a.model[a.pos]);
            PBT_CHECK(&*a == a.operator -> (), "-> leads to something else than *");
            ++a;
        }
        PBT_EQ(a.empty(), a.pos == a.model.size(), "empty");
        pbt::ops(n);
    }
    // everything the pipeline delivers goes into a range of a vector that is partly written and partly in memory
    void sink(Any& a, const char*& label)
    {
        uint64_t left = a.model.size() - a.pos, start = a.pos;
        unsigned nb = (unsigned)(s.chance(1, 2) ? 0 : 1 + s.raw(6));
        switch (s.weighted({ 2, 4, 5, 1, 1, 1 })) {
        case 0: PBT_NOTE("read"); label = "read"; check(a, left); return;
        case 3: {
            PBT_NOTE("discard"); label = "discard";
            st::discard(a);
            PBT_EQ(a.pos, a.model.size(), "elements discarded");
            return;
        }
        case 4: case 5: {
            bool bounded = s.chance(1, 2);
            uint64_t room = bounded ? s.size(left + B, B) : left;
            PBT_NOTE("materialize to array " << (bounded ? "up to " : "") << room); label = "materialize to an array";
            std::vector<E> out(room + 2, E(99));
            typename std::vector<E>::iterator r = bounded ? st::materialize(a, out.begin() + 1, out.begin() + 1 + room) : st::materialize(a, out.begin() + 1);
            uint64_t k = std::min(room, left);
            PBT_EQ((uint64_t)(r - out.begin()), 1 + k, "position returned");
            PBT_EQ(a.pos, start + k, "elements taken from the stream");
            for (uint64_t i = 0; i < out.size(); ++i) PBT_EQ(out[i].value(), (int64_t)(i >= 1 && i < 1 + k ? a.model[start + i - 1] : 99), "element " << i);
            return;
        }
        default: break;
        }
        bool bounded = s.chance(1, 2);
        uint64_t off = s.chance(1, 3) ? 0 : s.size(6 * B, B);
        uint64_t room = bounded ? s.size(left + B, B) : left;
        uint64_t after = s.chance(1, 3) ? 0 : s.size(5 * B, B);
        uint64_t size = off + room + after;
        Vec v(size);
        std::vector<int64_t> m(size, -1);       // -1: never written
        unsigned fill = (unsigned)s.raw(3);
        PBT_NOTE("materialize to vector of " << size << " at " << off << (bounded ? " up to " : " all ") << room << " buffers " << nb << " fill " << fill);
        label = "materialize to a vector";
        if (fill == 1) for (uint64_t i = 0; i < size; ++i) { v[i] = E((uint32_t)i); m[i] = (int64_t)i; }
        if (fill == 2 && size) for (unsigned k = (unsigned)s.raw(20); k; --k) { uint64_t i = s.raw(size); v[i] = E((uint32_t)i); m[i] = (int64_t)i; }
        iter r = bounded ? st::materialize(a, v.begin() + off, v.begin() + off + room, nb) : st::materialize(a, v.begin() + off, nb);
        uint64_t k = std::min(room, left);
        PBT_EQ((uint64_t)(r - v.begin()), off + k, "position returned");
        PBT_EQ(a.pos, start + k, "elements taken from the stream");
        PBT_EQ(v.size(), size, "size of the vector");
        for (uint64_t i = 0; i < k; ++i) m[off + i] = a.model[start + i];
        // the vector can be used on, and what is on the disks is the same
        for (unsigned j = (unsigned)s.raw(6); j && size; --j) { uint64_t i = s.raw(size); v[i] = E((uint32_t)i + 5); m[i] = (int64_t)i + 5; }
        if (s.chance(1, 2)) v.flush();
        const Vec& c = v;
        for (uint64_t i = 0; i < size; ++i) if (m[i] >= 0) PBT_CHECK(c[i].value() == m[i], "element " << i << " of " << size << " is " << c[i].value() << " instead of " << m[i] << ", written " << off << ".." << off + k);
        if (k > 3 * B) pbt::nontrivial();
        pbt::ops(k);
    }
};

template <class Vec>
static void pipeline(pbt::Src& s)
{
    stx::setup(s);
    const char* label = "";
    uint64_t most = 0;
    unsigned nodes = 0;
    for (unsigned rounds = 1 + (unsigned)s.raw(2); rounds; --rounds) {
        Case<Vec> c(s);
        P p = c.node((unsigned)s.raw(4), 9 * Vec::block_type::size);
        PBT_NOTE("= " << p->model.size() << ";");
        most = std::max<uint64_t>(most, p->model.size());
        if (s.chance(1, 3)) c.check(*p, s.raw(p->model.size() + 1));
        if (!s.chance(1, 8)) {
            c.sink(*p, label);
            if (s.chance(1, 3)) c.check(*p, p->model.size() - p->pos);
        }
        else pbt::label("left");
        nodes = std::max(nodes, c.nodes);
    }
    stx::check_no_blocks("at the end");
    if (*label) pbt::label(label);
    if (nodes > 1 && most > Vec::block_type::size) pbt::nontrivial();
    if (nodes > 4) pbt::label("more than four operations");
}
#if PART == 0
PBT_TARGET_F(pipeline_page1, 500, 5000, 1, (pipeline<stxxl::vector<E, 1, stxxl::lru_pager<2>, 4096, stxxl::striping> >));
#else
PBT_TARGET_F(pipeline_page4, 250, 2500, 1, (pipeline<stxxl::vector<E, 4, stxxl::lru_pager<2>, 4096, stxxl::RC> >));
PBT_TARGET_F(pipeline_page2, 250, 2500, 1, (pipeline<stxxl::vector<E, 2, stxxl::lru_pager<3>, 4096, stxxl::SR> >));
#endif
