// Matrices in external memory against plain arrays; integer elements, so that every result is exact.
#include "common.hpp"
#include <perturb.hpp>
#include <stxxl/bits/containers/matrix.h>
#include <memory>
#include <vector>

#if PART == 0
typedef unsigned V;
enum { B = 32 };
#else
typedef unsigned char V;
enum { B = 64 };
#endif

namespace { // the two parts differ in the elements

typedef stxxl::block_scheduler<stxxl::matrix_swappable_block<V, B> > BS;
typedef stxxl::matrix<V, B> M;
typedef M::column_vector_type CV;
typedef M::row_vector_type RV;

struct R // the reference
{
    int h = 0, w = 0;
    std::vector<V> e;
    R() { }
    R(int h, int w) : h(h), w(w), e((size_t)h * w, V(0)) { }
    V& at(int r, int c) { return e[(size_t)r * w + c]; }
    V at(int r, int c) const { return e[(size_t)r * w + c]; }
};
static R mul(const R& a, const R& b)
{
    R c(a.h, b.w);
    for (int i = 0; i < a.h; ++i)
        for (int k = 0; k < a.w; ++k) {
            V x = a.at(i, k);
            if (x) for (int j = 0; j < b.w; ++j) c.at(i, j) += V(x * b.at(k, j));
        }
    return c;
}
static R trans(const R& a) { R c(a.w, a.h); for (int i = 0; i < a.h; ++i) for (int j = 0; j < a.w; ++j) c.at(j, i) = a.at(i, j); return c; }

static void same(const M& m, const R& r, unsigned how, const char* what)
{
    PBT_EQ((int)m.get_height(), r.h, what << ": height");
    PBT_EQ((int)m.get_width(), r.w, what << ": width");
    if (how % 2 == 0) {
        int i = 0, j = 0;
        M::const_row_major_iterator it = m.cbegin();
        for ( ; !it.empty(); ++it) {
            PBT_CHECK(i < r.h, what << ": the row-major iteration does not end");
            PBT_CHECK(it.get_row() == i && it.get_col() == j, what << ": row-major iteration is at " << it.get_row() << "," << it.get_col() << ", expected " << i << "," << j);
            PBT_EQ((unsigned)*it, (unsigned)r.at(i, j), what << ": element " << i << "," << j << " of " << r.h << "x" << r.w);
            if (++j == r.w) { j = 0; ++i; }
        }
        PBT_CHECK(i == r.h && j == 0, what << ": the row-major iteration ends at " << i << "," << j);
        PBT_CHECK(it == m.cend(), what << ": the end is not reached");
    } else {
        int i = 0, j = 0;
        for (M::const_col_major_iterator it = m.begin(); it != m.end(); ++it) {
            PBT_CHECK(j < r.w, what << ": the column-major iteration does not end");
            PBT_CHECK(it.get_row() == i && it.get_col() == j, what << ": column-major iteration is at " << it.get_row() << "," << it.get_col() << ", expected " << i << "," << j);
            PBT_EQ((unsigned)*it, (unsigned)r.at(i, j), what << ": element " << i << "," << j << " of " << r.h << "x" << r.w);
            if (++i == r.h) { i = 0; ++j; }
        }
        PBT_CHECK(j == r.w && i == 0, what << ": the column-major iteration ends at " << i << "," << j);
    }
}

struct Slot { std::unique_ptr<M> m; R r; };

static void matrix_case(pbt::Src& s)
{
    stx::setup(s);
    // the multi-level multiplications hold up to 4^2 + 7^2 blocks (two levels), 3 otherwise
    bool many = s.chance(1, 2);
    size_t blocks = many ? (size_t)s.range(80, 160) : (size_t)s.range(6, 20);
    std::vector<int> dims;
    for (int i = 0; i < 3; ++i) {
        int nb = (int)s.range(1, PART ? 4 : s.chance(1, 3) ? 9 : 5);
        int d = nb * B - (s.chance(1, 3) ? 0 : (int)s.raw(B));
        dims.push_back(std::max(d, 1));
    }
    PBT_NOTE("{memory for " << blocks << " blocks, sizes " << dims[0] << "," << dims[1] << "," << dims[2] << "}");
    uint64_t work = 0, mults = 0, maxb = 0;
    {
        BS bs(blocks * sizeof(BS::internal_block_type));
        std::vector<Slot> p(4);
        uint32_t next = 1;
        auto dim = [&]() { return dims[s.raw(3)]; };
        auto value = [&]() { next = next * 1664525u + 1013904223u; return (V)(next >> (sizeof(V) == 1 ? 16 : 8)); };
        auto note = [&](unsigned i) { maxb = std::max<uint64_t>(maxb, (uint64_t)stxxl::div_ceil(p[i].r.h, (int)B) * stxxl::div_ceil(p[i].r.w, (int)B)); };
        auto fresh = [&](unsigned i, int h, int w) { p[i].m.reset(new M(bs, h, w)); p[i].r = R(h, w); note(i); };
        // writes a rectangle, all of the matrix or a few elements
        auto fill = [&](unsigned i) {
            M& m = *p[i].m; R& r = p[i].r;
            int k = (int)s.weighted({ 3, 3, 2 });
            if (k == 0) {
                int j = 0;
                bool cm = s.chance(1, 3);
                if (cm) { for (M::col_major_iterator it = m.begin(); !it.empty(); ++it) { V v = value(); *it = v; r.at((int)it.get_row(), (int)it.get_col()) = v; ++j; } }
                else for (M::row_major_iterator it = m.begin(); !it.empty(); ++it) { V v = value(); *it = v; r.e[j++] = v; }
                PBT_EQ(j, r.h * r.w, "elements visited");
            } else if (k == 1) {
                int r0 = (int)s.raw(r.h), r1 = (int)s.range(r0, r.h - 1), c0 = (int)s.raw(r.w), c1 = (int)s.range(c0, r.w - 1);
                M::iterator it = m(r0, c0);
                for (int a = r0; a <= r1; ++a) for (int b = c0; b <= c1; ++b) { it.set_pos(a, b); V v = value(); *it = v; r.at(a, b) = v; }
            } else {
                for (int n = (int)s.range(1, 6); n > 0; --n) { int a = (int)s.raw(r.h), b = (int)s.raw(r.w); V v = value(); *m(a, b) = v; r.at(a, b) = v; }
            }
        };
        unsigned n = (unsigned)s.range(3, 22);
        for (unsigned step = 0; step < n; ++step) {
            pbt::ops(1);
            unsigned i = (unsigned)s.raw(p.size()), j = (unsigned)s.raw(p.size()), o = (unsigned)s.raw(p.size());
            if (!p[i].m) { int h = dim(), w = dim(); PBT_NOTE("new " << i << " " << h << "x" << w << "; "); fresh(i, h, w); if (s.chance(4, 5)) fill(i); }
            if (!p[j].m) { int h = dim(), w = dim(); PBT_NOTE("new " << j << " " << h << "x" << w << "; "); fresh(j, h, w); if (s.chance(4, 5)) fill(j); }
            const char* what = "";
            unsigned changed = i;
            switch (s.weighted({ 4, 2, 3, 1, 3, 4, 3, 3, 7, 3, 2, 3, 2 })) {
            case 0: what = "writing"; PBT_NOTE("write " << i << "; "); fill(i); break;
            case 1: // elements one by one
                PBT_NOTE("look " << i << "; ");
                what = "reading";
                for (int k = 0; k < 6; ++k) {
                    int a = (int)s.raw(p[i].r.h), b = (int)s.raw(p[i].r.w);
                    const M& cm = *p[i].m;
                    M::const_iterator it = cm(a, b);
                    PBT_EQ((unsigned)*it, (unsigned)p[i].r.at(a, b), "element " << a << "," << b);
                    if (s.chance(1, 2)) { int c = (int)s.raw(p[i].r.w); it.set_col(c); PBT_EQ((unsigned)*it, (unsigned)p[i].r.at(a, c), "element " << a << "," << c << " after set_col"); b = c; }
                    if (s.chance(1, 2)) { int c = (int)s.raw(p[i].r.h); it.set_row(c); PBT_EQ((unsigned)*it, (unsigned)p[i].r.at(c, b), "element " << c << "," << b << " after set_row"); a = c; }
                    M::const_row_major_iterator f(it);
                    int pos = a * p[i].r.w + b;
                    for (int q = 0; q < 3; ++q) {
                        bool up = s.chance(1, 2);
                        if (up) { ++f; ++pos; } else { --f; --pos; }
                        if (pos < 0 || pos >= p[i].r.h * p[i].r.w) { PBT_CHECK(f.empty(), "moved out of the matrix, not empty"); break; }
                        PBT_EQ((unsigned)*f, (unsigned)p[i].r.e[pos], "element at " << pos << " after " << (up ? "++" : "--"));
                    }
                    PBT_EQ((unsigned)*it, (unsigned)p[i].r.at(a, b), "the copied iterator's origin");
                }
                break;
            case 2: PBT_NOTE(i << " = copy of " << j << "; "); what = "copying"; if (i != j) { if (s.chance(1, 2)) *p[i].m = *p[j].m; else { M* c = new M(*p[j].m); p[i].m.reset(c); } p[i].r = p[j].r; } break;
            case 3: PBT_NOTE("zero " << i << "; "); what = "set_zero"; p[i].m->set_zero(); p[i].r = R(p[i].r.h, p[i].r.w); break;
            case 4: PBT_NOTE("transpose " << i << "; "); what = "transpose"; p[i].m->transpose(); p[i].r = trans(p[i].r); break;
            case 5: // sums and differences
            case 6: {
                if (p[j].r.h != p[i].r.h || p[j].r.w != p[i].r.w) {
                    if (p[j].r.w == p[i].r.h && p[j].r.h == p[i].r.w) { PBT_NOTE("transpose " << j << "; "); p[j].m->transpose(); p[j].r = trans(p[j].r); }
                    else { fresh(j, p[i].r.h, p[i].r.w); PBT_NOTE("new " << j << " " << p[i].r.h << "x" << p[i].r.w << "; "); if (s.chance(3, 4)) fill(j); }
                }
                bool plus = s.chance(1, 2), inplace = s.chance(1, 2);
                PBT_NOTE((inplace ? i : o) << " = " << i << (plus ? " + " : " - ") << j << "; ");
                R c = p[i].r;
                for (size_t k = 0; k < c.e.size(); ++k) c.e[k] = plus ? V(c.e[k] + p[j].r.e[k]) : V(c.e[k] - p[j].r.e[k]);
                what = inplace ? (plus ? "+=" : "-=") : plus ? "+" : "-";
                if (inplace) { M& x = plus ? (*p[i].m += *p[j].m) : (*p[i].m -= *p[j].m); PBT_CHECK(&x == p[i].m.get(), "the result is a reference to the left operand"); p[i].r = c; }
                else {
                    M x = plus ? *p[i].m + *p[j].m : *p[i].m - *p[j].m;
                    p[o].m.reset(new M(x)); p[o].r = c; changed = o; note(o);
                }
                break;
            }
            case 7: {
                V v = s.chance(1, 4) ? V(s.raw(2)) : value();
                bool inplace = s.chance(1, 2);
                PBT_NOTE((inplace ? i : o) << " = " << i << " * " << (unsigned)v << "; ");
                what = inplace ? "*= scalar" : "* scalar";
                R c = p[i].r;
                for (auto& x : c.e) x = V(x * v);
                if (inplace) { *p[i].m *= v; p[i].r = c; }
                else { M x = *p[i].m * v; p[o].m.reset(new M(x)); p[o].r = c; changed = o; }
                break;
            }
            case 8: {
                int alg = (int)s.raw(7), sched = (int)s.raw(3);
                if ((alg == 3 || alg == 6) && !many) alg = 1;
                if (p[j].r.h != p[i].r.w) {
                    if (i == j) { j = (i + 1) % 4; int h = p[i].r.w, w = dim(); fresh(j, h, w); PBT_NOTE("new " << j << " " << h << "x" << w << "; "); fill(j); }
                    else if (p[j].r.w == p[i].r.w) { PBT_NOTE("transpose " << j << "; "); p[j].m->transpose(); p[j].r = trans(p[j].r); }
                    else { int w = dim(); int h = p[i].r.w; fresh(j, h, w); PBT_NOTE("new " << j << " " << h << "x" << w << "; "); if (s.chance(7, 8)) fill(j); }
                }
                uint64_t cost = (uint64_t)p[i].r.h * p[i].r.w * p[j].r.w;
                if ((work += cost) > 60000000) { work -= cost; break; }
                R c = mul(p[i].r, p[j].r);
                unsigned kind = (unsigned)s.raw(3);
                what = "matrix product";
                ++mults;
                if (kind == 0) { PBT_NOTE(i << " *= " << j << "; "); *p[i].m *= *p[j].m; p[i].r = c; note(i); }
                else if (kind == 1) { PBT_NOTE(o << " = " << i << " * " << j << "; "); M x = *p[i].m * *p[j].m; p[o].m.reset(new M(x)); p[o].r = c; changed = o; note(o); }
                else {
                    PBT_NOTE(o << " = " << i << ".multiply(" << j << ", " << alg << ", " << sched << "); ");
                    M x = p[i].m->multiply(*p[j].m, alg, sched); p[o].m.reset(new M(x)); p[o].r = c; changed = o; note(o);
                }
                break;
            }
            case 9: { // with vectors
                bool col = s.chance(1, 2);
                PBT_NOTE(i << (col ? " * column; " : ": row * matrix; "));
                const R& r = p[i].r;
                int n = col ? r.w : r.h, k = col ? r.h : r.w;
                std::vector<V> x(n), y(k, V(0));
                for (auto& v : x) v = value();
                for (int a = 0; a < r.h; ++a) for (int b = 0; b < r.w; ++b) { if (col) y[a] += V(r.at(a, b) * x[b]); else y[b] += V(r.at(a, b) * x[a]); }
                if (col) {
                    CV v(n); for (int a = 0; a < n; ++a) v[a] = x[a];
                    CV z = *p[i].m * v;
                    PBT_EQ(z.size(), (size_t)k, "size of the product with a column vector");
                    for (int a = 0; a < k; ++a) PBT_EQ((unsigned)z[a], (unsigned)y[a], "matrix * column vector: element " << a);
                } else {
                    RV v(n); for (int a = 0; a < n; ++a) v[a] = x[a];
                    RV z = v * *p[i].m;
                    PBT_EQ(z.size(), (size_t)k, "size of the product with a row vector");
                    for (int a = 0; a < k; ++a) PBT_EQ((unsigned)z[a], (unsigned)y[a], "row vector * matrix: element " << a);
                }
                what = "product with a vector";
                break;
            }
            case 10: { // outer product
                int h = dim(), w = dim();
                PBT_NOTE(o << " = column " << h << " * row " << w << "; ");
                CV l(h); RV r(w); R c(h, w);
                std::vector<V> x(h), y(w);
                for (int a = 0; a < h; ++a) l[a] = x[a] = value();
                for (int a = 0; a < w; ++a) r[a] = y[a] = value();
                for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) c.at(a, b) = V(x[a] * y[b]);
                p[o].m.reset(new M(bs, l, r)); p[o].r = c; changed = o; what = "matrix from vectors"; note(o);
                break;
            }
            case 11: { // iterators assigned from one matrix to another
                if (i == j) break;
                PBT_NOTE("iterators " << i << "," << j << "; ");
                what = "assigned iterators";
                R &x = p[i].r, &y = p[j].r;
                M &mx = *p[i].m, &my = *p[j].m;
                M::iterator u = mx((int)s.raw(x.h), (int)s.raw(x.w)), v = my((int)s.raw(y.h), (int)s.raw(y.w));
                if (s.chance(2, 3)) { V w = value(); *u = w; x.at((int)u.get_row(), (int)u.get_col()) = w; }
                if (s.chance(2, 3)) { V w = value(); *v = w; y.at((int)v.get_row(), (int)v.get_col()) = w; }
                u = v;
                PBT_CHECK(u == v, "an assigned iterator equals its origin");
                PBT_EQ((unsigned)*u, (unsigned)y.at((int)v.get_row(), (int)v.get_col()), "element at an assigned iterator");
                V w = value();
                *u = w; y.at((int)v.get_row(), (int)v.get_col()) = w;
                PBT_EQ((unsigned)*v, (unsigned)w, "element at the origin of an assigned iterator");
                const M &cx = *p[i].m, &cy = *p[j].m;
                { M::iterator z = my((int)s.raw(y.h), (int)s.raw(y.w)); bool eq = z.get_pos() == v.get_pos();
                  PBT_CHECK((z == v) == eq && (z != v) == !eq, "comparison of iterators at " << z.get_row() << "," << z.get_col() << " and " << v.get_row() << "," << v.get_col()); }
                M::const_iterator cu = cx((int)s.raw(x.h), (int)s.raw(x.w)), cv = cy((int)s.raw(y.h), (int)s.raw(y.w));
                if (s.chance(2, 3)) PBT_EQ((unsigned)*cu, (unsigned)x.at((int)cu.get_row(), (int)cu.get_col()), "element");
                if (s.chance(2, 3)) PBT_EQ((unsigned)*cv, (unsigned)y.at((int)cv.get_row(), (int)cv.get_col()), "element");
                cu = cv;
                PBT_EQ((unsigned)*cu, (unsigned)y.at((int)cv.get_row(), (int)cv.get_col()), "element at an assigned const iterator");
                break;
            }
            case 12: { // vectors by themselves
                PBT_NOTE("vectors; ");
                what = "vectors";
                int n = dim();
                std::vector<V> x(n), y(n);
                CV a(n), b(n); RV c(n);
                V k = value(), dot = 0;
                for (int q = 0; q < n; ++q) { a[q] = x[q] = value(); b[q] = y[q] = value(); c[q] = y[q]; dot += V(x[q] * y[q]); }
                CV t = a + b, d = a - b, e = a * k;
                RV f = c; f += c; f -= c; f *= k;
                PBT_EQ((unsigned)(c * a), (unsigned)dot, "row vector * column vector");
                RV g = c + f, h2 = c - f;
                for (int q = 0; q < n; ++q) {
                    PBT_EQ((unsigned)t[q], (unsigned)V(x[q] + y[q]), "sum of vectors at " << q);
                    PBT_EQ((unsigned)d[q], (unsigned)V(x[q] - y[q]), "difference of vectors at " << q);
                    PBT_EQ((unsigned)e[q], (unsigned)V(x[q] * k), "scaled vector at " << q);
                    PBT_EQ((unsigned)f[q], (unsigned)V(y[q] * k), "row vector at " << q);
                    PBT_EQ((unsigned)g[q], (unsigned)V(y[q] + V(y[q] * k)), "sum of row vectors at " << q);
                    PBT_EQ((unsigned)h2[q], (unsigned)V(y[q] - V(y[q] * k)), "difference of row vectors at " << q);
                }
                a += b; a -= b; a *= k;
                for (int q = 0; q < n; ++q) PBT_EQ((unsigned)a[q], (unsigned)V(x[q] * k), "column vector at " << q);
                a.set_zero(); f.set_zero();
                for (int q = 0; q < n; ++q) PBT_CHECK(a[q] == 0 && f[q] == 0, "set_zero of vectors at " << q);
                break;
            }
            }
            same(*p[changed].m, p[changed].r, (unsigned)s.raw(2), what);
        }
        for (auto& x : p) if (x.m) same(*x.m, x.r, 0, "at the end");
    }
    stx::check_no_blocks("after all matrices are gone");
    if (maxb > 8 && mults > 0) pbt::nontrivial();
}
} // namespace

#if PART == 0
PBT_TARGET_F(matrix, 500, 8000, 1, matrix_case);
#else
PBT_TARGET_F(matrix_bytes, 250, 4000, 1, matrix_case);
#endif
