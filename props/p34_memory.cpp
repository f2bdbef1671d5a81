// Aligned memory: alignment, extent, contents, for memory, blocks and arrays of blocks.
#include "common.hpp"
#include <stxxl/aligned_alloc>
#include <stxxl/bits/common/new_alloc.h>
#include <stxxl/bits/mng/typed_block.h>
#include <map>
#include <memory>
#include <vector>

namespace {
// every byte of a piece bears its number
struct Piece { unsigned char* p; size_t n; unsigned char mark; unsigned kind; };
void fill(Piece& x) { memset(x.p, x.mark, x.n); }
void intact(const Piece& x) { for (size_t i = 0; i < x.n; ++i) PBT_CHECK(x.p[i] == x.mark, "byte " << i << " of " << x.n << " bytes has been changed by another piece"); }

template <size_t A>
void history(pbt::Src& s)
{
    typedef stxxl::typed_block<4096, uint32_t> Bl;
    std::vector<Piece> v;
    std::map<unsigned char*, size_t> used;      // start -> length
    std::vector<std::unique_ptr<std::vector<Bl, stxxl::new_alloc<Bl> > > > vecs;
    unsigned nops = (unsigned)s.range(1, 40); unsigned char mark = 0;
    for (unsigned k = 0; k < nops; ++k) {
        unsigned op = (unsigned)s.weighted({ 4, 2, 2, 4 });
        if (op == 3 || v.size() > 30) {
            if (v.empty()) continue;
            size_t i = s.raw(v.size()); Piece x = v[i];
            intact(x);
            used.erase(x.p);
            if (x.kind == 0) stxxl::aligned_dealloc<A>(x.p);
            else if (x.kind == 1) delete (Bl*)x.p;
            else delete[] (Bl*)x.p;
            v.erase(v.begin() + i);
            PBT_NOTE("free;");
        }
        else {
            Piece x; x.mark = ++mark; x.kind = op;
            if (op == 0) {
                size_t meta = (size_t)s.pick({ 0u, 0u, 8u, 16u, 1u, 48u, 4096u });
                x.n = (size_t)s.size(20000, A);
                PBT_NOTE(x.n << "+" << meta << ";");
                unsigned char* r = (unsigned char*)stxxl::aligned_alloc<A>(x.n, meta);
                PBT_CHECK(((uintptr_t)r + meta) % A == 0, "memory behind " << meta << " bytes is not aligned to " << A);
                x.p = r; x.n += meta;
            }
            else if (op == 1) { PBT_NOTE("block;"); Bl* b = new Bl; PBT_CHECK((uintptr_t)b % STXXL_BLOCK_ALIGN == 0, "a block is not aligned"); x.p = (unsigned char*)b; x.n = sizeof(Bl); }
            else { size_t n = (size_t)s.range(1, 4); PBT_NOTE(n << " blocks;"); Bl* b = new Bl[n]; PBT_CHECK((uintptr_t)b % STXXL_BLOCK_ALIGN == 0, "an array of blocks is not aligned"); x.p = (unsigned char*)b; x.n = n * sizeof(Bl); }
            auto next = used.lower_bound(x.p);
            PBT_CHECK(next == used.end() || x.p + x.n <= next->first, "overlaps the following piece");
            if (next != used.begin()) { --next; PBT_CHECK(next->first + next->second <= x.p, "overlaps the preceding piece"); }
            if (x.n) used[x.p] = x.n;
            fill(x); v.push_back(x);
        }
        if (s.chance(1, 6)) {
            vecs.emplace_back(new std::vector<Bl, stxxl::new_alloc<Bl> >((size_t)s.range(1, 3)));
            for (Bl& b : *vecs.back()) { PBT_CHECK((uintptr_t)&b % STXXL_BLOCK_ALIGN == 0, "a block within a vector is not aligned"); b[0] = 1; b[Bl::size - 1] = 2; }
        }
    }
    for (Piece& x : v) intact(x);
    for (Piece& x : v) { if (x.kind == 0) stxxl::aligned_dealloc<A>(x.p); else if (x.kind == 1) delete (Bl*)x.p; else delete[] (Bl*)x.p; }
    stxxl::aligned_dealloc<A>(NULL);
    pbt::ops(nops);
    if (nops > 10) pbt::nontrivial();
}
}
PBT_TARGET_F(memory4096, 3000, 60000, 100, history<4096>);
PBT_TARGET_F(memory512, 2000, 40000, 100, history<512>);
PBT_TARGET_F(memory16, 2000, 40000, 100, history<16>);
