// Values used by the container harnesses.
#ifndef COMMON_HPP
#define COMMON_HPP
#include <pbt.hpp>
#include <stx.hpp>
#include <cstring>
#include <limits>
#include <ostream>

// An element of N bytes that carries a 32-bit value; every byte depends on it, so partial or misplaced transfers show.
template <unsigned N>
struct Rec
{
    unsigned char b[N];
    Rec() { }
    explicit Rec(uint32_t v) { set(v); }
    void set(uint32_t v)
    {
        memcpy(b, &v, 4);
        for (unsigned i = 4; i < N; ++i) b[i] = (unsigned char)((v * 2654435761u >> 13) + i * 7);
    }
    uint32_t key() const { uint32_t v; memcpy(&v, b, 4); return v; }
    // the value, or -1 if the bytes do not belong together
    int64_t value() const
    {
        Rec r(key());
        return memcmp(r.b, b, N) == 0 ? (int64_t)key() : -2;
    }
    bool operator == (const Rec& o) const { return memcmp(b, o.b, N) == 0; }
    bool operator != (const Rec& o) const { return !(*this == o); }
    bool operator < (const Rec& o) const { return key() < o.key(); }
};
template <unsigned N>
std::ostream& operator << (std::ostream& os, const Rec<N>& r) { return os << r.value(); }

template <class T> struct Val;
template <unsigned N> struct Val<Rec<N> >
{
    static Rec<N> make(uint32_t v) { return Rec<N>(v); }
    static int64_t get(const Rec<N>& r) { return r.value(); }
    static int64_t norm(uint32_t v) { return v; }
};
template <> struct Val<uint64_t>
{
    static uint64_t make(uint32_t v) { return v * 0x100000001ull; }
    static int64_t get(uint64_t x) { return (x >> 32) == (x & 0xffffffffu) ? (int64_t)(x & 0xffffffffu) : -2; }
    static int64_t norm(uint32_t v) { return v; }
};
template <> struct Val<unsigned>
{
    static unsigned make(uint32_t v) { return v; }
    static int64_t get(unsigned x) { return x; }
    static int64_t norm(uint32_t v) { return v; }
};
template <> struct Val<unsigned char>
{
    static unsigned char make(uint32_t v) { return (unsigned char)v; }
    static int64_t get(unsigned char x) { return x; }
    static int64_t norm(uint32_t v) { return v & 0xff; }
};
#endif
