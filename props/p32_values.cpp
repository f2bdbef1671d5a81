// Small integers in five and six bytes, and binary buffers.
#include "common.hpp"
#include <stxxl/bits/common/uint_types.h>
#include <stxxl/bits/common/binary_buffer.h>
#include <stxxl/bits/common/utils.h>
#include <algorithm>
#include <cmath>
#include <memory>

// values at the borders of the parts, and any
static uint64_t value(pbt::Src& s, unsigned digits)
{
    uint64_t mask = digits == 64 ? ~0ull : (1ull << digits) - 1;
    switch (s.weighted({ 3, 3, 2, 2, 2 })) {
    case 0: return s.raw(300) & mask;
    case 1: return ((s.range(0, 1ull << (digits - 32 > 16 ? 16 : digits - 32)) << 32) + s.raw(7) - 3) & mask;
    case 2: return (mask - s.raw(5)) & mask;
    case 3: return ((1ull << s.raw(digits)) + s.raw(5) - 2) & mask;
    default: return s.bits() & mask;
    }
}
template <class U> static void small_int(pbt::Src& s)
{
    const unsigned digits = U::digits;
    const uint64_t mask = (1ull << digits) - 1;
    PBT_EQ(sizeof(U), (size_t)digits / 8, "size");
    PBT_EQ((uint64_t)U::max(), mask, "max()");
    PBT_EQ((uint64_t)U::min(), (uint64_t)0, "min()");
    PBT_EQ((uint64_t)std::numeric_limits<U>::max(), mask, "numeric_limits::max()");
    PBT_EQ((uint64_t)std::numeric_limits<U>::min(), (uint64_t)0, "numeric_limits::min()");
    PBT_EQ((int)std::numeric_limits<U>::digits, (int)digits, "numeric_limits::digits");
    PBT_CHECK(!std::numeric_limits<U>::is_signed && std::numeric_limits<U>::is_integer && std::numeric_limits<U>::is_exact, "numeric_limits");
    typedef std::numeric_limits<U> L;
    PBT_EQ((uint64_t)L::lowest(), (uint64_t)0, "numeric_limits::lowest()");
    PBT_CHECK((uint64_t)L::epsilon() == 0 && (uint64_t)L::round_error() == 0, "numeric_limits::epsilon(), round_error()");
    PBT_CHECK((int)L::radix == 2 && !(bool)L::has_infinity && (int)L::min_exponent == 0 && (int)L::min_exponent10 == 0 && (int)L::max_exponent == 0 && (int)L::max_exponent10 == 0, "numeric_limits: radix, exponents, infinity");
    unsigned n = (unsigned)s.range(1, 12);
    // an array, so that neighbours would notice
    std::vector<U> a(n);
    std::vector<uint64_t> m(n);
    for (unsigned i = 0; i < n; ++i) {
        uint64_t v = value(s, digits);
        switch (s.raw(4)) {
        case 0: a[i] = U((stxxl::uint64)v); break;
        case 1: v &= 0xffffffffu; a[i] = U((stxxl::uint32)v); break;
        case 2: { int32_t x = (int32_t)v; a[i] = U((stxxl::int32)x); v = (uint64_t)(int64_t)x & mask; } break;
        default: a[i] = U((typename U::low_type)v, (typename U::high_type)(v >> 32)); break;
        }
        m[i] = v;
        PBT_NOTE(v << " ");
    }
    bool carry = false;
    for (unsigned steps = (unsigned)s.range(0, 60); steps; --steps) {
        unsigned i = (unsigned)s.raw(n), j = (unsigned)s.raw(n);
        switch (s.weighted({ 3, 3, 3, 1, 1, 1 })) {
        case 0: PBT_NOTE("++" << i << " "); PBT_CHECK(&++a[i] == &a[i], "++"); carry |= (m[i] & 0xffffffffu) == 0xffffffffu; m[i] = (m[i] + 1) & mask; break;
        case 1: PBT_NOTE("--" << i << " "); PBT_CHECK(&--a[i] == &a[i], "--"); carry |= (m[i] & 0xffffffffu) == 0; m[i] = (m[i] - 1) & mask; break;
        case 2: PBT_NOTE(i << "+=" << j << " "); a[i] += a[j]; carry |= (m[i] & 0xffffffffu) + (m[j] & 0xffffffffu) > 0xffffffffu; m[i] = (m[i] + m[j]) & mask; break;
        case 3: { U c(a[i]); a[j] = c; m[j] = m[i]; } break;
        case 4: { uint64_t v = value(s, digits); PBT_NOTE(i << "=" << v << " "); a[i] = U((stxxl::uint64)v); m[i] = v; } break;
        default: std::sort(a.begin(), a.end()); std::sort(m.begin(), m.end()); break;
        }
        for (unsigned k = 0; k < n; ++k) {
            PBT_EQ((uint64_t)a[k], m[k], "value " << k);
            PBT_EQ((uint64_t)a[k].u64(), m[k], "u64()");
            PBT_EQ((uint64_t)a[k].ull(), m[k], "ull()");
        }
        const U& x = a[i], & y = a[j];
        PBT_EQ(x < y, m[i] < m[j], m[i] << " < " << m[j]);
        PBT_EQ(x > y, m[i] > m[j], m[i] << " > " << m[j]);
        PBT_EQ(x <= y, m[i] <= m[j], m[i] << " <= " << m[j]);
        PBT_EQ(x >= y, m[i] >= m[j], m[i] << " >= " << m[j]);
        PBT_EQ(x == y, m[i] == m[j], m[i] << " == " << m[j]);
        PBT_EQ(x != y, m[i] != m[j], m[i] << " != " << m[j]);
        std::ostringstream os, om; os << x; om << m[i];
        PBT_EQ(os.str(), om.str(), "printed");
        pbt::ops();
    }
    if (carry) pbt::nontrivial();
}
PBT_TARGET_F(uint40, 30000, 1500000, 200, small_int<stxxl::uint40>);
PBT_TARGET_F(uint48, 30000, 1500000, 200, small_int<stxxl::uint48>);

static uint64_t varvalue(pbt::Src& s) { unsigned b = (unsigned)s.range(0, 64); uint64_t v = b == 0 ? 0 : s.bits() >> (64 - b); return s.chance(1, 3) && b < 64 ? (1ull << b) - s.raw(2) : v; }
static std::string bytes(pbt::Src& s, uint64_t max) { std::string r; uint64_t n = s.size(max, 64), x = s.raw(1u << 30) * 2 + 1; for (uint64_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r += (char)x; } return r; }
// independent encoding of a varint
static std::string varint(uint64_t v) { std::string r; do { r += (char)((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); return r; }

PBT_TARGET(buffer, 30000, 1500000, 50)
{
    stxxl::binary_buffer b;
    std::string m;
    struct Entry { unsigned kind; uint64_t v; std::string str; };
    std::vector<Entry> items;
    unsigned n = (unsigned)s.range(0, 40);
    unsigned big = 0;
    for (unsigned i = 0; i < n; ++i) {
        Entry e; e.kind = (unsigned)s.weighted({ 3, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }); e.v = 0;
        switch (e.kind) {
        case 0: e.v = varvalue(s) & 0xffffffffu; if (s.chance(1, 3)) b.put_varint((int)e.v); else b.put_varint((stxxl::uint32)e.v); m += varint(e.v); big += e.v > 127; break;
        case 1: e.v = varvalue(s); b.put_varint((stxxl::uint64)e.v); m += varint(e.v); big += e.v > 0xffffffffu; break;
        case 2: { e.str = bytes(s, 600); stxxl::binary_buffer o(e.str.data(), e.str.size()); switch (s.raw(3)) { case 0: b.put_string(e.str); break; case 1: b.put_string(e.str.data(), e.str.size()); break; default: b.put_string(o); } m += varint(e.str.size()) + e.str; } break;
        case 3: e.v = s.bits() & 0xff; b.put<stxxl::uint8>((stxxl::uint8)e.v); m.append((const char*)&e.v, 1); break;
        case 4: e.v = s.bits() & 0xffff; b.put<stxxl::uint16>((stxxl::uint16)e.v); m.append((const char*)&e.v, 2); break;
        case 5: e.v = s.bits() & 0xffffffffu; b.put<stxxl::uint32>((stxxl::uint32)e.v); m.append((const char*)&e.v, 4); break;
        case 6: e.v = s.bits(); b.put<stxxl::uint64>(e.v); m.append((const char*)&e.v, 8); break;
        case 7: e.str = bytes(s, 2000); if (s.chance(1, 2)) b.append(e.str); else b.append(e.str.data(), e.str.size()); m += e.str; break;
        case 8: { uint64_t a = s.pick({ 1, 2, 4, 8, 16, 3, 7, 512 }); e.v = (a - m.size() % a) % a; b.align(a); m.append(e.v, '\0'); } break;
        case 9: { stxxl::binary_buffer o(b); PBT_CHECK(o.str() == m, "copy"); stxxl::binary_buffer p; p.put_varint((stxxl::uint32)300); p = o; PBT_CHECK(p.str() == m, "assignment"); o.clear(); PBT_EQ(o.size(), (size_t)0, "clear"); o.append(p); PBT_CHECK(o.str() == m, "append"); e.v = 0; } break;
        case 10: if (m.size() < 20000) { PBT_NOTE("self "); e.str = m; stxxl::binary_buffer o(b); b.append(o); m += e.str; } break;
        case 11: b.alloc(s.raw(3000)); break;
        default: b.dynalloc(s.raw(3000)); break;
        }
        PBT_NOTE("k" << e.kind << ":" << (e.str.empty() ? e.v : e.str.size()) << " ");
        items.push_back(e);
        PBT_EQ(b.size(), m.size(), "size");
        PBT_CHECK(b.capacity() >= b.size(), "capacity");
    }
    PBT_CHECK(m.empty() || memcmp(b.data(), m.data(), m.size()) == 0, "contents of the buffer");
    PBT_CHECK(b.str() == m, "str()");
    pbt::ops(n);
    // the reader works on an exact copy, so that reading beyond the end shows
    std::unique_ptr<char[]> exact(new char[m.size()]);
    memcpy(exact.get(), m.data(), m.size());
    stxxl::binary_reader r(exact.get(), m.size());
    PBT_CHECK(r == stxxl::binary_buffer_ref(b), "references to the same contents are equal");
    for (unsigned round = 0; round < 2; ++round) {
        for (auto& e : items) {
            size_t before = r.curr();
            switch (e.kind) {
            case 0: PBT_EQ((uint64_t)r.get_varint(), e.v, "get_varint"); break;
            case 1: PBT_EQ((uint64_t)r.get_varint64(), e.v, "get_varint64"); break;
            case 2: if (s.chance(1, 2)) PBT_CHECK(r.get_string() == e.str, "get_string"); else PBT_CHECK(r.get_binary_buffer_ref().str() == e.str, "get_binary_buffer_ref"); break;
            case 3: PBT_EQ((uint64_t)r.get<stxxl::uint8>(), e.v, "get"); break;
            case 4: PBT_EQ((uint64_t)r.get<stxxl::uint16>(), e.v, "get"); break;
            case 5: PBT_EQ((uint64_t)r.get<stxxl::uint32>(), e.v, "get"); break;
            case 6: PBT_EQ((uint64_t)r.get<stxxl::uint64>(), e.v, "get"); break;
            case 7: case 10:
                if (s.chance(1, 2)) PBT_CHECK(r.read(e.str.size()) == e.str, "read");
                else { std::string o(e.str.size(), 0); r.read(&o[0], o.size()); PBT_CHECK(o == e.str, "read"); }
                break;
            case 8: r.skip(e.v); break;
            default: break;
            }
            PBT_CHECK(r.curr() >= before && r.curr() <= m.size(), "cursor");
        }
        PBT_CHECK(r.empty(), "the reader is at the end");
        // nothing more is there
        bool threw = false;
        try { switch (s.raw(6)) { case 0: r.get<stxxl::uint8>(); break; case 1: r.get_varint(); break; case 2: r.get_varint64(); break; case 3: r.skip(s.chance(1, 2) ? 1 : std::numeric_limits<size_t>::max()); break; case 4: r.read(1 + s.raw(100)); break; default: r.get_string(); } }
        catch (std::underflow_error&) { threw = true; }
        PBT_CHECK(threw, "reading beyond the end succeeds");
        r.rewind();
        PBT_EQ(r.curr(), (size_t)0, "rewind");
    }
    if (big > 1 && m.size() > 600) pbt::nontrivial();
}
// any bytes: decoding yields a value in range, or an exception, and never reads beyond the end
PBT_TARGET(decode, 60000, 2000000, 100)
{
    std::string m = s.chance(1, 2) ? bytes(s, 40) : std::string();
    for (unsigned k = (unsigned)s.raw(20); k; --k) m += (char)(s.chance(2, 3) ? 0x80 | s.raw(128) : s.raw(256));
    std::unique_ptr<char[]> exact(new char[m.size()]);
    memcpy(exact.get(), m.data(), m.size());
    stxxl::binary_reader r(exact.get(), m.size());
    unsigned kinds = 0;
    PBT_NOTE(m.size() << " bytes ");
    while (!r.empty()) {
        size_t at = r.curr();
        try {
            switch (s.raw(4)) {
            case 0: case 1: {
                // decode independently
                bool wide = s.chance(1, 2);
                size_t p = at; unsigned sh = 0; unsigned __int128 v = 0; bool end = false;
                while (p < m.size()) { unsigned char c = (unsigned char)m[p++]; v |= (unsigned __int128)(c & 127) << sh; sh += 7; if (!(c & 128)) { end = true; break; } if (p - at >= 10) break; }
                unsigned __int128 max = wide ? ~0ull : 0xffffffffu;
                uint64_t got = wide ? r.get_varint64() : r.get_varint();
                PBT_CHECK(end && v <= max, "a varint that is cut off or too large is accepted as " << got);
                PBT_CHECK(got == (uint64_t)v && r.curr() == p, "varint " << (uint64_t)v << " of " << p - at << " bytes is read as " << got << " of " << r.curr() - at);
                kinds |= 1;
            } break;
            case 2: { std::string x = r.get_string(); PBT_CHECK(r.curr() <= m.size() && m.compare(r.curr() - x.size(), x.size(), x) == 0, "get_string"); kinds |= 2; } break;
            default: { stxxl::binary_buffer_ref x = r.get_binary_buffer_ref(); PBT_CHECK(r.curr() <= m.size() && x.str() == m.substr(r.curr() - x.size(), x.size()), "get_binary_buffer_ref"); kinds |= 4; } break;
            }
        }
        catch (std::underflow_error&) { kinds |= 8; break; }
        catch (std::overflow_error&) { kinds |= 16; break; }
        pbt::ops();
    }
    if (__builtin_popcount(kinds) > 1) pbt::nontrivial();
}
// integer helpers
template <class T> static void ints(pbt::Src& s)
{
    const unsigned bits = sizeof(T) * 8;
    for (unsigned k = 0; k < 20; ++k) {
        T v = (T)(varvalue(s) >> (64 - bits)), d = (T)(varvalue(s) >> (64 - bits));
        if (s.chance(1, 2)) v = (T)varvalue(s);
        if (!d) d = 1;
        PBT_NOTE((uint64_t)v << " " << (uint64_t)d << ";");
        unsigned fl = 0; while (fl + 1 < bits && (v >> (fl + 1))) ++fl;
        if (v) PBT_EQ(stxxl::ilog2_floor(v), fl, "ilog2_floor " << (uint64_t)v);
        unsigned ce = 0; while (ce < bits && (((unsigned __int128)1) << ce) < v) ++ce;
        PBT_EQ(stxxl::ilog2_ceil(v), ce, "ilog2_ceil " << (uint64_t)v);
        PBT_EQ((uint64_t)stxxl::div_ceil(v, d), (uint64_t)(v / d + (v % d ? 1 : 0)), "div_ceil");
        if (v && ce < bits) PBT_EQ((uint64_t)stxxl::round_up_to_power_of_two(v), (uint64_t)1 << ce, "round_up_to_power_of_two " << (uint64_t)v);
        unsigned p = (unsigned)s.raw(bits - 1);
        unsigned __int128 up = (((unsigned __int128)v + (((unsigned __int128)1) << p) - 1) >> p) << p;
        if (up <= (T)~(T)0) PBT_EQ((uint64_t)stxxl::round_up_to_power_of_two(v, p), (uint64_t)up, "round_up_to_power_of_two " << (uint64_t)v << ", " << p);
        pbt::ops();
    }
    pbt::nontrivial();
}
PBT_TARGET_F(ints_32, 20000, 600000, 100, ints<uint32_t>);
PBT_TARGET_F(ints_64, 20000, 600000, 100, ints<uint64_t>);
