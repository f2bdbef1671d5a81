// Small property-based testing engine: tape-recorded choices, one forked process per case (or small batch),
// crash / deadlock / runaway detection from outside, tape shrinking, replay files.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <string>
#include <sstream>
#include <vector>
#include <initializer_list>

namespace pbt {

// The source of every random decision of a case. Choices are recorded on a tape; replaying the tape replays the case.
// The tape past its end reads as zeros, so "0" should always be the simplest choice.
class Src {
public:
    uint64_t raw(uint64_t bound);                       // [0, bound), bound >= 1
    uint64_t range(uint64_t lo, uint64_t hi)            // [lo, hi]
    { return lo + raw(hi - lo + 1); }
    int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo) + 1); }
    uint64_t bits() { uint64_t h = raw(1ull << 32); return (h << 32) | raw(1ull << 32); }
    bool chance(unsigned num, unsigned den)             // true with probability num/den; the simple value is false
    { return raw(den) >= den - num; }
    // index chosen with the given weights; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w);
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); }
    // sizes: mixture of 0..small, around multiples of `unit`, and uniform up to max
    uint64_t size(uint64_t max, uint64_t unit);
    unsigned tier() const;                              // 0 quick, 1 thorough
};

[[noreturn]] void fail(const std::string& msg);         // property violated
void label(const char* name, uint64_t n = 1);           // classification counters
void label(const std::string& name, uint64_t n = 1);
void ops(uint64_t n = 1);                               // operations executed
[[noreturn]] void passed();      // ends the process of the (only) case, which has passed
void nontrivial();                                      // the case meets the rule of the property
void note(const std::string& s);                        // readable description (bounded)
bool noting();                                          // is there room left in the description?
void discard();                                         // [[case thrown away; counted]]
bool replaying();
const char* scratch();                                  // private scratch directory of this case
// counts an input class that is not explored because a known finding sits there
void excluded(const char* finding_id);

#define PBT_CHECK(cond, stream)                                              \
    do { if (!(cond)) { std::ostringstream pbt_os_;                          \
        pbt_os_ << stream << "  [" #cond "] at line " << __LINE__;           \
        ::pbt::fail(pbt_os_.str()); } } while (0)
#define PBT_EQ(a, b, stream)                                                 \
    do { auto pbt_a_ = (a); auto pbt_b_ = (b); if (!(pbt_a_ == pbt_b_)) {    \
        std::ostringstream pbt_os_; pbt_os_ << stream << ": got " << pbt_a_ << ", expected " << pbt_b_ \
        << "  [" #a " == " #b "] at line " << __LINE__; ::pbt::fail(pbt_os_.str()); } } while (0)
#define PBT_NOTE(stream)                                                     \
    do { if (::pbt::noting()) { std::ostringstream pbt_os_; pbt_os_ << stream; ::pbt::note(pbt_os_.str()); } } while (0)

typedef void (* Body)(Src&);

struct Target {
    const char* name;
    Body body;
    unsigned quick;      // cases in the quick tier
    unsigned thorough;   // cases in the thorough tier
    unsigned batch;      // cases per process (1: every case in a fresh process)
    unsigned cpu_limit;  // CPU seconds of one process after which it counts as not terminating
};
struct Registrar { Registrar(const Target& t); };

// PBT_TARGET(name, quick cases, thorough cases, batch) { body using Src& s }
#define PBT_TARGET_L(NAME, Q, T, BATCH, CPU)                                 \
    static void pbt_body_##NAME(::pbt::Src & s);                             \
    static ::pbt::Registrar pbt_reg_##NAME(::pbt::Target { #NAME, pbt_body_##NAME, Q, T, BATCH, CPU }); \
    static void pbt_body_##NAME(::pbt::Src & s)
#define PBT_TARGET(NAME, Q, T, BATCH) PBT_TARGET_L(NAME, Q, T, BATCH, 150)
// same with the body given as a function (for templates)
#define PBT_TARGET_F(NAME, Q, T, BATCH, FUNC)                                \
    static ::pbt::Registrar pbt_reg_##NAME(::pbt::Target { #NAME, FUNC, Q, T, BATCH, 150 })

} // namespace pbt
#endif
