// The I/O statistics: counts and volumes are exact, times obey their definitions, differences add up, the text says
// the same numbers.
#include "common.hpp"
#include <perturb.hpp>
#include <stxxl/bits/io/io.h>
#include <stxxl/bits/io/iostats.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/wbtl_file.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>

using stxxl::file;
using stxxl::request_ptr;
using stxxl::stats;
using stxxl::stats_data;
using stxxl::timestamp;

namespace {
enum { B = 4096 };
const double EPS = 2e-6;   // resolution of a timestamp, per event

// all numbers of a snapshot
struct Num
{
    unsigned r, w, cr, cw; int64_t vr, vw, cvr, cvw;
    double tr, tw, pr, pw, pio, wt, wr, ww, el;
    explicit Num(const stats_data& d)
        : r(d.get_reads()), w(d.get_writes()), cr(d.get_cached_reads()), cw(d.get_cached_writes()),
          vr(d.get_read_volume()), vw(d.get_written_volume()), cvr(d.get_cached_read_volume()), cvw(d.get_cached_written_volume()),
          tr(d.get_read_time()), tw(d.get_write_time()), pr(d.get_pread_time()), pw(d.get_pwrite_time()), pio(d.get_pio_time()),
          wt(d.get_io_wait_time()), wr(d.get_wait_read_time()), ww(d.get_wait_write_time()), el(d.get_elapsed_time()) { }
};
void near(double a, double b, const char* what)
{
    double tol = 1e-9 * (1 + std::max(std::abs(a), std::abs(b)));
    PBT_CHECK(a >= b - tol && a <= b + tol, what << ": " << a << " and " << b);
}
void same(const stats_data& x, const stats_data& y, const char* what)
{
    Num a(x), b(y);
    PBT_EQ(a.r, b.r, what << ": reads"); PBT_EQ(a.w, b.w, what << ": writes");
    PBT_EQ(a.cr, b.cr, what << ": cached reads"); PBT_EQ(a.cw, b.cw, what << ": cached writes");
    PBT_EQ(a.vr, b.vr, what << ": volume read"); PBT_EQ(a.vw, b.vw, what << ": volume written");
    PBT_EQ(a.cvr, b.cvr, what << ": cached volume read"); PBT_EQ(a.cvw, b.cvw, what << ": cached volume written");
    near(a.tr, b.tr, "read time"); near(a.tw, b.tw, "write time"); near(a.pr, b.pr, "parallel read time"); near(a.pw, b.pw, "parallel write time");
    near(a.pio, b.pio, "parallel I/O time"); near(a.wt, b.wt, "wait time"); near(a.wr, b.wr, "wait read time"); near(a.ww, b.ww, "wait write time");
    near(a.el, b.el, "elapsed time");
}
void in(double x, double lo, double hi, double eps, const char* what)
{
    PBT_CHECK(x >= lo - eps && x <= hi + eps, what << " is " << x << ", expected " << lo << " to " << hi);
}

// a bracketed point in time
struct At { double lo, hi; };
struct Span { At a, b; };
double total_lo(const std::vector<Span>& v) { double t = 0; for (auto& x : v) t += std::max(0.0, x.b.lo - x.a.hi); return t; }
double total_hi(const std::vector<Span>& v) { double t = 0; for (auto& x : v) t += x.b.hi - x.a.lo; return t; }
double cover(std::vector<std::pair<double, double> > v)
{
    std::sort(v.begin(), v.end());
    double t = 0, end = -1;
    for (auto& x : v) {
        if (x.second <= x.first) continue;
        double f = std::max(x.first, end);
        if (x.second > f) { t += x.second - f; end = x.second; }
    }
    return t;
}
double union_lo(const std::vector<Span>& v) { std::vector<std::pair<double, double> > w; for (auto& x : v) w.push_back({ x.a.hi, x.b.lo }); return cover(w); }
double union_hi(const std::vector<Span>& v) { std::vector<std::pair<double, double> > w; for (auto& x : v) w.push_back({ x.a.lo, x.b.hi }); return cover(w); }
} // namespace

// the collector against a model made of intervals: operations begin and end in any order
static void collector(pbt::Src& s)
{
    stats* st = stats::get_instance();
    stats_data snap[3];
    std::vector<Span> rd, wr, waits[2];   // finished
    std::deque<std::pair<At, unsigned> > open_r, open_w, open_wait[2];
    std::deque<std::unique_ptr<stats::scoped_read_write_timer> > timers[2];
    std::deque<At> timer_at[2];
    unsigned r = 0, w = 0, cr = 0, cw = 0; int64_t vr = 0, vw = 0, cvr = 0, cvw = 0;
    unsigned n = (unsigned)s.range(2, 24);
    unsigned events = 0;
    stats_data base(*st);
    snap[0] = base;
    auto gap = [&]() { unsigned g = s.pick({ 0u, 0u, 30u, 100u, 250u }); if (g) usleep(g); };
    auto take = [&](std::deque<std::pair<At, unsigned> >& q) { size_t i = s.raw(q.size()); auto x = q[i]; q.erase(q.begin() + i); return x; };
    unsigned maxopen = 0;
    double reset_lo = 0, reset_hi = 0;
    for (unsigned i = 0; i < n || !open_r.empty() || !open_w.empty() || !open_wait[0].empty() || !open_wait[1].empty() || !timers[0].empty() || !timers[1].empty(); ++i) {
        gap();
        pbt::ops(); ++events;
        bool closing = i >= n;
        unsigned op = closing ? 1 : (unsigned)s.weighted({ 5, 5, 1, 2, 1 });
        At at; at.lo = timestamp();
        unsigned size = (unsigned)s.size(1u << 24, 4096);
        if (op == 0) {   // begin something
            switch (s.raw(5)) {
            case 0: {
                double now = s.chance(1, 3) ? at.lo : 0.0;
                if (now != 0.0) gap();
                st->read_started(size, now); at.hi = now != 0.0 ? now : timestamp(); open_r.push_back({ at, size }); ++r; vr += size; break;
            }
            case 1: {
                double now = s.chance(1, 3) ? at.lo : 0.0;
                if (now != 0.0) gap();
                st->write_started(size, now); at.hi = now != 0.0 ? now : timestamp(); open_w.push_back({ at, size }); ++w; vw += size; break;
            }
            case 2: st->wait_started(stats::WAIT_OP_READ); at.hi = timestamp(); open_wait[0].push_back({ at, 0 }); break;
            case 3: { bool any = s.chance(1, 2); st->wait_started(any ? stats::WAIT_OP_ANY : stats::WAIT_OP_WRITE); at.hi = timestamp(); open_wait[1].push_back({ at, any }); break; }
            case 4: {
                bool write = s.chance(1, 2);
                timers[write].emplace_back(new stats::scoped_read_write_timer(size, write));
                at.hi = timestamp();
                timers[write].back()->start(size);   // running already: no effect
                timer_at[write].push_back(at);
                if (write) { ++w; vw += size; } else { ++r; vr += size; }
                break;
            }
            }
        }
        else if (op == 1) {   // end something, in any order
            unsigned k = (unsigned)s.raw(6);
            if (closing) { while (!(k == 0 ? !open_r.empty() : k == 1 ? !open_w.empty() : k < 4 ? !open_wait[k - 2].empty() : !timers[k - 4].empty())) k = (k + 1) % 6; }
            if (k == 0 && !open_r.empty()) {
                auto x = take(open_r);
                if (s.chance(1, 4)) { st->read_canceled(x.second); --r; vr -= x.second; } else st->read_finished();
                at.hi = timestamp(); rd.push_back({ x.first, at });
            }
            else if (k == 1 && !open_w.empty()) {
                auto x = take(open_w);
                if (s.chance(1, 4)) { st->write_canceled(x.second); --w; vw -= x.second; } else st->write_finished();
                at.hi = timestamp(); wr.push_back({ x.first, at });
            }
            else if (k == 2 && !open_wait[0].empty()) { auto x = take(open_wait[0]); st->wait_finished(stats::WAIT_OP_READ); at.hi = timestamp(); waits[0].push_back({ x.first, at }); }
            else if (k == 3 && !open_wait[1].empty()) { auto x = take(open_wait[1]); st->wait_finished(x.second ? stats::WAIT_OP_ANY : stats::WAIT_OP_WRITE); at.hi = timestamp(); waits[1].push_back({ x.first, at }); }
            else if (k >= 4 && !timers[k - 4].empty()) {
                auto& t = timers[k - 4];
                if (s.chance(1, 2)) { t.front()->stop(); at.hi = timestamp(); (k == 5 ? wr : rd).push_back({ timer_at[k - 4].front(), at }); t.pop_front(); }   // stopped timers do not count twice
                else { t.pop_front(); at.hi = timestamp(); (k == 5 ? wr : rd).push_back({ timer_at[k - 4].front(), at }); }
                timer_at[k - 4].pop_front();
            }
        }
        else if (op == 2) {
            if (s.chance(1, 2)) { st->read_cached(size); ++cr; cvr += size; } else { st->write_cached(size); ++cw; cvw += size; }
        }
        else if (op == 3) {   // a snapshot: counts at any time, times when nothing is going on
            stats_data now(*st);
            Num d(now - base);
            PBT_EQ(d.r, r, "reads"); PBT_EQ(d.w, w, "writes"); PBT_EQ(d.vr, vr, "volume read"); PBT_EQ(d.vw, vw, "volume written");
            PBT_EQ(d.cr, cr, "cached reads"); PBT_EQ(d.cw, cw, "cached writes"); PBT_EQ(d.cvr, cvr, "cached volume read"); PBT_EQ(d.cvw, cvw, "cached volume written");
            snap[1 + s.raw(2)] = now;
        }
        else if (op == 4 && s.chance(1, 3) && open_r.empty() && open_w.empty() && open_wait[0].empty() && open_wait[1].empty() && timers[0].empty() && timers[1].empty()) {
            // reset
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            st->reset();
#pragma GCC diagnostic pop
            reset_lo = at.lo; reset_hi = timestamp();
            base = stats_data();
            snap[0] = snap[1] = snap[2] = stats_data();
            r = w = cr = cw = 0; vr = vw = cvr = cvw = 0;
            rd.clear(); wr.clear(); waits[0].clear(); waits[1].clear();
            pbt::label("reset");
        }
        maxopen = std::max(maxopen, (unsigned)(open_r.size() + open_w.size() + timers[0].size() + timers[1].size()));
    }
    gap();
    double before = timestamp();
    stats_data last(*st);
    double after = timestamp();
    stats_data diff = last - base;
    Num d(diff);
    PBT_EQ(d.r, r, "reads"); PBT_EQ(d.w, w, "writes"); PBT_EQ(d.vr, vr, "volume read"); PBT_EQ(d.vw, vw, "volume written");
    PBT_EQ(d.cr, cr, "cached reads"); PBT_EQ(d.cw, cw, "cached writes"); PBT_EQ(d.cvr, cvr, "cached volume read"); PBT_EQ(d.cvw, cvw, "cached volume written");
    double e = EPS * (events + 4);
    in(d.tr, total_lo(rd), total_hi(rd), e, "time of all reads");
    in(d.tw, total_lo(wr), total_hi(wr), e, "time of all writes");
    in(d.pr, union_lo(rd), union_hi(rd), e, "time with at least one read");
    in(d.pw, union_lo(wr), union_hi(wr), e, "time with at least one write");
    std::vector<Span> io(rd); io.insert(io.end(), wr.begin(), wr.end());
    in(d.pio, union_lo(io), union_hi(io), e, "time with at least one read or write");
    in(d.wr, total_lo(waits[0]), total_hi(waits[0]), e, "time waited for reads");
    in(d.ww, total_lo(waits[1]), total_hi(waits[1]), e, "time waited for writes");
    std::vector<Span> wa(waits[0]); wa.insert(wa.end(), waits[1].begin(), waits[1].end());
    in(d.wt, total_lo(wa), total_hi(wa), e, "time waited");
    if (reset_hi != 0) in(d.el, before - reset_hi, after - reset_lo, e, "time since the reset");
    // differences and sums
    same((snap[1] - snap[0]) + (snap[2] - snap[1]) + (last - snap[2]), last - snap[0], "sum of differences");
    same((last - snap[1]) + snap[1], last, "difference and sum");
    if (maxopen >= 2 && events > 6) pbt::nontrivial();
    if (d.wt > 0) pbt::label("waits");
}
PBT_TARGET_F(collector, 1500, 25000, 1, collector);

// requests of real files, from several threads, some of them cancelled
static void counting(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = s.pick({ 0u, 20u });
    unsigned level = s.pick({ 0u, 6u, 40u });
    static const char* names[] = { "syscall", "mmap", "memory", "fileperblock_syscall", "fileperblock_mmap", "linuxaio", "wbtl" };
    struct F { unsigned kind; std::unique_ptr<file> f; std::vector<unsigned char> written; };
    unsigned nf = (unsigned)s.range(1, 3);
    std::vector<F> files(nf);
    stats_data zero(*stats::get_instance());
    unsigned slots = (unsigned)s.range(2, 24), wbs = 4 * B;
    bool wbtl = false;
    for (unsigned i = 0; i < nf; ++i) {
        F& f = files[i];
        f.kind = (unsigned)s.weighted({ 3, 2, 2, 2, 1, 6, 3 });
        std::string p = std::string(pbt::scratch()) + "/f" + std::to_string(i);
        int mode = file::RDWR | file::CREAT;
        int q = 10 + (int)i;
        switch (f.kind) {
        case 0: f.f.reset(new stxxl::syscall_file(p, mode, q)); break;
        case 1: f.f.reset(new stxxl::mmap_file(p, mode, q)); break;
        case 2: f.f.reset(new stxxl::mem_file(q)); break;
        case 3: f.f.reset(new stxxl::fileperblock_file<stxxl::syscall_file>(p, mode, q)); break;
        case 4: f.f.reset(new stxxl::fileperblock_file<stxxl::mmap_file>(p, mode, q)); break;
        case 5: f.f.reset(new stxxl::linuxaio_file(p, mode, file::DEFAULT_LINUXAIO_QUEUE, file::NO_ALLOCATOR, file::DEFAULT_DEVICE_ID, (int)s.pick({ 0, 1, 3 }))); break;
        case 6: f.f.reset(new stxxl::wbtl_file(new stxxl::syscall_file(p, mode, q + 50), wbs, 2, q)); wbtl = true; break;
        }
        f.written.assign(slots, 0);
        f.f->set_size((uint64_t)B * slots * (f.kind == 6 ? 4 : 1) + (f.kind == 6 ? 16 * wbs : 0));
        PBT_NOTE("file " << i << ": " << names[f.kind]);
    }
    struct R { unsigned f, slot, len; bool write, cancel; unsigned how; unsigned char* buf; request_ptr p; bool cancelled; };
    unsigned n = (unsigned)s.range(1, 40);
    std::vector<R> rs;
    for (unsigned i = 0; i < n; ++i) {
        R r; r.f = (unsigned)s.raw(nf); r.slot = (unsigned)s.raw(slots); r.write = s.chance(1, 2);
        unsigned kind = files[r.f].kind;
        r.len = kind == 3 || kind == 4 || kind == 6 ? 1 : (unsigned)s.range(1, std::min(4u, slots - r.slot));
        if (kind == 6 && !files[r.f].written[r.slot]) r.write = true;   // wbtl: only what was written is there to be read
        r.cancel = s.chance(1, 5) && kind != 6;
        r.how = (unsigned)s.raw(4);
        if (r.write) files[r.f].written[r.slot] = 1;
        r.cancelled = false;
        rs.push_back(std::move(r));
    }
    unsigned nthreads = wbtl ? 1 : (unsigned)s.range(1, 4);   // one thread: a read comes after its write
    for (auto& r : rs) { r.buf = (unsigned char*)stxxl::aligned_alloc<B>(r.len * B); memset(r.buf, 1, r.len * B); }
    perturb::level = level;
    auto use = [&](unsigned t) {
        for (size_t i = t; i < rs.size(); i += nthreads) {
            R& r = rs[i];
            file* f = files[r.f].f.get();
            r.p = r.write ? f->awrite(r.buf, (uint64_t)r.slot * B, r.len * B) : f->aread(r.buf, (uint64_t)r.slot * B, r.len * B);
            if (r.cancel) r.cancelled = r.p->cancel();
            if (r.how == 0) r.p->wait(); else if (r.how == 1) r.p->poll();
        }
        for (size_t i = t; i < rs.size(); i += nthreads) if (rs[i].how != 3) rs[i].p->wait(); else while (!rs[i].p->poll()) sched_yield();
    };
    std::vector<std::thread> th;
    for (unsigned t = 1; t < nthreads; ++t) th.emplace_back(use, t);
    use(0);
    for (auto& t : th) t.join();
    perturb::level = 0;
    unsigned reads = 0, writes = 0, creads = 0, cwrites = 0, cancelled = 0; int64_t vr = 0, vw = 0, cvr = 0, cvw = 0;
    unsigned wreads = 0, wwrites = 0;
    for (auto& r : rs) {
        pbt::ops();
        if (r.cancelled) { ++cancelled; continue; }
        if (files[r.f].kind == 6) { if (r.write) { ++wwrites; ++cwrites; cvw += B; } else { ++wreads; cvr += B; } continue; }
        if (r.write) { ++writes; vw += r.len * B; } else { ++reads; vr += r.len * B; }
    }
    creads = wreads;
    if (wbtl) for (auto& f : files) if (f.kind == 6) f.f.reset();   // its last block is on its way until then
    double idle0 = timestamp();
    stats_data now(*stats::get_instance());
    Num d(now - zero);
    PBT_EQ(d.cw, cwrites, "cached writes"); PBT_EQ(d.cvw, cvw, "cached volume written");
    if (!wbtl) {
        PBT_EQ(d.r, reads, "reads"); PBT_EQ(d.vr, vr, "volume read"); PBT_EQ(d.w, writes, "writes"); PBT_EQ(d.vw, vw, "volume written");
        PBT_EQ(d.cr, 0u, "cached reads"); PBT_EQ(d.cvr, (int64_t)0, "cached volume read");
    }
    else {
        // each read of a write-behind file is served by its buffers or by one read of the disk
        PBT_EQ(d.r + d.cr, reads + creads, "reads and cached reads"); PBT_EQ(d.vr + d.cvr, vr + cvr, "volumes of reads and cached reads");
        PBT_EQ(d.cvr, (int64_t)d.cr * B, "cached volume read");
        PBT_CHECK(d.w >= writes, "writes: " << d.w << " of at least " << writes);
        PBT_EQ(d.vw - vw, (int64_t)(d.w - writes) * wbs, "volume of the write blocks");
        PBT_CHECK(d.w - writes <= wwrites / 4 + nf, "write blocks: " << d.w - writes << " for " << wwrites << " blocks");
    }
    // times are sums over requests, so they cannot be negative; the waiting time splits into reads and writes
    double e = EPS * (8 * n + 8);
    PBT_CHECK(d.tr >= -e && d.tw >= -e, "time of all reads " << d.tr << ", writes " << d.tw);
    PBT_CHECK(d.pr >= -e && d.pw >= -e && d.pio >= -e, "parallel times: reads " << d.pr << ", writes " << d.pw << ", both " << d.pio);
    PBT_CHECK(d.wt >= -e && d.wr >= -e && d.ww >= -e, "wait times");
    in(d.wt, d.wr + d.ww, d.wr + d.ww, e, "wait time against its parts");
    // nothing is accounted as running while nothing runs: one more request takes no longer than it takes
    usleep(1500);
    unsigned char* b = (unsigned char*)stxxl::aligned_alloc<B>(B);
    memset(b, 3, B);
    stxxl::mem_file m(99);
    m.set_size(B);
    double t0 = timestamp();
    PBT_CHECK(t0 - idle0 >= 0.001, "clock");
    m.awrite(b, 0, B)->wait();
    m.aread(b, 0, B)->wait();
    double t1 = timestamp();
    stxxl::aligned_dealloc<B>(b);
    Num q(stats_data(*stats::get_instance()) - now);
    in(q.tr, 0, t1 - t0, e, "read time of one request after a pause"); in(q.tw, 0, t1 - t0, e, "write time of one request after a pause");
    in(q.pr, 0, t1 - t0, e, "parallel read time after a pause"); in(q.pw, 0, t1 - t0, e, "parallel write time after a pause");
    in(q.pio, 0, t1 - t0, e, "parallel I/O time after a pause"); in(q.wt, 0, t1 - t0, e, "wait time after a pause");
    for (auto& r : rs) { r.p = request_ptr(); stxxl::aligned_dealloc<B>(r.buf); }
    if (n >= 6) pbt::nontrivial();
    for (auto& f : files) pbt::label(names[f.kind]);
    pbt::label("cancelled", cancelled);
}
PBT_TARGET_F(counting, 1000, 15000, 1, counting);

// one request at a time: the parallel times are the times, and no time is longer than the clock says
static void one_by_one(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = 0;
    unsigned level = s.pick({ 0u, 10u, 60u, 120u });
    unsigned kind = (unsigned)s.weighted({ 1, 1, 1, 3 });
    std::string p = std::string(pbt::scratch()) + "/f";
    int mode = file::RDWR | file::CREAT;
    std::unique_ptr<file> f(kind == 0 ? (file*)new stxxl::syscall_file(p, mode, 7) : kind == 1 ? (file*)new stxxl::mmap_file(p, mode, 7) : kind == 2 ? (file*)new stxxl::mem_file(7) : (file*)new stxxl::linuxaio_file(p, mode));
    f->set_size(8 * B);
    unsigned n = (unsigned)s.range(1, 12);
    unsigned char* b = (unsigned char*)stxxl::aligned_alloc<B>(8 * B);
    memset(b, 5, 8 * B);
    PBT_NOTE("file kind " << kind << " requests " << n << " delay " << level);
    perturb::level = level;
    for (unsigned i = 0; i < n; ++i) {
        bool write = s.chance(1, 2), measure = s.chance(2, 3);
        unsigned len = (unsigned)s.range(1, 8);
        stats_data s0(*stats::get_instance());
        double t0 = timestamp();
        request_ptr r = write ? f->awrite(b, 0, len * B) : f->aread(b, 0, len * B);
        r->wait(measure);
        double t1 = timestamp();
        pbt::ops();
        Num d(stats_data(*stats::get_instance()) - s0);
        PBT_EQ(d.r, (unsigned)!write, "reads of one request"); PBT_EQ(d.w, (unsigned)write, "writes of one request");
        PBT_EQ(d.vr, (int64_t)(write ? 0 : len * B), "volume read"); PBT_EQ(d.vw, (int64_t)(write ? len * B : 0), "volume written");
        double e = 6 * EPS, t = write ? d.tw : d.tr;
        in(t, 0, t1 - t0, e, write ? "write time" : "read time");
        in(write ? d.tr : d.tw, 0, 0, 1e-12, "time of the other kind");
        in(write ? d.pw : d.pr, t, t, e, "parallel time against time");
        in(write ? d.pr : d.pw, 0, 0, 1e-12, "parallel time of the other kind");
        in(d.pio, t, t, e, "parallel I/O time against time");
        in(d.wt, 0, measure ? t1 - t0 : 0, measure ? e : 1e-12, "wait time");
        in(write ? d.ww : d.wr, d.wt, d.wt, e, "wait time of the kind");
        in(write ? d.wr : d.ww, 0, 0, 1e-12, "wait time of the other kind");
        in(d.el, 0, 1e9, e, "elapsed time");
    }
    perturb::level = 0;
    stxxl::aligned_dealloc<B>(b);
    if (n > 1) pbt::nontrivial();
    if (kind == 3) pbt::label("linuxaio");
    pbt::label("delays", perturb::delays.load());
}
PBT_TARGET_F(one_by_one, 1200, 15000, 1, one_by_one);

// a read and a write in service at the same time: each is the only one of its kind
static void pairs(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = 0;
    unsigned level = s.pick({ 0u, 10u, 60u, 120u });
    bool aio = s.chance(4, 5);
    std::string p = std::string(pbt::scratch()) + "/f";
    int mode = file::RDWR | file::CREAT;
    std::unique_ptr<file> f(aio ? (file*)new stxxl::linuxaio_file(p, mode) : (file*)new stxxl::syscall_file(p, mode, 7));
    f->set_size(16 * B);
    unsigned n = (unsigned)s.range(1, 24);
    unsigned char* b = (unsigned char*)stxxl::aligned_alloc<B>(16 * B);
    memset(b, 5, 16 * B);
    PBT_NOTE((aio ? "linuxaio" : "syscall") << " pairs " << n << " delay " << level);
    for (unsigned i = 0; i < n; ++i) {
        bool first = s.chance(1, 2);
        unsigned lr = (unsigned)s.range(1, 8), lw = (unsigned)s.range(1, 8);
        pbt::ops(2);
        stats_data s0(*stats::get_instance());
        perturb::level = level;
        double t0 = timestamp();
        request_ptr r, w;
        if (first) { w = f->awrite(b, 0, lw * B); r = f->aread(b + 8 * B, 8 * B, lr * B); }
        else { r = f->aread(b + 8 * B, 8 * B, lr * B); w = f->awrite(b, 0, lw * B); }
        r->wait(); w->wait();
        double t1 = timestamp();
        perturb::level = 0;
        Num d(stats_data(*stats::get_instance()) - s0);
        double e = 8 * EPS;
        PBT_EQ(d.r, 1u, "reads"); PBT_EQ(d.w, 1u, "writes"); PBT_EQ(d.vr, (int64_t)lr * B, "volume read"); PBT_EQ(d.vw, (int64_t)lw * B, "volume written");
        in(d.tr, 0, t1 - t0, e, "read time"); in(d.tw, 0, t1 - t0, e, "write time");
        in(d.pr, d.tr, d.tr, e, "parallel time against time of the read"); in(d.pw, d.tw, d.tw, e, "parallel time against time of the write");
        PBT_CHECK(d.pio >= -e, "parallel I/O time " << d.pio);
    }
    stxxl::aligned_dealloc<B>(b);
    if (n > 2) pbt::nontrivial();
    if (aio) pbt::label("linuxaio");
}
PBT_TARGET_F(pairs, 600, 8000, 1, pairs);

// requests that are in service together for a known time
namespace {
struct Meeting
{
    std::mutex m; std::condition_variable c; unsigned inside = 0, want = 0; unsigned us = 0;
    void meet() { std::unique_lock<std::mutex> l(m); if (++inside == want) c.notify_all(); else while (inside < want) c.wait(l); l.unlock(); if (us) usleep(us); }
};
struct timed_file : public stxxl::disk_queued_file
{
    Meeting& meeting;
    timed_file(Meeting& m, int q) : file(), disk_queued_file(q, -1), meeting(m) { }
    void serve(void*, offset_type, size_type bytes, stxxl::request::request_type type)
    {
        stats::scoped_read_write_timer t(bytes, type == stxxl::request::WRITE);
        meeting.meet();
    }
    void set_size(offset_type) { }
    offset_type size() { return 1 << 20; }
    void lock() { }
    const char* io_type() const { return "timed"; }
};
}
static void together(pbt::Src& s)
{
    perturb::level = 0; perturb::spurious = 0;
    unsigned phases = (unsigned)s.range(1, 3);
    unsigned char* b = (unsigned char*)stxxl::aligned_alloc<B>(B);
    for (unsigned ph = 0; ph < phases; ++ph) {
        unsigned k = (unsigned)s.range(1, 6), kr = (unsigned)s.raw(k + 1), kw = k - kr;
        unsigned us = s.pick({ 1000u, 2000u });
        double d = us * 1e-6;
        Meeting mt; mt.want = k; mt.us = us;
        std::vector<std::unique_ptr<timed_file> > fs;
        for (unsigned i = 0; i < k; ++i) fs.emplace_back(new timed_file(mt, 30 + (int)i));
        PBT_NOTE("reads " << kr << " writes " << kw << " for " << us << " us");
        stats_data s0(*stats::get_instance());
        double t0 = timestamp();
        std::vector<request_ptr> v;
        unsigned how = (unsigned)s.raw(4), waited_r = 0, waited_w = 0;
        for (unsigned i = 0; i < k; ++i) { pbt::ops(); v.push_back(i < kr ? fs[i]->aread(b, 0, B) : fs[i]->awrite(b, 0, B)); }
        std::vector<std::thread> th;
        double c0 = timestamp();
        switch (how) {
        case 0: for (auto& p : v) p->wait(); waited_r = kr; waited_w = kw; break;
        case 1: stxxl::wait_all(&v[0], v.size()); waited_r = kr; waited_w = kw; break;
        case 2: { std::vector<request_ptr> u(v); while (!u.empty()) u.erase(stxxl::wait_any(u.begin(), u.end())); waited_w = k; break; }
        case 3: for (auto& p : v) p->wait(false); break;
        }
        double t1 = timestamp();
        Num x(stats_data(*stats::get_instance()) - s0);
        double e = EPS * (4 * k + 8);
        PBT_EQ(x.r, kr, "reads"); PBT_EQ(x.w, kw, "writes");
        in(x.tr, kr * d, kr * (t1 - t0), e, "time of all reads"); in(x.tw, kw * d, kw * (t1 - t0), e, "time of all writes");
        in(x.pr, kr ? d : 0, kr ? t1 - t0 : 0, e, "time with at least one read"); in(x.pw, kw ? d : 0, kw ? t1 - t0 : 0, e, "time with at least one write");
        in(x.pio, d, t1 - t0, e, "time with at least one read or write");
        in(x.wt, 0, t1 - c0, e, "wait time"); in(x.wt, x.wr + x.ww, x.wr + x.ww, e, "wait time against its parts");
        if (how == 3) PBT_CHECK(x.wt == 0.0, "wait(false) was measured");
        if (!waited_r) PBT_CHECK(x.wr < e, "time waited for reads: " << x.wr);
        if (!waited_w) PBT_CHECK(x.ww < e, "time waited for writes: " << x.ww);
        // the requests were in service for a millisecond at least when the waiting began, unless it began late
        if (t1 - c0 >= 0.0009 && how != 3) PBT_CHECK(x.wt > 0.0, "a wait of " << t1 - c0 << " s was not measured");
        if (kr && kw && k > 2) pbt::nontrivial();
    }
    stxxl::aligned_dealloc<B>(b);
}
PBT_TARGET_F(together, 500, 6000, 1, together);

// the text
static uint64_t nbits(pbt::Src& s, unsigned n) { uint64_t v = s.bits(); return n == 0 ? 0 : n >= 64 ? v : v & ((1ull << n) - 1); }
static double number_after(const std::string& text, const std::string& label, bool& found)
{
    size_t p = text.find("\n " + label);
    found = p != std::string::npos;
    if (!found) return 0;
    p = text.find(':', p);
    return strtod(text.c_str() + p + 1, 0);
}
static uint64_t integer_after(const std::string& text, const std::string& label)
{
    size_t p = text.find("\n " + label);
    PBT_CHECK(p != std::string::npos, "no line '" << label << "' in " << text);
    p = text.find(':', p);
    return strtoull(text.c_str() + p + 1, 0, 10);
}
static void text(pbt::Src& s)
{
    // one number
    for (int i = 0; i < 8; ++i) {
        pbt::ops();
        uint64_t n = nbits(s, (unsigned)s.range(0, 64));
        if (s.chance(1, 4)) { static const uint64_t edge[] = { 999, 1000, 1001, 1023, 1024, 1025, 999999, 1000000, 1048575, 1048576, ~0ull, 1ull << 60, 1000000000000000000ull }; n = edge[s.raw(sizeof(edge) / sizeof(edge[0]))]; }
        bool iec = s.chance(1, 2);
        const char* unit = s.pick({ (const char*)"", (const char*)"B", (const char*)"items" });
        std::string t = iec ? stxxl::add_IEC_binary_multiplier(n, unit) : stxxl::add_SI_multiplier(n, unit);
        if (s.chance(1, 3)) PBT_EQ(t, stxxl::format_with_SI_IEC_unit_multiplier(n, unit, iec ? 1024 : 1000), "formatted number");
        PBT_NOTE(n << " -> '" << t << "'");
        char* end;
        PBT_EQ((uint64_t)strtoull(t.c_str(), &end, 10), n, "number in '" << t << "'");
        unsigned m = iec ? 1024 : 1000;
        std::string rest(end);
        if (n < m) { PBT_EQ(rest, *unit ? std::string(" ") + unit + " " : std::string(" "), "text after " << n); continue; }
        PBT_CHECK(rest.compare(0, 2, " (") == 0, "no multiplier for " << n << ": '" << t << "'");
        char* e2; long double v = strtold(rest.c_str() + 2, &e2);
        std::string suffix(e2);
        static const char* si[] = { "", "k", "M", "G", "T", "P", "E" }; static const char* bi[] = { "", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei" };
        long double f = 1; int scale = -1;
        for (int k = 1; k < 7; ++k) { f *= m; if (suffix == std::string(" ") + (iec ? bi[k] : si[k]) + unit + ") ") { scale = k; break; } }
        PBT_CHECK(scale > 0, "multiplier in '" << t << "'");
        PBT_CHECK(v >= 1 && v <= m, "mantissa in '" << t << "'");
        long double err = v * f - n;
        PBT_CHECK(err <= 0.000501L * f && err >= -0.000501L * f, "value in '" << t << "'");
    }
    // a block of statistics
    stats* st = stats::get_instance();
    stats_data s0(*st);
    unsigned n = (unsigned)s.range(0, 12);
    for (unsigned i = 0; i < n; ++i) {
        pbt::ops();
        uint64_t size = nbits(s, (unsigned)s.range(0, 40));
        switch (s.raw(5)) {
        case 0: st->read_started(size); if (s.chance(1, 3)) usleep(50); st->read_finished(); break;
        case 1: st->write_started(size); if (s.chance(1, 3)) usleep(50); st->write_finished(); break;
        case 2: st->read_cached(size); break;
        case 3: st->write_cached(size); break;
        case 4: { auto op = s.pick({ stats::WAIT_OP_READ, stats::WAIT_OP_WRITE, stats::WAIT_OP_ANY }); st->wait_started(op); usleep(30); st->wait_finished(op); break; }
        }
    }
    stats_data diff = stats_data(*st) - s0;
    std::ostringstream o; o << diff;
    std::string t = o.str();
    Num d(diff);
    PBT_EQ(integer_after(t, "total number of reads"), (uint64_t)d.r, "text: reads");
    PBT_EQ(integer_after(t, "number of bytes read from disks"), (uint64_t)d.vr, "text: bytes read");
    PBT_EQ(integer_after(t, "average block size (read)"), (uint64_t)(d.r ? d.vr / d.r : 0), "text: average read");
    PBT_EQ(integer_after(t, "total number of writes"), (uint64_t)d.w, "text: writes");
    PBT_EQ(integer_after(t, "number of bytes written to disks"), (uint64_t)d.vw, "text: bytes written");
    PBT_EQ(integer_after(t, "average block size (write)"), (uint64_t)(d.w ? d.vw / d.w : 0), "text: average write");
    if (d.cr) { PBT_EQ(integer_after(t, "total number of cached reads"), (uint64_t)d.cr, "text: cached reads"); PBT_EQ(integer_after(t, "number of bytes read from cache"), (uint64_t)d.cvr, "text: bytes from cache"); }
    if (d.cw) { PBT_EQ(integer_after(t, "total number of cached writes"), (uint64_t)d.cw, "text: cached writes"); PBT_EQ(integer_after(t, "number of bytes written to cache"), (uint64_t)d.cvw, "text: bytes to cache"); }
    struct { const char* label; double v; bool opt; } times[] = {
        { "time spent in serving all read requests", d.tr, false }, { "time spent in reading", d.pr, false },
        { "time spent in serving all write requests", d.tw, false }, { "time spent in writing", d.pw, false },
        { "time spent in I/O", d.pio, false }, { "I/O wait time", d.wt, false }, { "I/O wait4read time", d.wr, true }, { "I/O wait4write time", d.ww, true },
        { "Time since the last reset", d.el, false } };
    for (auto& x : times) {
        bool found; double v = number_after(t, x.label, found);
        if (x.opt && x.v == 0.0) continue;
        PBT_CHECK(found, "no line '" << x.label << "' in " << t);
        PBT_CHECK(std::abs(v - x.v) <= 1e-5 * std::abs(x.v) + 1e-12, x.label << ": text says " << v << ", value is " << x.v);
    }
    if (n > 3) pbt::nontrivial();
}
PBT_TARGET_F(text, 1500, 20000, 1, text);
