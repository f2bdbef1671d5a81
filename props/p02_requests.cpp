// The life of requests under concurrent use: issue, wait, poll, cancel, wait_any and friends from several threads.
#include "common.hpp"
#include <perturb.hpp>
#include <stxxl/bits/io/io.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_queue_impl_1q.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

int pbt_stack_use_after_return = 1;

using stxxl::file;
using stxxl::request_ptr;

enum { B = 4096 };

struct Gate
{
    std::mutex m; std::condition_variable c; bool open = true;
    void set(bool o) { { std::lock_guard<std::mutex> l(m); open = o; } c.notify_all(); }
    void pass() { std::unique_lock<std::mutex> l(m); while (!open) c.wait(l); }
};

struct Shared
{
    std::atomic<int> served, handled, cancels;
    std::atomic<bool> bad;
    bool fails; unsigned latency; unsigned handler_latency;
    Shared() : served(0), handled(0), cancels(0), bad(false), fails(false), latency(0), handler_latency(0) { }
};

// a file whose requests take a drawn time and fail when planned
class chaos_file : public stxxl::disk_queued_file
{
public:
    std::vector<Shared>& slots;
    Gate& gate;
    std::vector<unsigned char> data;
    std::atomic<int> inside;
    chaos_file(std::vector<Shared>& s, Gate& g, int queue) : file(), disk_queued_file(queue, -1), slots(s), gate(g), data(s.size() * 16), inside(0) { }
    void serve(void* buffer, offset_type offset, size_type bytes, stxxl::request::request_type type)
    {
        unsigned i = (unsigned)(offset / B);
        // one worker per queue: requests of a file never run at the same time
        if (inside.fetch_add(1) != 0) pbt::fail("two requests of one queue are served at the same time");
        gate.pass();
        unsigned l = slots[i].latency;
        if (l == 1) sched_yield(); else if (l > 1) usleep(l);
        if (bytes != B) pbt::fail("serve() got another length");
        if (type == stxxl::request::WRITE) memcpy(&data[i * 16], buffer, 16);
        else memcpy(buffer, &data[i * 16], 16);
        slots[i].served++;
        inside--;
        if (slots[i].fails) throw stxxl::io_error("planned");
    }
    void set_size(offset_type) { }
    offset_type size() { return data.size(); }
    void lock() { }
    const char* io_type() const { return "chaos"; }
};

struct Handler
{
    Shared* sh; Gate* gate;
    void operator () (stxxl::request* r)
    {
        if (sh->handler_latency) usleep(sh->handler_latency);
        (void)r;
        sh->handled++;
    }
};

struct Req
{
    bool write; unsigned slot, f; bool issued = false;
    request_ptr p;
    std::unique_ptr<unsigned char[]> rawbuf; unsigned char* buf;
};

static void check_finished(Shared& sh, const request_ptr& p, bool threw, const char* how)
{
    if (sh.cancels.load()) {
        PBT_CHECK(!threw, how << ": a cancelled request reported an error");
        PBT_CHECK(sh.served == 0, how << ": a cancelled request was served");
        PBT_CHECK(sh.handled == 0, how << ": the handler of a cancelled request was called");
    }
    else {
        PBT_EQ(sh.served.load(), 1, how << ": times the request was served");
        PBT_EQ(sh.handled.load(), 1, how << ": times the handler was called");
        PBT_EQ(threw, sh.fails, how << ": error reported");
    }
}

struct World
{
    std::vector<Shared> slots;
    Gate gate;
    std::vector<std::unique_ptr<chaos_file> > files;
    std::vector<Req> reqs;
    std::atomic<int> started;
    unsigned nthreads;
    World(unsigned n) : slots(n), reqs(n), started(0), nthreads(0) { }

    void issue(Req& r)
    {
        Shared& sh = slots[r.slot];
        stxxl::completion_handler h(Handler { &sh, &gate });
        chaos_file* f = files[r.f].get();
        r.p = r.write ? f->awrite(r.buf, (uint64_t)r.slot * B, B, h) : f->aread(r.buf, (uint64_t)r.slot * B, B, h);
        r.issued = true;
    }
    void do_wait(Req& r)
    {
        request_ptr p = r.p;
        bool threw = false;
        try { p->wait(); } catch (const stxxl::io_error&) { threw = true; }
        // the request may have been cancelled by another thread: its counter is raised right after cancel() returns
        Shared& sh = slots[r.slot];
        if (sh.served == 0) { for (int i = 0; i < 20000 && !sh.cancels; ++i) usleep(50); }
        check_finished(sh, p, threw, "wait");
    }
    void do_poll(Req& r)
    {
        request_ptr p = r.p;
        Shared& sh = slots[r.slot];
        try {
            if (p->poll() && sh.served) PBT_CHECK(sh.handled == 1, "poll reported a request as finished whose handler has not been called");
        }
        catch (const stxxl::io_error&) { PBT_CHECK(sh.fails && sh.served == 1, "poll reported an error of a request that did not fail"); }
    }
    void do_cancel(Req& r)
    {
        request_ptr p = r.p;
        Shared& sh = slots[r.slot];
        if (p->cancel()) {
            PBT_EQ(++sh.cancels, 1, "successful cancellations of one request");
            PBT_CHECK(sh.served == 0, "a request was cancelled after it was served");
            PBT_CHECK(p->poll(), "a cancelled request is not finished");
        }
    }
    void do_wait_any(std::vector<unsigned> ids)
    {
        std::vector<request_ptr> v;
        bool may_fail = false;
        for (unsigned i : ids) { v.push_back(reqs[i].p); may_fail |= slots[reqs[i].slot].fails; }
        try {
            std::vector<request_ptr>::iterator it = stxxl::wait_any(v.begin(), v.end());
            PBT_CHECK(it != v.end(), "wait_any returned without a finished request");
            PBT_CHECK((*it)->poll(), "wait_any returned a request that is not finished");
        }
        catch (const stxxl::io_error&) { PBT_CHECK(may_fail, "wait_any reported an error although no request fails"); }
    }
    void do_poll_any(std::vector<unsigned> ids)
    {
        std::vector<request_ptr> v;
        bool may_fail = false;
        for (unsigned i : ids) { v.push_back(reqs[i].p); may_fail |= slots[reqs[i].slot].fails; }
        try {
            size_t index = 0;
            if (stxxl::poll_any(&v[0], v.size(), index)) { PBT_CHECK(index < v.size(), "index of poll_any"); PBT_CHECK(v[index]->poll(), "poll_any returned a request that is not finished"); }
            else PBT_EQ(index, v.size(), "index of poll_any");
        }
        catch (const stxxl::io_error&) { PBT_CHECK(may_fail, "poll_any reported an error although no request fails"); }
    }
};

struct Op { unsigned kind, a; std::vector<unsigned> ids; };

static void lifecycle(pbt::Src& s)
{
    unsigned nthreads = (unsigned)s.range(1, 4);
    unsigned nfiles = (unsigned)s.range(1, 3);
    unsigned shared = (unsigned)s.raw(6), per = (unsigned)s.range(1, 8);
    unsigned n = shared + per * nthreads;
    World w(n);
    w.nthreads = nthreads;
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = s.pick({ 0u, 0u, 20u, 100u });
    unsigned level = s.pick({ 0u, 6u, 40u, 120u });
    bool fresh_queues = s.chance(1, 2);
    PBT_NOTE("threads " << nthreads << " files " << nfiles << " shared " << shared << " own " << per << " delay " << level << "/256 spurious " << perturb::spurious.load() << "/256");
    unsigned same = (unsigned)s.raw(3);
    for (unsigned f = 0; f < nfiles; ++f) w.files.emplace_back(new chaos_file(w.slots, w.gate, same == 0 ? 100 + f : 200 + (int)f));
    unsigned fail_rate = s.pick({ 0u, 0u, 3u, 12u });
    for (unsigned i = 0; i < n; ++i) {
        Req& r = w.reqs[i];
        r.slot = i; r.f = (unsigned)s.raw(nfiles); r.write = s.chance(1, 2);
        r.rawbuf.reset(new unsigned char[2 * B]);
        r.buf = (unsigned char*)(((uintptr_t)r.rawbuf.get() + B - 1) / B * B);
        memset(r.buf, (int)i + 1, 16);
        w.slots[i].fails = s.raw(16) < fail_rate;
        w.slots[i].latency = s.pick({ 0u, 0u, 1u, 20u, 150u });
        w.slots[i].handler_latency = s.chance(1, 5) ? 60 : 0;
    }
    // scripts
    std::vector<std::vector<Op> > scripts(nthreads);
    for (unsigned t = 0; t < nthreads; ++t) {
        unsigned next = 0;
        unsigned k = (unsigned)s.range(1, 24);
        auto pool = [&]() { // requests this thread may touch
            std::vector<unsigned> v;
            for (unsigned i = 0; i < shared; ++i) v.push_back(i);
            for (unsigned i = 0; i < next; ++i) v.push_back(shared + t * per + i);
            return v;
        };
        for (unsigned i = 0; i < k; ++i) {
            Op o; o.a = 0;
            o.kind = (unsigned)s.weighted({ 8, 3, 3, 6, 4, 2, 2 });
            std::vector<unsigned> v = pool();
            if (o.kind == 0) { if (next >= per) continue; o.a = shared + t * per + next++; }
            else if (v.empty()) continue;
            else if (o.kind <= 3) o.a = v[s.raw(v.size())];
            else { unsigned m = (unsigned)s.range(1, 5); for (unsigned j = 0; j < m; ++j) { unsigned x = v[s.raw(v.size())]; bool dup = false; for (unsigned y : o.ids) dup |= y == x; if (!dup) o.ids.push_back(x); } }
            scripts[t].push_back(o);
            pbt::ops();
        }
        while (next < per) { Op o; o.kind = 0; o.a = shared + t * per + next++; scripts[t].push_back(o); }
    }
    bool gate_closed = s.chance(1, 2);
    unsigned gate_ms = (unsigned)s.raw(3);
    if (gate_closed) w.gate.set(false);
    perturb::level = level;
    for (unsigned i = 0; i < shared; ++i) w.issue(w.reqs[i]);
    std::vector<std::thread> threads;
    for (unsigned t = 0; t < nthreads; ++t)
        threads.emplace_back([&w, &scripts, t]() {
            ++w.started;
            while (w.started < (int)w.nthreads) sched_yield();
            for (Op& o : scripts[t]) {
                switch (o.kind) {
                case 0: w.issue(w.reqs[o.a]); break;
                case 1: w.do_wait(w.reqs[o.a]); break;
                case 2: w.do_poll(w.reqs[o.a]); break;
                case 3: w.do_cancel(w.reqs[o.a]); break;
                case 4: w.do_wait_any(o.ids); break;
                case 5: w.do_poll_any(o.ids); break;
                case 6: {
                    std::vector<request_ptr> v;
                    for (unsigned i : o.ids) v.push_back(w.reqs[i].p);
                    bool may_fail = false;
                    for (unsigned i : o.ids) may_fail |= w.slots[w.reqs[i].slot].fails;
                    try { stxxl::wait_all(v.begin(), v.end()); }
                    catch (const stxxl::io_error&) { PBT_CHECK(may_fail, "wait_all reported an error although no request fails"); break; }
                    for (auto& p : v) PBT_CHECK(p->poll(), "unfinished request after wait_all");
                    break;
                }
                }
            }
        });
    if (gate_closed) { if (gate_ms) usleep(gate_ms * 700); w.gate.set(true); }
    for (auto& t : threads) t.join();
    unsigned cancelled = 0, failed = 0;
    for (unsigned i = 0; i < n; ++i) {
        w.do_wait(w.reqs[i]);
        cancelled += w.slots[i].cancels; failed += w.slots[i].fails && !w.slots[i].cancels;
    }
    for (unsigned i = 0; i < n; ++i) {
        // the result is reported again, and nothing happens to a finished request any more
        Req& r = w.reqs[i];
        PBT_CHECK(!r.p->cancel(), "a finished request was cancelled");
        bool threw = false;
        try { PBT_CHECK(r.p->poll(), "a finished request is not finished"); } catch (const stxxl::io_error&) { threw = true; }
        check_finished(w.slots[i], r.p, threw, "poll after the end");
        if (w.slots[i].served && r.write) PBT_EQ((unsigned)w.files[r.f]->data[i * 16], (i + 1) & 255, "data of write " << i);
        if (w.slots[i].cancels && r.write) PBT_EQ((unsigned)w.files[r.f]->data[i * 16], 0u, "data of cancelled write " << i);
    }
    for (auto& f : w.files) PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
    // references: the harness holds the last one
    for (unsigned i = 0; i < n; ++i) {
        for (int k = 0; k < 40000 && w.reqs[i].p->get_reference_count() != 1; ++k) usleep(50);
        PBT_EQ(w.reqs[i].p->get_reference_count(), 1u, "references to a finished request");
    }
    pbt::label("cancelled", cancelled);
    pbt::label("failed", failed);
    pbt::label("delays", perturb::delays.load());
    pbt::label("spurious wakeups", perturb::wakes.load());
    if (n > 4 && (cancelled || failed)) pbt::nontrivial();
    (void)fresh_queues;
}
PBT_TARGET_F(lifecycle, 2500, 40000, 1, lifecycle);

// real files: cancelled requests leave the file alone, the others transfer exactly their data
static void real_files(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = s.pick({ 0u, 20u, 100u });
    unsigned level = s.pick({ 0u, 6u, 40u, 120u });
    bool aio = s.chance(2, 3);
    std::string path = std::string(pbt::scratch()) + "/f";
    int mode = file::RDWR | file::CREAT | (s.chance(1, 3) ? file::DIRECT : 0);
    int qlen = (int)s.pick({ 0, 1, 2, 5 });
    std::unique_ptr<file> f(aio ? (file*)new stxxl::linuxaio_file(path, mode, file::DEFAULT_LINUXAIO_QUEUE, file::NO_ALLOCATOR, file::DEFAULT_DEVICE_ID, qlen)
                            : (file*)new stxxl::syscall_file(path, mode, 5));
    unsigned n = (unsigned)s.range(1, 24), nthreads = (unsigned)s.range(1, 3), len = (unsigned)s.range(1, 3);
    PBT_NOTE((aio ? "linuxaio" : "syscall") << " queue length " << qlen << " requests " << n << "x" << len << " threads " << nthreads << " delay " << level);
    uint64_t bytes = (uint64_t)n * len * B;
    f->set_size(bytes);
    {   // old content
        FILE* g = fopen(path.c_str(), "r+b");
        std::vector<unsigned char> v(bytes, 0xA1);
        if (fwrite(&v[0], 1, bytes, g) != bytes) abort();
        fclose(g);
    }
    struct R { bool write; unsigned char* buf; request_ptr p; std::atomic<int> handled, cancels; };
    std::vector<R> rs(n);
    std::vector<unsigned> script;   // cancel/poll/wait in a drawn order
    unsigned k = (unsigned)s.raw(2 * n + 1);
    for (unsigned i = 0; i < k; ++i) { script.push_back((unsigned)s.raw(n)); script.push_back((unsigned)s.weighted({ 5, 2, 2, 1 })); pbt::ops(); }
    for (unsigned i = 0; i < n; ++i) {
        rs[i].write = s.chance(1, 2); rs[i].handled = 0; rs[i].cancels = 0;
        rs[i].buf = (unsigned char*)stxxl::aligned_alloc<B>(len * B);
        memset(rs[i].buf, rs[i].write ? 0xC0 : 0x55, len * B);
    }
    struct H { std::atomic<int>* c; void operator () (stxxl::request*) { ++*c; } };
    perturb::level = level;
    std::atomic<unsigned> issued(0);
    auto use = [&](unsigned from, unsigned step) {
        for (size_t i = 2 * from; i + 1 < script.size(); i += 2 * step) {
            unsigned id = script[i];
            while (issued <= id) sched_yield();
            R& r = rs[id];
            switch (script[i + 1]) {
            case 0: if (r.p->cancel()) { PBT_EQ(++r.cancels, 1, "successful cancellations"); PBT_CHECK(r.p->poll(), "a cancelled request is not finished"); } break;
            case 1: r.p->poll(); break;
            case 2: r.p->wait(); break;
            case 3: {
                std::vector<request_ptr> v;
                for (unsigned j = 0; j <= id; ++j) v.push_back(rs[j].p);
                auto it = stxxl::wait_any(v.begin(), v.end());
                PBT_CHECK(it != v.end() && (*it)->poll(), "wait_any returned a request that is not finished");
                break;
            }
            }
        }
    };
    std::vector<std::thread> th;
    for (unsigned t = 0; t + 1 < nthreads; ++t) th.emplace_back(use, t, nthreads);
    for (unsigned i = 0; i < n; ++i) {
        H h = { &rs[i].handled };
        rs[i].p = rs[i].write ? f->awrite(rs[i].buf, (uint64_t)i * len * B, len * B, h) : f->aread(rs[i].buf, (uint64_t)i * len * B, len * B, h);
        issued = i + 1;
    }
    use(nthreads - 1, nthreads);
    for (auto& t : th) t.join();
    unsigned cancelled = 0;
    for (auto& r : rs) { r.p->wait(); PBT_EQ(r.handled.load(), 1 - r.cancels.load(), "calls of the handler"); cancelled += r.cancels; PBT_CHECK(!r.p->cancel(), "a finished request was cancelled"); }
    PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
    {
        FILE* g = fopen(path.c_str(), "rb");
        std::vector<unsigned char> v(bytes + 1);
        PBT_EQ(fread(&v[0], 1, bytes + 1, g), bytes, "file length");
        fclose(g);
        for (unsigned i = 0; i < n; ++i)
            for (unsigned j = 0; j < len * B; j += 64) {
                unsigned char want = rs[i].write && !rs[i].cancels ? 0xC0 : 0xA1;
                PBT_CHECK(v[(uint64_t)i * len * B + j] == want, "file content of request " << i << (rs[i].cancels ? " (cancelled)" : ""));
                unsigned char wb = rs[i].write ? 0xC0 : rs[i].cancels ? 0x55 : 0xA1;
                PBT_CHECK(rs[i].buf[j] == wb, "buffer of request " << i << (rs[i].cancels ? " (cancelled)" : ""));
            }
    }
    for (auto& r : rs) stxxl::aligned_dealloc<B>(r.buf);
    if (cancelled) pbt::nontrivial();
    pbt::label("cancelled", cancelled);
    pbt::label(aio ? "linuxaio" : "syscall");
}
PBT_TARGET_F(real_files, 1200, 20000, 1, real_files);

// a request that was found finished does not touch its file, nor its handler's data, any more
static void then_delete(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    unsigned level = s.pick({ 6u, 40u, 120u });
    unsigned how = (unsigned)s.raw(5), nfiles = (unsigned)s.range(1, 6), per = (unsigned)s.range(1, 4);
    bool aio = s.chance(1, 4);
    static const char* names[] = { "poll", "wait_any", "poll_any", "wait", "wait_all" };
    PBT_NOTE(names[how] << " files " << nfiles << " requests " << per << " delay " << level << (aio ? " linuxaio" : ""));
    std::vector<Shared> slots(per);
    Gate gate;
    for (auto& x : slots) x.latency = s.pick({ 0u, 0u, 1u, 30u });
    bool queued = s.chance(1, 2);   // cancelling some while they are queued
    perturb::level = level;
    unsigned char* bufs = (unsigned char*)stxxl::aligned_alloc<B>(per * B);
    memset(bufs, 7, per * B);
    for (unsigned f = 0; f < nfiles; ++f) {
        pbt::ops();
        std::unique_ptr<file> fl;
        std::unique_ptr<std::atomic<int> > handled(new std::atomic<int>(0));
        struct H { std::atomic<int>* c; void operator () (stxxl::request*) { ++*c; } } h = { handled.get() };
        if (aio) { fl.reset(new stxxl::linuxaio_file(std::string(pbt::scratch()) + "/f", file::RDWR | file::CREAT)); fl->set_size(per * B); }
        else fl.reset(new chaos_file(slots, gate, 100 + (int)f));
        std::vector<request_ptr> v, out;
        for (unsigned i = 0; i < per; ++i) v.push_back(i & 1 ? fl->aread(bufs + i * B, (uint64_t)i * B, B, h) : fl->awrite(bufs + i * B, (uint64_t)i * B, B, h));
        unsigned cancelled = 0;
        if (queued) cancelled += v.back()->cancel();
        switch (how) {
        case 0: for (auto& p : v) while (!p->poll()) sched_yield(); break;
        case 1: while (!v.empty()) { auto it = stxxl::wait_any(v.begin(), v.end()); PBT_CHECK((*it)->poll(), "wait_any returned an unfinished request"); out.push_back(*it); v.erase(it); } break;
        case 2: while (!v.empty()) { size_t i = 0; if (stxxl::poll_any(&v[0], v.size(), i)) { out.push_back(v[i]); v.erase(v.begin() + i); } } break;
        case 3: for (auto& p : v) p->wait(); break;
        case 4: stxxl::wait_all(v.begin(), v.end()); break;
        }
        int done = *handled;
        handled.reset();
        PBT_EQ(fl->get_request_nref(), 0u, "finished requests still referring to the file");
        fl.reset();
        PBT_EQ(done, (int)(per - cancelled), "handlers called when the requests were found finished");
    }
    stxxl::aligned_dealloc<B>(bufs);
    if (how != 3 && how != 4) pbt::nontrivial();
}
PBT_TARGET_F(then_delete, 1500, 15000, 1, then_delete);

// the primitives the layer is built on
#include <stxxl/bits/common/onoff_switch.h>
#include <stxxl/bits/common/semaphore.h>
#include <stxxl/bits/common/state.h>
static void primitives(pbt::Src& s)
{
    perturb::seed = s.raw(1u << 30) + 1;
    perturb::spurious = s.pick({ 60u, 0u, 150u });
    unsigned level = s.pick({ 0u, 6u, 60u });
    switch (s.raw(3)) {
    case 0: {
        PBT_NOTE("onoff_switch");
        unsigned rounds = (unsigned)s.range(1, 12);
        perturb::level = level;
        stxxl::onoff_switch sw;
        std::atomic<int> phase(0);
        std::thread t([&]() {
            for (unsigned i = 0; i < rounds; ++i) {
                sw.wait_for_on();
                PBT_CHECK(phase >= (int)(2 * i + 1), "wait_for_on returned while the switch was off");
                phase = 2 * i + 2;
                sw.off();
            }
        });
        for (unsigned i = 0; i < rounds; ++i) {
            usleep(60);
            phase = 2 * i + 1;
            sw.on();
            sw.wait_for_off();
            PBT_CHECK(phase == (int)(2 * i + 2), "wait_for_off returned while the switch was on");
        }
        t.join();
        PBT_CHECK(!sw.is_on(), "switch");
        break;
    }
    case 1: {
        PBT_NOTE("semaphore");
        unsigned producers = (unsigned)s.range(1, 3), consumers = (unsigned)s.range(1, 3), k = (unsigned)s.range(1, 30);
        int init = (int)s.raw(4);
        perturb::level = level;
        stxxl::semaphore sem(init);
        std::atomic<int> ups(init), downs(0);
        unsigned total = producers * k * consumers;   // every producer raises k*consumers, every consumer takes k*producers
        (void)total;
        std::vector<std::thread> th;
        for (unsigned p = 0; p < producers; ++p) th.emplace_back([&]() { for (unsigned i = 0; i < k * consumers; ++i) { ups++; sem++; } });
        for (unsigned c = 0; c < consumers; ++c) th.emplace_back([&]() { for (unsigned i = 0; i < k * producers; ++i) {
                int v = sem--; PBT_CHECK(v >= 0, "semaphore below zero"); int d = ++downs; PBT_CHECK(d <= ups.load(), "semaphore passed more often than raised"); } });
        for (auto& t : th) t.join();
        PBT_EQ(sem++, init + 1, "value of the semaphore at the end");
        break;
    }
    case 2: {
        PBT_NOTE("state");
        unsigned waiters = (unsigned)s.range(1, 4), rounds = (unsigned)s.range(1, 8);
        perturb::level = level;
        stxxl::state<int> st(0);
        std::atomic<int> reached(0), done(0);
        std::vector<std::thread> th;
        for (unsigned i = 0; i < waiters; ++i) th.emplace_back([&]() { st.wait_for((int)rounds); PBT_EQ(reached.load(), (int)rounds, "wait_for returned in another state"); ++done; });
        for (unsigned r = 1; r <= rounds; ++r) { usleep(30); reached = r; st.set_to((int)r); PBT_EQ(st(), (int)r, "state"); }
        for (auto& t : th) t.join();
        break;
    }
    }
    pbt::ops(8);
    pbt::nontrivial();
    perturb::level = 0;
}
PBT_TARGET_F(primitives, 1500, 15000, 10, primitives);
