// Failing and short system calls below the file implementations: complete data or an error, never silence.
#include "common.hpp"
#include <stxxl/bits/io/io.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <atomic>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <linux/aio_abi.h>
#include <sys/mman.h>
#include <sys/syscall.h>

using stxxl::file;
using stxxl::request_ptr;
enum { B = 4096 };

// ---- the plan of the running case, keyed by the place in the file
struct Plan
{
    int err = 0;              // errno of the failing call
    int fail_at = -1;         // which call on the range fails, -1: none
    std::vector<uint64_t> caps;   // lengths of the first transfers
    int where = 0;            // 0: data call, 1: lseek / munmap
    int calls = 0;
};
static std::mutex g_m;
static bool g_on = false;
static std::map<uint64_t, Plan> g_plan;      // start of the range -> plan
static uint64_t g_range = 0;                 // length of every range
static std::map<int, uint64_t> g_pos;        // file position per descriptor
static std::map<void*, uint64_t> g_maps;
static int g_ftruncate_err = 0, g_open_err = 0, g_open_times = 0;
static int g_submit_again = 0, g_setup_max = 0, g_eintr = 0;
static std::atomic<uint64_t> g_injected(0), g_shorts(0);

static Plan* plan_at(uint64_t off)
{
    if (!g_on || !g_range) return nullptr;
    auto it = g_plan.find(off / g_range * g_range);
    return it == g_plan.end() ? nullptr : &it->second;
}

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
off_t __real_lseek(int, off_t, int);
off_t __real_lseek64(int, off_t, int);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
long __real_syscall(long, ...);

off_t __wrap_lseek64(int fd, off_t off, int wh)
{
    if (wh == SEEK_SET) {
        std::lock_guard<std::mutex> l(g_m);
        Plan* p = plan_at((uint64_t)off);
        if (p && p->where == 1 && p->fail_at >= 0 && p->calls >= p->fail_at) { ++g_injected; errno = p->err; return -1; }
        g_pos[fd] = off;
    }
    return __real_lseek64(fd, off, wh);
}
off_t __wrap_lseek(int fd, off_t off, int wh) { return __wrap_lseek64(fd, off, wh); }
static bool decide(int fd, size_t n, size_t& give)
{
    std::lock_guard<std::mutex> l(g_m);
    give = n;
    auto it = g_pos.find(fd);
    if (it == g_pos.end()) return true;
    Plan* p = plan_at(it->second);
    if (!p) return true;
    int k = p->calls++;
    if (p->where == 0 && k == p->fail_at) { ++g_injected; errno = p->err; return false; }
    if ((size_t)k < p->caps.size() && p->caps[k] < n) { give = p->caps[k]; ++g_shorts; }
    return true;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { size_t g; if (!decide(fd, n, g)) return -1; return __real_read(fd, b, g); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { size_t g; if (!decide(fd, n, g)) return -1; return __real_write(fd, b, g); }
int __wrap_ftruncate64(int fd, off_t n) { if (g_ftruncate_err) { ++g_injected; errno = g_ftruncate_err; return -1; } return __real_ftruncate64(fd, n); }
int __wrap_ftruncate(int fd, off_t n) { return __wrap_ftruncate64(fd, n); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t off)
{
    if (fd >= 0) {
        std::lock_guard<std::mutex> l(g_m);
        Plan* p = plan_at((uint64_t)off);
        if (p && p->fail_at >= 0) { if (p->where == 0) { ++g_injected; errno = p->err; return MAP_FAILED; } }
    }
    void* r = __real_mmap64(a, n, pr, fl, fd, off);
    if (fd >= 0 && r != MAP_FAILED) { std::lock_guard<std::mutex> l(g_m); g_maps[r] = (uint64_t)off; }
    return r;
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) { return __wrap_mmap64(a, n, pr, fl, fd, off); }
int __wrap_munmap(void* a, size_t n)
{
    {
        std::lock_guard<std::mutex> l(g_m);
        auto it = g_maps.find(a);
        if (it != g_maps.end()) {
            Plan* p = plan_at(it->second);
            g_maps.erase(it);
            if (p && p->fail_at >= 0 && p->where == 1) { ++g_injected; errno = p->err; return -1; }
        }
    }
    return __real_munmap(a, n);
}
int __wrap_open64(const char* path, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (g_open_err && g_open_times > 0 && (g_open_err != EINVAL || (fl & O_DIRECT))) { --g_open_times; ++g_injected; errno = g_open_err; return -1; }
    return __real_open64(path, fl, mode);
}
int __wrap_open(const char* path, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    return __wrap_open64(path, fl, mode);
}
long __wrap_syscall(long nr, ...)
{
    va_list ap; va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_io_setup && g_setup_max && a[0] > g_setup_max) { ++g_injected; errno = EAGAIN; return -1; }
    if (nr == SYS_io_submit) {
        struct iocb* cb = ((struct iocb**)a[2])[0];
        std::lock_guard<std::mutex> l(g_m);
        if (g_submit_again > 0) { --g_submit_again; ++g_injected; errno = EAGAIN; return -1; }
        Plan* p = plan_at(cb->aio_offset);
        if (p && p->where == 1 && p->fail_at >= 0) { ++g_injected; errno = p->err; return -1; }
    }
    if (nr == SYS_io_getevents && g_eintr > 0) { --g_eintr; ++g_injected; errno = EINTR; return -1; }
    long r = __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (nr == SYS_io_getevents && r > 0) {
        struct io_event* ev = (struct io_event*)a[3];
        for (long i = 0; i < r; ++i) {
            struct iocb* cb = (struct iocb*)(uintptr_t)ev[i].obj;
            std::lock_guard<std::mutex> l(g_m);
            Plan* p = plan_at(cb->aio_offset);
            if (!p || p->where != 0) continue;
            bool read = cb->aio_lio_opcode == IOCB_CMD_PREAD;
            if (p->fail_at >= 0) { ++g_injected; ev[i].res = -p->err; if (read) memset((void*)(uintptr_t)cb->aio_buf, 0x77, cb->aio_nbytes); }
            else if (p->caps.size() && ev[i].res > (long long)p->caps[0]) {
                ++g_shorts;
                ev[i].res = p->caps[0];
                if (read) memset((char*)(uintptr_t)cb->aio_buf + p->caps[0], 0x77, cb->aio_nbytes - p->caps[0]);
            }
        }
    }
    return r;
}
}

static inline unsigned char pat(uint32_t id, uint64_t p)
{
    uint64_t h = (p ^ ((uint64_t)id << 32)) * 0x9E3779B97F4A7C15ull;
    return (unsigned char)(h >> 56);
}
struct H { std::atomic<int>* c; void operator () (stxxl::request*) { ++*c; } };

static void faults(pbt::Src& s)
{
    g_on = false; g_plan.clear(); g_maps.clear(); g_pos.clear(); g_injected = 0; g_shorts = 0;
    g_ftruncate_err = g_open_err = g_submit_again = g_setup_max = g_eintr = 0;
    int kind = (int)s.weighted({ 5, 3, 5 });        // syscall mmap linuxaio
    std::string path = std::string(pbt::scratch()) + "/f";
    unsigned len = (unsigned)s.range(1, 4), n = (unsigned)s.range(1, 10);
    g_range = (uint64_t)len * B;
    uint64_t bytes = n * g_range;
    int mode = file::RDWR | file::CREAT;
    if (kind == 2 && s.chance(1, 3)) g_setup_max = (int)s.range(1, 40);
    PBT_NOTE((kind == 0 ? "syscall" : kind == 1 ? "mmap" : "linuxaio") << " slots " << n << "x" << len << (g_setup_max ? " io_setup limit " : "") << (g_setup_max ? std::to_string(g_setup_max) : ""));
    std::unique_ptr<file> f(kind == 0 ? (file*)new stxxl::syscall_file(path, mode, 3) : kind == 1 ? (file*)new stxxl::mmap_file(path, mode, 3) : (file*)new stxxl::linuxaio_file(path, mode));
    f->set_size(bytes);
    std::vector<int> m(bytes, 0);
    struct R { bool write; uint32_t id; unsigned slot; unsigned char* buf; request_ptr p; std::atomic<int> handled; bool err, shrt; std::vector<int> expect; };
    unsigned rounds = (unsigned)s.range(1, 4);
    uint32_t next = 1;
    for (unsigned round = 0; round < rounds; ++round) {
        // which slots are touched in this round, and what goes wrong there
        std::vector<std::unique_ptr<R> > rs;
        { std::lock_guard<std::mutex> l(g_m); g_plan.clear(); }
        bool eof = kind != 1 && s.chance(1, 4);
        for (unsigned i = 0; i < n; ++i) {
            if (s.chance(1, 4)) continue;
            std::unique_ptr<R> r(new R());
            r->write = s.chance(1, 2); r->slot = i; r->id = next++; r->err = r->shrt = false; r->handled = 0;
            Plan p;
            switch (s.weighted({ 4, 4, 3 })) {
            case 0: break;
            case 1: {   // short transfers
                unsigned k = (unsigned)s.range(1, 4);
                if (kind == 2) k = 1;
                for (unsigned j = 0; j < k; ++j) p.caps.push_back(kind == 2 && s.chance(1, 2) ? s.range(0, len) * B : s.range(kind == 2 ? 0 : 1, g_range));
                r->shrt = true;
                break;
            }
            case 2: {   // an error, maybe after short transfers
                unsigned k = (unsigned)s.raw(3);
                p.err = s.pick({ EIO, ENOSPC, EBADF, ENOMEM });
                p.where = s.chance(1, 4);
                if (kind == 0 && p.where == 0) for (unsigned j = 0; j < k; ++j) p.caps.push_back(s.range(1, g_range / 4));
                p.fail_at = (kind == 0 && p.where == 0) ? (int)k : 0;
                r->err = true;
                break;
            }
            }
            PBT_NOTE((r->write ? "w" : "r") << i << (r->err ? std::string(" error") + (p.where ? "@pre" : "") + "@" + std::to_string(p.fail_at) : r->shrt ? std::string(" short ") + std::to_string(p.caps[0]) : std::string()));
            if (r->err || r->shrt) { std::lock_guard<std::mutex> l(g_m); g_plan[(uint64_t)i * g_range] = p; }
            rs.push_back(std::move(r));
            pbt::ops();
        }
        if (kind == 2) { std::lock_guard<std::mutex> l(g_m); g_submit_again = s.chance(1, 3) ? (int)s.range(1, 6) : 0; g_eintr = s.chance(1, 4) ? (int)s.range(1, 3) : 0; if (g_submit_again) PBT_NOTE("EAGAIN*" << g_submit_again); }
        // a read over the end of the file: short because the file ends there
        uint64_t cut = 0;
        if (eof && bytes > 0) {
            cut = s.range(1, g_range - 1);
            if (rs.empty() || rs.back()->slot != n - 1 || rs.back()->write) cut = 0;
            else { rs.back()->err = rs.back()->shrt = false; { std::lock_guard<std::mutex> l(g_m); g_plan.erase((uint64_t)(n - 1) * g_range); }
                f->set_size(bytes - cut); for (uint64_t i = bytes - cut; i < bytes; ++i) m[i] = 0; PBT_NOTE("eof-" << cut); }
        }
        for (auto& r : rs) {
            r->buf = (unsigned char*)stxxl::aligned_alloc<B>(g_range);
            uint64_t off = r->slot * g_range;
            for (uint64_t i = 0; i < g_range; ++i) r->buf[i] = r->write ? pat(r->id, off + i) : 0x55;
            r->expect.assign(m.begin() + off, m.begin() + off + g_range);
        }
        g_on = true;
        for (auto& r : rs) {
            H h = { &r->handled };
            uint64_t off = r->slot * g_range;
            r->p = r->write ? f->awrite(r->buf, off, g_range, h) : f->aread(r->buf, off, g_range, h);
        }
        for (auto& r : rs) {
            bool threw = false;
            std::string what;
            try { r->p->wait(); } catch (const stxxl::io_error& e) { threw = true; what = e.what(); }
            PBT_EQ(r->handled.load(), 1, "calls of the handler of slot " << r->slot);
            if (r->err) {
                PBT_CHECK(threw, "the failing " << (r->write ? "write" : "read") << " of slot " << r->slot << " reported success");
                bool again = false;
                try { r->p->poll(); } catch (const stxxl::io_error&) { again = true; }
                PBT_CHECK(again, "poll() does not report the error");
            }
            else if (!(kind == 2 && r->shrt)) PBT_CHECK(!threw, "the request of slot " << r->slot << " failed although nothing went wrong: " << what);
            if (!threw && !r->write)
                for (uint64_t i = 0; i < g_range; ++i) PBT_CHECK(r->expect[i] < 0 || r->buf[i] == r->expect[i], "read of slot " << r->slot << " returned byte " << i << " = " << (int)r->buf[i] << ", expected " << r->expect[i]);
            if (r->write)
                for (uint64_t i = 0; i < g_range; ++i) m[r->slot * g_range + i] = threw ? -1 : (int)pat(r->id, r->slot * g_range + i);
            if (!r->write && threw && r->err) pbt::label("read errors");
            if (r->write && threw && r->err) pbt::label("write errors");
        }
        g_on = false;
        PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
        for (auto& r : rs) {
            for (int k = 0; k < 40000 && r->p->get_reference_count() != 1; ++k) usleep(50);
            PBT_EQ(r->p->get_reference_count(), 1u, "references to the finished request of slot " << r->slot);
            stxxl::aligned_dealloc<B>(r->buf);
        }
        if (cut) f->set_size(bytes);
        // a size that cannot be changed
        if (kind != 1 && s.chance(1, 4)) {
            bool threw = false;
            g_ftruncate_err = s.pick({ ENOSPC, EFBIG, EIO });
            try { f->set_size(s.raw(2 * bytes)); } catch (const stxxl::io_error&) { threw = true; }
            g_ftruncate_err = 0;
            PBT_CHECK(threw, "set_size reported success although it failed");
            PBT_EQ(f->size(), bytes, "size after a failed set_size");
        }
        // everything still works, and the other places hold what they held
        unsigned char* buf = (unsigned char*)stxxl::aligned_alloc<B>(g_range);
        for (unsigned i = 0; i < n; ++i) {
            f->aread(buf, i * g_range, g_range)->wait();
            for (uint64_t j = 0; j < g_range; ++j) PBT_CHECK(m[i * g_range + j] < 0 || buf[j] == m[i * g_range + j], "slot " << i << " holds " << (int)buf[j] << " at " << j << ", expected " << m[i * g_range + j]);
        }
        stxxl::aligned_dealloc<B>(buf);
    }
    if (g_injected || g_shorts) pbt::nontrivial();
    pbt::label("injected errors", g_injected);
    pbt::label("short transfers", g_shorts);
    pbt::label(kind == 0 ? "syscall" : kind == 1 ? "mmap" : "linuxaio");
}
PBT_TARGET_F(faults, 2500, 40000, 1, faults);

static void opening(pbt::Src& s)
{
    g_on = false; g_open_err = 0;
    static const char* impls[] = { "syscall", "mmap", "linuxaio", "fileperblock_syscall" };
    std::string impl = impls[s.raw(3)];
    std::string dir = pbt::scratch(), path = dir + "/g";
    bool exists = s.chance(1, 2), creat = s.chance(1, 2), missing_dir = s.chance(1, 6);
    if (missing_dir) { path = dir + "/no/such/dir"; exists = false; }
    if (exists) { std::ofstream o(path.c_str()); o << "abc"; }
    int mode = file::RDWR | (creat ? file::CREAT : 0);
    int direct = (int)s.raw(3);                     // off, try, require
    if (direct == 1) mode |= file::DIRECT;
    if (direct == 2) mode |= file::DIRECT | file::REQUIRE_DIRECT;
    int err = s.chance(1, 2) ? (int)s.pick({ EINVAL, EMFILE, EACCES }) : 0;
    g_open_times = 1; g_open_err = err;
    PBT_NOTE(impl << (exists ? " existing" : "") << (creat ? " creat" : "") << " direct " << direct << " errno " << err);
    bool ok = exists || (creat && !missing_dir);
    if (err == EINVAL) ok = ok && direct != 2;      // falls back without direct access unless it is required
    else if (err) ok = false;
    bool threw = false;
    {
        std::unique_ptr<file> f;
        try { f.reset(stxxl::create_file(impl, path, mode, impl == "linuxaio" ? file::DEFAULT_LINUXAIO_QUEUE : 3)); }
        catch (const stxxl::io_error&) { threw = true; }
        g_open_err = 0;
        PBT_EQ(!threw, ok, "opening succeeded");
        if (f) { f->set_size(8192); PBT_EQ(f->size(), 8192u, "size"); }
        else PBT_EQ(access(path.c_str(), F_OK) == 0, exists, "file exists after a failed open");
    }
    // an implementation nobody knows
    bool bad = false;
    try { delete stxxl::create_file("no_such_impl", path, mode); } catch (const std::runtime_error&) { bad = true; }
    PBT_CHECK(bad, "an unknown implementation was accepted");
    pbt::ops();
    if (err || !ok) pbt::nontrivial();
}
PBT_TARGET_F(opening, 400, 4000, 10, opening);
