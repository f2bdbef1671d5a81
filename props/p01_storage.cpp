// Every file implementation stores bytes: any schedule of non-overlapping outstanding requests, resizing, reopening.
#include "common.hpp"
#include <stxxl/bits/io/io.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <deque>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <atomic>
#include <fcntl.h>
#include <unistd.h>

using stxxl::file;
static const int UNK = -1;

// the bytes written by the write number `id` at file position p
static inline unsigned char pat(uint32_t id, uint64_t p)
{
    uint64_t h = (p ^ ((uint64_t)id << 32)) * 0x9E3779B97F4A7C15ull;
    return (unsigned char)(h >> 56);
}

struct Count { std::atomic<int>* n; void operator () (stxxl::request*) { ++*n; } };

// an aligned buffer with guarded ends
struct Buf
{
    size_t n; unsigned char* raw; unsigned char* p;
    explicit Buf(size_t n_) : n(n_)
    {
        raw = (unsigned char*)stxxl::aligned_alloc<STXXL_BLOCK_ALIGN>(n + 2 * STXXL_BLOCK_ALIGN);
        p = raw + STXXL_BLOCK_ALIGN;
        memset(raw, 0xEE, n + 2 * STXXL_BLOCK_ALIGN);
    }
    ~Buf() { stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(raw); }
    bool guards() const
    {
        for (size_t i = 0; i < STXXL_BLOCK_ALIGN; ++i) if (raw[i] != 0xEE || p[n + i] != 0xEE) return false;
        return true;
    }
};

struct Pending
{
    bool write; uint64_t off, len; std::unique_ptr<Buf> buf; std::vector<int> expect; uint32_t id;
    stxxl::request_ptr req; std::unique_ptr<std::atomic<int> > handled; bool with_handler;
};

struct Model
{
    std::vector<int> bytes;        // -1 unknown
    uint64_t size() const { return bytes.size(); }
};

struct Sess
{
    file* f = nullptr;
    Model m;
    std::deque<Pending> out;
    uint32_t next = 1;
    uint64_t settled = 0;          // the file is at least this long: finished writes and set_size

    static std::vector<int> slice(const Model& m, uint64_t off, uint64_t len, bool zero_tail)
    {
        std::vector<int> r(len, zero_tail ? 0 : UNK);
        for (uint64_t i = 0; i < len && off + i < m.size(); ++i) r[i] = m.bytes[off + i];
        return r;
    }
    bool overlaps(uint64_t off, uint64_t len, bool writes_only)
    {
        for (auto& p : out) if ((p.write || !writes_only) && p.off < off + len && off < p.off + p.len) return true;
        return false;
    }
    void finish(Pending& p)
    {
        p.req->wait();
        PBT_CHECK(p.req->poll(), "a request that was waited for is not finished");
        PBT_CHECK(p.buf->guards(), "bytes outside the buffer of a request were changed");
        if (p.with_handler) PBT_EQ(p.handled->load(), 1, "calls of the completion handler");
        check_buf(p.write, p.off, p.len, *p.buf, p.expect, p.id);
    }
    static void check_buf(bool write, uint64_t off, uint64_t len, Buf& b, const std::vector<int>& expect, uint32_t id)
    {
        if (write) {
            for (uint64_t i = 0; i < len; ++i) PBT_CHECK(b.p[i] == pat(id, off + i), "a write changed its buffer at " << i);
        }
        else {
            for (uint64_t i = 0; i < len; ++i)
                PBT_CHECK(expect[i] == UNK || b.p[i] == expect[i], "read of " << len << "@" << off << ": byte at file position " << off + i << " is " << (int)b.p[i] << ", expected " << expect[i]);
        }
    }
    void finish_one(size_t i) { finish(out[i]); out.erase(out.begin() + i); }
    void finish_overlapping(uint64_t off, uint64_t len)
    {
        for (size_t i = 0; i < out.size(); ) if (out[i].off < off + len && off < out[i].off + out[i].len) finish_one(i); else ++i;
    }
    void finish_all() { while (out.size()) finish_one(0); settled = m.size(); }

    void apply_write(uint64_t off, uint64_t len, uint32_t id)
    {
        if (off > m.size()) m.bytes.resize(off, 0);
        if (off + len > m.size()) m.bytes.resize(off + len, 0);
        for (uint64_t i = 0; i < len; ++i) m.bytes[off + i] = pat(id, off + i);
    }
    void io(pbt::Src& s, bool write, uint64_t off, uint64_t len, bool zero_tail)
    {
        finish_overlapping(off, len);
        Pending p;
        p.write = write; p.off = off; p.len = len; p.id = next++;
        p.buf.reset(new Buf(len));
        if (write) { for (uint64_t i = 0; i < len; ++i) p.buf->p[i] = pat(p.id, off + i); apply_write(off, len, p.id); }
        else p.expect = slice(m, off, len, zero_tail);
        if (s.chance(1, 10)) {
            PBT_NOTE((write ? "serve-w " : "serve-r ") << len << "@" << off);
            f->serve(p.buf->p, off, len, write ? stxxl::request::WRITE : stxxl::request::READ);
            PBT_CHECK(p.buf->guards(), "bytes outside the buffer of a request were changed");
            check_buf(write, off, len, *p.buf, p.expect, p.id);
            return;
        }
        p.with_handler = s.chance(1, 3);
        p.handled.reset(new std::atomic<int>(0));
        stxxl::completion_handler h;
        if (p.with_handler) h = stxxl::completion_handler(Count { p.handled.get() });
        PBT_NOTE((write ? "w " : "r ") << len << "@" << off);
        p.req = write ? f->awrite(p.buf->p, off, len, h) : f->aread(p.buf->p, off, len, h);
        out.push_back(std::move(p));
    }
};

static file* make(const std::string& impl, const std::string& path, int mode, int queue, bool factory)
{
    if (factory) return stxxl::create_file(impl, path, mode, impl == "linuxaio" ? file::DEFAULT_LINUXAIO_QUEUE : queue);
    if (impl == "syscall") return new stxxl::syscall_file(path, mode, queue);
    if (impl == "mmap") return new stxxl::mmap_file(path, mode, queue);
    if (impl == "linuxaio") return new stxxl::linuxaio_file(path, mode);
    if (impl == "simdisk") return new stxxl::sim_disk_file(path, mode, queue);
    if (impl == "memory") return new stxxl::mem_file(queue);
    abort();
}

static void verify_bytes(const std::string& path, const Model& m)
{
    std::ifstream f(path.c_str(), std::ios::binary);
    std::string raw((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    PBT_EQ(raw.size(), m.size(), "length of the file on disk");
    for (uint64_t i = 0; i < raw.size(); ++i)
        PBT_CHECK(m.bytes[i] == UNK || (unsigned char)raw[i] == m.bytes[i], "byte " << i << " on disk is " << (int)(unsigned char)raw[i] << ", expected " << m.bytes[i]);
}

// files with a flat byte array behind them
static void flat(pbt::Src& s)
{
    unsigned nf = (unsigned)s.range(1, 2);
    Sess fs[2];
    std::string impl[2], path[2];
    uint64_t unit[2];
    uint64_t issued = 0, growths = 0;
    auto open = [&](unsigned k, bool first) {
        static const char* names[] = { "syscall", "mmap", "linuxaio", "memory", "simdisk" };
        size_t w = first ? s.weighted({ 5, 4, 4, 3, 1 }) : s.weighted({ 5, 4, 4 });
        impl[k] = names[w];
        path[k] = std::string(pbt::scratch()) + "/file" + std::to_string(k);
        int mode = file::RDWR | file::CREAT;
        if (s.chance(1, 4) && impl[k] != "simdisk") mode |= file::DIRECT;
        if (s.chance(1, 8)) mode |= file::SYNC;
        if (s.chance(1, 8)) mode |= file::NO_LOCK;
        bool trunc = s.chance(1, 10);
        if (trunc) { mode |= file::TRUNC; if (!first) fs[k].m.bytes.clear(); }
        unit[k] = 4096;
        if ((impl[k] == "syscall" && !(mode & file::DIRECT)) || impl[k] == "memory") unit[k] = s.pick({ 4096u, 512u, 24u, 1000u });
        PBT_NOTE((first ? "[" : "[re") << "open " << k << " " << impl[k] << (mode & file::DIRECT ? " direct" : "") << (trunc ? " trunc" : "") << " unit " << unit[k] << "]");
        fs[k].f = make(impl[k], path[k], mode, s.pick({ -1, 0, 1 }), s.chance(1, 3));
        PBT_EQ(fs[k].f->size(), fs[k].m.size(), "size of the opened file");
        fs[k].settled = fs[k].m.size();
    };
    for (unsigned k = 0; k < nf; ++k) open(k, true);
    unsigned nops = (unsigned)s.range(1, 60);
    for (unsigned op = 0; op < nops; ++op) {
        unsigned k = nf > 1 ? (unsigned)s.raw(2) : 0;
        Sess& x = fs[k];
        bool slow = impl[k] == "simdisk", sized = impl[k] == "mmap" || impl[k] == "memory" || slow;  // requests have to lie inside
        uint64_t U = unit[k], maxu = slow ? 8 : 40;
        pbt::ops();
        switch (s.weighted({ 10, 9, 4, 3, 2, 2, 1 })) {
        case 0: case 1: {
            bool write = s.chance(1, 2);
            if (slow && s.chance(3, 4)) break;
            uint64_t len = U * s.range(1, s.chance(1, 6) ? 12 : 4), off = U * s.raw(maxu);
            if (sized) { if (off >= x.m.size()) break; if (off + len > x.m.size()) { len = (x.m.size() - off) / U * U; if (!len) break; } }
            else if (!write && off >= x.m.size()) { if (x.m.size() == 0) break; off = (x.m.size() - 1) / U * U; }
            // a write past the end moves the end: nothing else may be looking at it
            if (!sized && write && off + len > x.m.size()) {
                for (size_t i = 0; i < x.out.size(); ) if (!x.out[i].write && x.out[i].off + x.out[i].len > x.m.size()) x.finish_one(i); else ++i;
                ++growths;
            }
            // a read across the end, or of what a write in flight appends, needs the end to be where the model has it
            if (!sized && !write && off + len > x.settled) x.finish_all();
            // mmap-ed files need the length as well when another request is still growing the file: only set_size grows them
            x.io(s, write, off, len, !sized);
            ++issued;
            break;
        }
        case 2: { // wait for some
            if (x.out.empty()) break;
            size_t i = s.raw(x.out.size());
            PBT_NOTE("wait#" << i);
            x.finish_one(i);
            break;
        }
        case 3: { // set_size
            uint64_t n = U * s.raw(maxu + 1);
            if (impl[k] == "syscall" && U != 4096 && s.chance(1, 2)) n += s.raw(U);
            if (slow && n < x.m.size()) break;
            PBT_NOTE("set_size " << n);
            x.finish_all();
            uint64_t old = x.m.size();
            x.f->set_size(n);
            x.m.bytes.resize(n, impl[k] == "memory" ? UNK : 0);
            x.settled = n;
            if (impl[k] == "memory" && n == 0) { /* nothing is left */ }
            ++growths;
            (void)old;
            PBT_EQ(x.f->size(), n, "size after set_size");
            break;
        }
        case 4: { // whole file
            PBT_NOTE("readall");
            x.finish_all();
            PBT_EQ(x.f->size(), x.m.size(), "size");
            for (uint64_t off = 0; off < x.m.size(); ) {
                uint64_t len = std::min<uint64_t>(U * s.range(4, 16), x.m.size() - off);
                if (len % U && impl[k] != "memory") { if (impl[k] == "mmap" || slow) break; len = (len / U + 1) * U; }
                if (slow && len > 4 * U) len = 4 * U;
                x.io(s, false, off, len, !sized);
                off += len;
            }
            x.finish_all();
            break;
        }
        case 5: { // discard
            if (!x.m.size()) break;
            uint64_t off = U * s.raw(x.m.size() / U + 1);
            if (off >= x.m.size()) break;
            uint64_t len = std::min<uint64_t>(U * s.range(1, 3), x.m.size() - off);
            x.finish_overlapping(off, len);
            PBT_NOTE("discard " << len << "@" << off);
            x.f->discard(off, len);
            for (uint64_t i = 0; i < len; ++i) x.m.bytes[off + i] = UNK;
            break;
        }
        case 6: { // close and reopen, maybe through another implementation
            if (impl[k] == "memory") break;
            if (impl[k] == "simdisk") break;
            x.finish_all();
            PBT_EQ(x.f->get_request_nref(), 0u, "requests still referring to the file");
            delete x.f; x.f = nullptr;
            verify_bytes(path[k], x.m);
            open(k, false);
            break;
        }
        }
        if (issued > 3 && growths && nops > 8) pbt::nontrivial();
    }
    for (unsigned k = 0; k < nf; ++k) {
        Sess& x = fs[k];
        x.finish_all();
        PBT_EQ(x.f->size(), x.m.size(), "size at the end");
        PBT_EQ(x.f->get_request_nref(), 0u, "requests still referring to the file");
        pbt::label(impl[k]);
        if (impl[k] == "memory") {
            if (x.m.size()) { x.io(s, false, 0, x.m.size(), false); x.finish_all(); }
            delete x.f;
            continue;
        }
        bool rem = s.chance(1, 4);
        if (rem) x.f->close_remove();
        delete x.f;
        if (rem) PBT_CHECK(access(path[k].c_str(), F_OK) != 0, "the file exists after close_remove");
        else verify_bytes(path[k], x.m);
    }
}
PBT_TARGET_F(flat_files, 4000, 60000, 10, flat);

// block stores: a block is addressed by the offset it was written to, with its own length
static void blocks(pbt::Src& s)
{
    bool wbtl = s.chance(1, 2);
    const uint64_t U = 4096;
    struct Blk { uint64_t len; uint32_t id; bool live; };
    std::map<uint64_t, Blk> m;                 // offset -> content
    std::vector<uint64_t> slots;               // block addresses, lengths fixed per address
    std::map<uint64_t, uint64_t> slot_len;
    unsigned nslots = (unsigned)s.range(1, 14);
    uint64_t pos = 0, blen = U * s.range(1, 4);
    bool uniform = s.chance(1, 2);
    for (unsigned i = 0; i < nslots; ++i) { uint64_t l = uniform ? blen : U * s.range(1, 4); slots.push_back(pos); slot_len[pos] = l; pos += l; }
    unsigned nops = (unsigned)s.range(1, 80);
    uint64_t wbs = U * s.range(4, 12);
    std::string path = std::string(pbt::scratch()) + "/store";
    file* f;
    if (wbtl) {
        file* backend;
        switch (s.raw(3)) {
        case 0: backend = new stxxl::syscall_file(path, file::RDWR | file::CREAT, 7); break;
        case 1: backend = new stxxl::mem_file(7); break;
        default: backend = new stxxl::mmap_file(path, file::RDWR | file::CREAT, 7); break;
        }
        f = new stxxl::wbtl_file(backend, wbs, 2, s.pick({ -1, 0, 1 }));
        // room for every write to open a buffer of its own
        uint64_t total = wbs * (nops + 3), first = s.chance(1, 3) ? wbs * s.range(1, nops + 3) : total;
        f->set_size(std::max(first, pos));
        if (std::max(first, pos) < total) f->set_size(total);
    }
    else if (s.chance(1, 2)) f = new stxxl::fileperblock_file<stxxl::syscall_file>(path, file::RDWR | file::CREAT, 1);
    else f = new stxxl::fileperblock_file<stxxl::mmap_file>(path, file::RDWR | file::CREAT, 1);
    if (!wbtl) { if (s.chance(1, 2)) f->lock(); f->set_size(pos); PBT_EQ(f->size(), pos, "size"); }
    PBT_NOTE((wbtl ? "wbtl buffer " : "fileperblock ") << (wbtl ? wbs : 0) << " slots " << nslots);
    Sess x;
    x.f = f;
    uint64_t rewrites = 0;
    std::map<uint64_t, uint32_t> content;
    auto finish_at = [&](uint64_t off) { x.finish_overlapping(off, slot_len[off]); };
    auto issue = [&](bool write, uint64_t off) {
        uint64_t len = slot_len[off];
        finish_at(off);
        Pending p;
        p.write = write; p.off = off; p.len = len; p.id = x.next++;
        p.buf.reset(new Buf(len));
        if (write) { for (uint64_t i = 0; i < len; ++i) p.buf->p[i] = pat(p.id, off + i); if (content.count(off)) ++rewrites; content[off] = p.id; }
        else { p.expect.resize(len); for (uint64_t i = 0; i < len; ++i) p.expect[i] = pat(content[off], off + i); }
        p.with_handler = s.chance(1, 3);
        p.handled.reset(new std::atomic<int>(0));
        stxxl::completion_handler h;
        if (p.with_handler) h = stxxl::completion_handler(Count { p.handled.get() });
        PBT_NOTE((write ? "w " : "r ") << off / U);
        p.req = write ? f->awrite(p.buf->p, off, len, h) : f->aread(p.buf->p, off, len, h);
        x.out.push_back(std::move(p));
    };
    for (unsigned op = 0; op < nops; ++op) {
        pbt::ops();
        uint64_t off = slots[s.raw(slots.size())];
        switch (s.weighted({ 10, 6, 3, 3 })) {
        case 0: issue(true, off); break;
        case 1: if (content.count(off)) issue(false, off); break;
        case 2: // give a block back; requests for other blocks are under way
            if (!content.count(off)) break;
            finish_at(off);
            PBT_NOTE("discard " << off / U);
            f->discard(off, slot_len[off]);
            content.erase(off);
            break;
        case 3:
            if (x.out.empty()) break;
            { size_t i = s.raw(x.out.size()); PBT_NOTE("wait#" << i); x.finish_one(i); }
            break;
        }
        if (rewrites > 2) pbt::nontrivial();
    }
    for (auto& c : std::map<uint64_t, uint32_t>(content)) issue(false, c.first);
    x.finish_all();
    if (!wbtl) {
        // one file per block, holding just this block
        for (auto& c : content) {
            std::ostringstream n;
            n << path << "_fpb_";
            n.width(20); n.fill('0'); n << c.first;
            std::ifstream g(n.str().c_str(), std::ios::binary);
            std::string raw((std::istreambuf_iterator<char>(g)), std::istreambuf_iterator<char>());
            PBT_EQ(raw.size(), slot_len[c.first], "length of the file of block " << c.first / U);
            for (uint64_t i = 0; i < raw.size(); ++i) PBT_CHECK((unsigned char)raw[i] == pat(c.second, c.first + i), "file of block " << c.first / U << " differs at " << i);
        }
        for (auto o : slots) if (!content.count(o)) {
            std::ostringstream n;
            n << path << "_fpb_";
            n.width(20); n.fill('0'); n << o;
            PBT_CHECK(access(n.str().c_str(), F_OK) != 0, "the file of a discarded block exists");
        }
    }
    PBT_EQ(f->get_request_nref(), 0u, "requests still referring to the file");
    pbt::label(wbtl ? "wbtl" : "fileperblock");
    delete f;
}
PBT_TARGET_F(block_stores, 3000, 50000, 10, blocks);
