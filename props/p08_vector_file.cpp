// Vectors mapped to files: the file holds exactly the elements, across sessions, file access methods and exports.
#include "common.hpp"
#include <stxxl/bits/containers/vector.h>
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <stxxl/bits/io/linuxaio_file.h>
#include <fstream>
#include <iterator>
#include <sys/stat.h>

static std::string slurp(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static const int64_t UNK = -1;

static stxxl::file* open_file(int kind, const std::string& path, int mode)
{
    switch (kind) {
    case 1: return new stxxl::mmap_file(path, mode);
    case 2: return new stxxl::linuxaio_file(path, mode);
    default: return new stxxl::syscall_file(path, mode);
    }
}

template <class T, unsigned PageSize, unsigned BlockSize>
static void run_file(pbt::Src& s)
{
    typedef stxxl::vector<T, PageSize, stxxl::lru_pager<3>, BlockSize> V;
    typedef Val<T> VT;
    const uint64_t B = V::block_type::size;
    using stxxl::file;
    stx::setup(s);
    uint64_t max = std::min<uint64_t>(10 * B + 3, 9000);
    std::string path = std::string(pbt::scratch()) + "/vec.dat";
    std::vector<int64_t> m;                  // content of the file
    uint32_t next = 1;
    bool changed = false;

    auto check_file = [&](const std::string& f, uint64_t first, uint64_t n, const char* what) {
        std::string raw = slurp(f);
        PBT_EQ(raw.size(), n * sizeof(T), what << ": length of " << f);
        for (uint64_t i = 0; i < n; ++i) {
            T x;
            memcpy((void*)&x, raw.data() + i * sizeof(T), sizeof(T));
            if (m[first + i] != UNK) PBT_CHECK(VT::get(x) == m[first + i], what << ": element " << first + i << " in file is " << VT::get(x) << ", expected " << m[first + i]);
        }
    };
    // the file as some other program left it
    {
        uint64_t n = s.size(max, B);
        std::ofstream f(path.c_str(), std::ios::binary);
        for (uint64_t i = 0; i < n; ++i) { T x = VT::make(next); m.push_back(VT::norm(next++)); f.write((const char*)&x, sizeof x); }
        PBT_NOTE("initial " << n);
    }
    unsigned sessions = (unsigned)s.range(1, 5);
    for (unsigned se = 0; se < sessions; ++se) {
        int kind = (int)s.raw(3);
        bool ro = kind == 0 && s.chance(1, 6);
        bool trunc = !ro && s.chance(1, 10);
        int mode = ro ? file::RDONLY : file::RDWR | file::CREAT | (trunc ? file::TRUNC : 0);
        if (s.chance(1, 4)) mode |= file::DIRECT;
        if (trunc) m.clear();
        PBT_NOTE("| session " << (kind == 0 ? "syscall" : kind == 1 ? "mmap" : "linuxaio") << (ro ? " ro" : "") << (trunc ? " trunc" : "") << (mode & file::DIRECT ? " direct" : ""));
        stxxl::file* f = open_file(kind, path, mode);
        bool exported = false;
        {
            V* pv;
            if (s.chance(1, 4)) pv = new V(f, m.size(), 1 + (unsigned)s.raw(3));
            else pv = new V(f);
            V& v = *pv;
            const V& c = v;
            PBT_EQ(v.size(), m.size(), "size of the vector over the file");
            PBT_CHECK(v.get_file() == f, "get_file");
            unsigned nops = (unsigned)s.raw(14);
            for (unsigned op = 0; op < nops; ++op) {
                pbt::ops();
                switch (s.weighted({ 6, 5, 5, 3, 4, 3, 3, 3, 2, 1 })) {
                case 0: { // reads
                    unsigned cnt = (unsigned)s.raw(8);
                    PBT_NOTE("get*" << cnt);
                    for (unsigned i = 0; i < cnt && m.size(); ++i) { uint64_t p = s.raw(m.size()); if (m[p] != UNK) PBT_EQ(VT::get(c[p]), m[p], "element " << p); }
                    break;
                }
                case 1: { // writes
                    if (ro) break;
                    unsigned cnt = (unsigned)s.raw(8);
                    PBT_NOTE("set*" << cnt);
                    for (unsigned i = 0; i < cnt && m.size(); ++i) { uint64_t p = s.raw(m.size()); v[p] = VT::make(next); m[p] = VT::norm(next++); changed = true; }
                    break;
                }
                case 2: {
                    if (ro) break;
                    unsigned cnt = (unsigned)s.raw(s.chance(1, 2) ? 2 * B + 3 : 4);
                    if (m.size() + cnt > max) break;
                    PBT_NOTE("push*" << cnt);
                    for (unsigned i = 0; i < cnt; ++i) { v.push_back(VT::make(next)); m.push_back(VT::norm(next++)); changed = true; }
                    break;
                }
                case 3: {
                    if (ro) break;
                    unsigned cnt = (unsigned)s.raw(s.chance(1, 2) ? 2 * B + 3 : 4);
                    PBT_NOTE("pop*" << cnt);
                    for (unsigned i = 0; i < cnt && m.size(); ++i) { v.pop_back(); m.pop_back(); changed = true; }
                    break;
                }
                case 4: {
                    if (ro) break;
                    uint64_t n = s.size(max, B);
                    bool sh = s.chance(1, 2);
                    PBT_NOTE("resize(" << n << (sh ? ",shrink)" : ")"));
                    v.resize(n, sh); m.resize(n, UNK); changed = true;
                    break;
                }
                case 5: PBT_NOTE("flush"); v.flush(); break;
                case 6: {
                    PBT_NOTE("bufread");
                    typename V::bufreader_type r(c);
                    uint64_t i = 0;
                    for ( ; !r.empty(); ++r, ++i) if (m[i] != UNK) PBT_EQ(VT::get(*r), m[i], "buffered read of element " << i);
                    PBT_EQ(i, m.size(), "buffered read length");
                    break;
                }
                case 7: {
                    if (ro) break;
                    uint64_t a = s.chance(1, 2) ? 0 : s.raw(m.size() + 1), cnt = s.size(std::min<uint64_t>(max - a, 4 * B), B);
                    PBT_NOTE("bufwrite " << cnt << "@" << a);
                    typename V::bufwriter_type w(v.begin() + a);
                    for (uint64_t i = 0; i < cnt; ++i) {
                        w << VT::make(next);
                        if (a + i < m.size()) m[a + i] = VT::norm(next); else m.push_back(VT::norm(next));
                        ++next; changed = true;
                    }
                    break;
                }
                case 8: {
                    if (ro) break;
                    PBT_NOTE("reserve"); v.reserve(s.size(max, B)); break;
                }
                case 9: {
                    if (ro) break;
                    PBT_NOTE("clear"); v.clear(); m.clear(); changed = true; break;
                }
                }
                PBT_EQ(v.size(), m.size(), "size");
            }
            delete pv;
        }
        delete f;
        if (!exported) check_file(path, 0, m.size(), "after the session");
    }
    // the last state is what a fresh reader sees
    for (uint64_t i = 0; i < m.size(); ++i) if (m[i] == UNK) { std::fstream g(path.c_str(), std::ios::in | std::ios::out | std::ios::binary); T x = VT::make(next); m[i] = VT::norm(next++); g.seekp(i * sizeof(T)); g.write((const char*)&x, sizeof x); }
    {
        stxxl::syscall_file f(path, file::RDONLY);
        const V v(&f);
        PBT_EQ(v.size(), m.size(), "size on reopening");
        uint64_t i = 0;
        for (typename V::const_iterator it = v.begin(); it != v.end(); ++it, ++i) PBT_EQ(VT::get(*it), m[i], "element on reopening");
    }
    stx::check_no_blocks("with vectors on files only");
    if (changed && sessions >= 2 && m.size() > B) pbt::nontrivial();
}

// export of a vector that lives on the disks: pieces numbered in order, together the elements
template <class T, unsigned BlockSize>
static void run_export(pbt::Src& s)
{
    typedef stxxl::vector<T, 2, stxxl::lru_pager<3>, BlockSize> V;
    typedef Val<T> VT;
    const uint64_t B = V::block_type::size;
    // only file-per-block disks can hand out blocks as files
    unsigned nd = 1 + (unsigned)s.raw(3);
    for (unsigned i = 0; i < nd; ++i) {
        stxxl::disk_config d(std::string(pbt::scratch()) + "/fpb" + std::to_string(i), 0, "fileperblock_syscall");
        d.autogrow = true; d.direct = stxxl::disk_config::DIRECT_OFF;
        stxxl::config::get_instance()->add_disk(d);
    }
    const std::string prefix = std::string(pbt::scratch()) + "/export.";   // exported next to the disks
    uint64_t n = s.size(8 * B, B);
    PBT_NOTE("export of " << n << " elements from " << nd << " disks");
    std::vector<int64_t> m;
    {
        V v;
        uint32_t next = 1 + (uint32_t)s.raw(1000);
        for (uint64_t i = 0; i < n; ++i) { v.push_back(VT::make(next)); m.push_back(VT::norm(next++)); }
        if (s.chance(1, 2)) for (int i = 0; i < 5 && n; ++i) { uint64_t p = s.raw(n); v[p] = VT::make(next); m[p] = VT::norm(next++); }
        v.flush();
        v.export_files("export.");
    }
    uint64_t pieces = (n + B - 1) / B, at = 0;
    for (uint64_t p = 0; p < pieces; ++p) {
        char no[16]; snprintf(no, sizeof no, "%09u", (unsigned)p);
        std::string raw = slurp(prefix + no);
        uint64_t want = std::min<uint64_t>(B, n - at);
        PBT_EQ(raw.size(), want * sizeof(T), "length of piece " << p);
        for (uint64_t i = 0; i < want; ++i, ++at) {
            T x; memcpy((void*)&x, raw.data() + i * sizeof(T), sizeof(T));
            PBT_EQ(VT::get(x), m[at], "exported element " << at);
        }
    }
    PBT_EQ(at, n, "exported elements");
    if (pieces >= 2) pbt::nontrivial();
}

PBT_TARGET_F(file_u64_p1_4k, 700, 10000, 1, (run_file<uint64_t, 1, 4096>));
PBT_TARGET_F(file_r512_p2_4k, 900, 10000, 1, (run_file<Rec<512>, 2, 4096>));
PBT_TARGET_F(file_r64_p4_8k, 700, 10000, 1, (run_file<Rec<64>, 4, 8192>));
PBT_TARGET_F(export_r128, 200, 2000, 1, (run_export<Rec<128>, 4096>));
