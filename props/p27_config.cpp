// Sizes, disk configuration lines and files, the disks they make, and command lines.
#include "common.hpp"
#include <stxxl/bits/common/cmdline.h>
#include <stxxl/bits/common/utils.h>
#include <stxxl/bits/io/file.h>
#include <stxxl/bits/io/create_file.h>
#include <stxxl/bits/mng/typed_block.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <functional>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned __int128 u128;
static u128 ipow(u128 b, unsigned e) { u128 r = 1; while (e--) r *= b; return r; }

struct Size { std::string text; u128 value; };
// a size in words, and what it means; def: the unit of a bare number
static Size size_text(pbt::Src& s, char def, unsigned max_power = 5, uint64_t max_number = 0)
{
    Size r;
    uint64_t n;
    if (max_number) n = s.raw(max_number + 1);
    else switch (s.raw(4)) {
        case 0: n = s.raw(10); break;
        case 1: n = s.raw(100000); break;
        case 2: n = s.bits() >> s.raw(64); break;
        default: n = (1ull << s.raw(64)) - s.raw(3); break;
        }
    r.text = std::string(s.chance(1, 6) ? s.raw(3) : 0, ' ') + std::string(s.chance(1, 10) ? s.raw(4) : 0, '0') + std::to_string(n) + std::string(s.chance(1, 3) ? s.raw(3) : 0, ' ');
    unsigned power = (unsigned)s.raw(max_power + 1);
    bool iec = power && s.chance(1, 2), byte = s.chance(1, 2);
    if (power) { char c = "kmgtp"[power - 1]; r.text += s.chance(1, 2) ? c : (char)(c - 32); }
    if (iec) r.text += s.chance(1, 2) ? 'i' : 'I';
    if (byte) r.text += s.chance(1, 2) ? 'b' : 'B';
    r.text += std::string(s.chance(1, 5) ? s.raw(3) : 0, ' ');
    u128 mul = ipow(iec ? 1024 : 1000, power);
    if (!power && !byte) {
        static const std::string lower = "kmgtp", upper = "KMGTP";
        size_t p = lower.find(def);
        if (def && p != std::string::npos) mul = ipow(1000, (unsigned)p + 1);
        p = upper.find(def);
        if (def && p != std::string::npos) mul = ipow(1024, (unsigned)p + 1);
    }
    r.value = (u128)n * mul;
    return r;
}
static const char* const garbage[] = { "x", "kk", "ib", "K i B", "Mx", "1", "GiBB", "B B", ",", "E", "-", "iB", "bK", "\t", "KBi", "." };

PBT_TARGET(sizes, 60000, 800000, 100)
{
    char def = s.pick({ '\0', '\0', 'k', 'm', 'g', 't', 'p', 'K', 'M', 'G', 'T', 'P', 'x' });
    Size z = size_text(s, def);
    PBT_NOTE("'" << z.text << "' default '" << (def ? def : '-') << "' ");
    stxxl::uint64 got = 12345;
    bool ok = stxxl::parse_SI_IEC_size(z.text, got, def);
    bool fits = z.value <= (u128)~0ull;
    PBT_EQ(ok, fits, "'" << z.text << "' is a size that " << (fits ? "fits" : "does not fit") << " into 64 bits");
    if (ok) PBT_EQ((uint64_t)got, (uint64_t)z.value, "value of '" << z.text << "'");
    pbt::ops();
    // trailing garbage, and no number at all, are refused
    std::string bad = s.chance(3, 4) ? z.text + "x" : z.text + (z.text.find_first_not_of("0123456789 ") == std::string::npos ? " " : "") + s.pick({ "x", "%", "_", "Z", ",", "..", "?" });
    if (s.chance(1, 4)) bad = s.pick({ "", " ", "KiB", "x", "B", "-", "  GB", "one" });
    PBT_CHECK(!stxxl::parse_SI_IEC_size(bad, got, def), "'" << bad << "' is accepted as the size " << got);
    // printing keeps the value up to rounding
    uint64_t v = s.chance(1, 3) ? (uint64_t)z.value : s.bits() >> s.raw(64);
    for (int iec = 0; iec < 2; ++iec) {
        std::string t = iec ? stxxl::format_IEC_size(v) : stxxl::format_SI_size(v);
        size_t sp = t.find(' ');
        PBT_CHECK(sp != std::string::npos, "formatted as '" << t << "'");
        double num = atof(t.c_str());
        std::string unit = t.substr(sp + 1);
        static const char* const si[] = { "", "k", "M", "G", "T", "P", "E" };
        unsigned p = 0;
        for (; p < 7; ++p) if (unit == (iec && p == 1 ? std::string("Ki") : std::string(si[p]) + (iec && p ? "i" : ""))) break;
        PBT_CHECK(p < 7, "unit in '" << t << "'");
        double base = iec ? 1024.0 : 1000.0, scale = pow(base, p);
        PBT_CHECK(std::fabs(num * scale - (double)v) <= scale * 0.000501 + (double)v * 1e-12, v << " is printed as '" << t << "'");
        PBT_CHECK(num <= base && (p == 0 || num >= 1.0), v << " is printed as '" << t << "'");
        // and is read back
        if (s.chance(1, 2) && v < (1ull << 60)) {
            std::string whole = t.substr(0, t.find('.')) + t.substr(sp);
            if (p <= 5) {
                PBT_CHECK(stxxl::parse_SI_IEC_size(whole + "B", got, 0), "'" << whole << "B'");
                PBT_CHECK(std::fabs((double)got - (double)v) <= scale * 1.001, v << " is printed as '" << t << "' and read as " << got);
            }
        }
    }
    if (z.value > 1000 && fits) pbt::nontrivial();
}

PBT_TARGET(splitting, 30000, 300000, 100)
{
    std::string sep = s.pick({ ",", "=", " ", "::", "ab", ", " });
    unsigned n = (unsigned)s.raw(7);
    std::string t, alphabet = std::string("abx,=: ") + sep;
    for (unsigned k = (unsigned)s.raw(25); k; --k) { if (s.chance(1, 4)) t += sep; else t += alphabet[s.raw(alphabet.size())]; }
    unsigned lo = (unsigned)s.raw(5), hi = s.chance(1, 2) ? ~0u : std::max(1u, std::max(lo, n));
    PBT_NOTE("'" << t << "' at '" << sep << "' " << lo << ".." << (hi == ~0u ? -1 : (int)hi) << " ");
    std::vector<std::string> want, got = hi == ~0u ? stxxl::split(t, sep, lo) : stxxl::split(t, sep, lo, hi);
    if (!t.empty()) {
        std::string rest = t;
        for ( ; ; ) {
            size_t p = 0;
            for ( ; p + sep.size() <= rest.size(); ++p) if (rest.compare(p, sep.size(), sep) == 0) break;
            if (p + sep.size() > rest.size() || want.size() + 1 == hi) { want.push_back(rest); break; }
            want.push_back(rest.substr(0, p));
            rest.erase(0, p + sep.size());
        }
    }
    while (want.size() < lo) want.push_back("");
    PBT_EQ(got.size(), want.size(), "fields of '" << t << "'");
    for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == want[i], "field " << i << " is '" << got[i] << "' instead of '" << want[i] << "'");
    pbt::ops();
    if (want.size() > 2) pbt::nontrivial();
}

// *** one line of a configuration file

struct Disk {
    std::string path; uint64_t size = 0; std::string impl;
    bool autogrow = true, del = false, flash = false, raw = false, unlink = false;
    int direct = 1, queue = stxxl::file::DEFAULT_QUEUE, queue_length = 0;
    unsigned devid = stxxl::file::DEFAULT_DEVICE_ID;
};
// options of a file access method, in any order and any spelling; later ones win
static std::string options(pbt::Src& s, Disk& d, unsigned max, bool open_only = false)
{
    std::string r;
    for (unsigned k = (unsigned)s.raw(max + 1); k; --k) {
        r += std::string(s.chance(1, 6) ? 1 + s.raw(3) : 1, ' ');
        switch (s.raw(7)) {
        case 0: { unsigned v = (unsigned)s.raw(6); r += std::vector<std::string>{ "autogrow", "noautogrow", "autogrow=on", "autogrow=off", "autogrow=yes", "autogrow=no" }[v]; d.autogrow = !(v & 1); } break;
        case 1: r += s.chance(1, 2) ? "delete" : "delete_on_exit"; d.del = true; break;
        case 2: { unsigned v = open_only ? 1 + 2 * (unsigned)s.raw(2) : (unsigned)s.raw(7); r += std::vector<std::string>{ "direct", "nodirect", "direct=on", "direct=off", "direct=yes", "direct=no", "direct=try" }[v]; d.direct = v == 6 ? 1 : v & 1 ? 0 : 2; } break;
        case 3: if (d.impl != "linuxaio") { d.queue = (int)s.raw(20); r += "queue=" + std::to_string(d.queue); } else { d.queue_length = (int)s.raw(200); r += "queue_length=" + std::to_string(d.queue_length); } break;
        case 4: d.devid = (unsigned)s.raw(50); r += (s.chance(1, 2) ? "devid=" : "device_id=") + std::to_string(d.devid); break;
        case 5: if (d.impl == "syscall" && !open_only) { d.raw = true; r += "raw_device"; } break;
        default: if (d.impl == "syscall" || d.impl == "linuxaio" || d.impl == "mmap" || d.impl == "wbtl") { d.unlink = true; r += s.chance(1, 2) ? "unlink" : "unlink_on_open"; } break;
        }
    }
    if (s.chance(1, 8)) r += " ";
    return r;
}
static const char* const impls[] = { "syscall", "memory", "linuxaio", "mmap", "fileperblock_syscall", "fileperblock_mmap", "wbtl", "boostfd", "something" };
static std::string path_text(pbt::Src& s)
{
    std::string r;
    static const std::string alphabet = "abz/._- 0#é";
    for (unsigned k = (unsigned)s.raw(12); k; --k) r += alphabet[s.raw(alphabet.size())];
    return r;
}
static std::string line(pbt::Src& s, Disk& d)
{
    d.impl = impls[s.raw(sizeof impls / sizeof *impls)];
    std::string p = path_text(s), pid = std::to_string(getpid());
    if (s.chance(1, 6)) p += "###";
    d.path = p;
    size_t at = p.find("###");
    if (at != std::string::npos) d.path = p.substr(0, at) + pid + p.substr(at + 3);
    Size z;
    do { z = size_text(s, 'M', 5, s.pick({ 5, 100, 20000 })); } while (z.value > (u128)~0ull);
    d.size = (uint64_t)z.value;
    d.flash = s.chance(1, 4);
    if (d.size == 0) d.autogrow = d.del = true;
    std::string r = std::string(d.flash ? "flash" : "disk") + "=" + p + "," + z.text + "," + std::string(s.chance(1, 4) ? s.raw(3) : 0, ' ') + d.impl;
    return r + options(s, d, 5);
}
static void check_disk(const stxxl::disk_config& c, const Disk& d, const char* what, bool opened = false)
{
    PBT_CHECK(c.path == d.path, what << ": path '" << c.path << "' instead of '" << d.path << "'");
    PBT_EQ((uint64_t)c.size, d.size, what << ": size");
    PBT_CHECK(c.io_impl == d.impl, what << ": access method '" << c.io_impl << "'");
    PBT_EQ(c.autogrow, d.autogrow, what << ": autogrow");
    PBT_EQ(c.delete_on_exit, d.del, what << ": delete");
    PBT_EQ((int)c.direct, d.direct, what << ": direct");
    PBT_EQ(c.flash, d.flash, what << ": flash");
    if (!opened) {
        PBT_EQ(c.queue, d.queue, what << ": queue");
        PBT_EQ(c.device_id, d.devid, what << ": device");
    }
    PBT_EQ(c.raw_device, d.raw, what << ": raw device");
    PBT_EQ(c.unlink_on_open, d.unlink, what << ": unlink");
    PBT_EQ(c.queue_length, d.queue_length, what << ": queue length");
}
static bool rejected(const std::string& l)
{
    try { stxxl::disk_config c(l); }
    catch (std::runtime_error&) { return true; }
    return false;
}
PBT_TARGET(lines, 60000, 600000, 100)
{
    Disk d;
    std::string l = line(s, d);
    PBT_NOTE("'" << l << "' ");
    stxxl::disk_config c(l);
    check_disk(c, d, "parsed");
    // an object that held another line
    Disk d0; std::string l0 = line(s, d0);
    stxxl::disk_config c0(l0);
    check_disk(c0, d0, "other");
    c0.parse_line(l);
    check_disk(c0, d, "parsed again");
    // the printed options mean the same
    if (!d.flash) {
        std::string f = c.fileio_string();
        stxxl::disk_config r(d.path, d.size, f);
        check_disk(r, d, "printed and parsed");
    }
    // and with the options given alone
    Disk e; e.path = d.path; e.size = d.size; e.impl = d.impl;
    std::string o = e.impl + options(s, e, 6);
    PBT_NOTE("'" << o << "' ");
    stxxl::disk_config g(e.path, e.size, o);
    check_disk(g, e, "given alone");
    pbt::ops(4);
    // what does not belong there is refused
    std::string bad;
    switch (s.raw(9)) {
    case 0: bad = l + " " + s.pick({ "x", "autogrow=maybe", "direct=1", "direct=", "autogrow=", "unlinked", "delete=yes", "queues=2", "Unlink", "raw", "flash", "devid=7x", "device_id=x" }); break;
    case 1: bad = s.pick({ "disks=", "Disk=", " disk=", "flash ", "", "d=" }) + l.substr(l.find('=') + 1); break;
    case 2: bad = std::string("disk=p,10") + s.pick({ "x", " q", "MM", "MiBs", "..", " 5" }) + std::string(",") + d.impl; break;
    case 3: bad = "disk=p,,syscall"; break;
    case 4: bad = s.pick({ "disk=p", "disk=", "disk=p,5", "disk=p,5,", "disk", "p,5,syscall", "flash=p,5,  " }); break;
    case 5: bad = std::string("disk=p,10,") + s.pick({ "linuxaio queue=3", "syscall queue_length=3", "memory queue_length=8", "linuxaio queue_length=3y", "syscall queue=1z" }); break;
    case 6: bad = std::string("disk=p,10,") + s.pick({ "memory", "linuxaio", "mmap", "wbtl", "fileperblock_syscall" }) + " raw_device"; break;
    case 7: bad = std::string("disk=p,10,") + s.pick({ "memory", "fileperblock_syscall", "fileperblock_mmap", "boostfd" }) + s.pick({ " unlink", " delete unlink_on_open" }); break;
    default: bad = "disk=p,30000P,syscall"; break;
    }
    PBT_CHECK(rejected(bad), "'" << bad << "' is accepted");
    if (d.devid != stxxl::file::DEFAULT_DEVICE_ID || d.direct != 1 || d.unlink) pbt::nontrivial();
}

// *** configuration files and disks, in a process of their own

static void inner(const std::function<void()>& f)
{
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    PBT_CHECK(p >= 0, "fork");
    if (p == 0) {
        try { f(); }
        catch (std::exception& e) { pbt::fail(std::string("exception: ") + e.what()); }
        exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    // a failure is recorded already
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
    PBT_CHECK(WIFEXITED(st), "the process ended with status " << st);
}
static void put_file(const std::string& p, const std::string& text) { std::ofstream o(p.c_str()); o << text; }
static bool exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }

PBT_TARGET(discovery, 2000, 12000, 1)
{
    std::string base = pbt::scratch();
    mkdir((base + "/cwd").c_str(), 0700);
    mkdir((base + "/home").c_str(), 0700);
    // every place there may be a file, in the documented order
    bool host = s.chance(1, 2), home = s.chance(4, 5), env = s.chance(1, 2), envfile = s.chance(2, 3);
    std::vector<std::pair<std::string, bool> > places = {
        { base + "/given", env }, { base + "/cwd/.stxxl.thathost", host }, { base + "/cwd/.stxxl", true },
        { base + "/home/.stxxl.thathost", host && home }, { base + "/home/.stxxl", home } };
    std::vector<Disk> want; bool chosen = false, empty = false;
    for (size_t i = 0; i < places.size(); ++i) {
        bool there = i == 0 ? envfile : s.chance(1, 3);
        if (!there) continue;
        std::string text; std::vector<Disk> regular, flash;
        for (unsigned k = (unsigned)s.raw(6); k; --k) {
            switch (s.raw(5)) {
            case 0: text += "# disk=/x,1,syscall\n"; break;
            case 1: text += "\n"; break;
            default: {
                Disk d;
                // the process that reads it has another number
                std::string l;
                do { d = Disk(); l = line(s, d); } while (l.find("###") != std::string::npos);
                d.path = "p" + std::to_string(i) + d.path; l.insert(l.find('=') + 1, "p" + std::to_string(i));
                d.del = false;
                if (l.find("delete") != std::string::npos || d.size == 0) { d.del = true; }
                (d.flash ? flash : regular).push_back(d); text += l + "\n";
            } break;
            }
        }
        if (!text.empty() && s.chance(1, 4)) text.erase(text.size() - 1);
        put_file(places[i].first, text);
        PBT_NOTE(places[i].first.substr(base.size()) << (places[i].second ? "" : "(not looked at)") << " " << regular.size() << "+" << flash.size() << " ");
        if (!chosen && places[i].second) { chosen = true; want = regular; want.insert(want.end(), flash.begin(), flash.end()); empty = want.empty(); }
    }
    std::vector<Disk> added;
    if (s.chance(1, 5)) for (unsigned k = 1 + (unsigned)s.raw(4); k; --k) { Disk d; line(s, d); d.path = "added"; d.del = false; d.raw = false; added.push_back(d); }
    PBT_NOTE(added.size() << " added ");
    inner([&] {
        setenv("STXXLCFG", (base + "/given").c_str(), 1); if (!env) unsetenv("STXXLCFG");
        setenv("HOSTNAME", "thathost", 1); if (!host) unsetenv("HOSTNAME");
        setenv("HOME", (base + "/home").c_str(), 1); if (!home) unsetenv("HOME");
        PBT_CHECK(chdir((base + "/cwd").c_str()) == 0, "chdir");
        stxxl::config* cfg = stxxl::config::get_instance();
        for (auto& d : added) {
            stxxl::disk_config c(d.path, d.size, d.impl);
            c.flash = d.flash; c.autogrow = d.autogrow; c.queue = d.queue; c.device_id = d.devid; c.unlink_on_open = d.unlink; c.queue_length = d.queue_length;
            c.direct = (stxxl::disk_config::direct_type)d.direct;
            cfg->add_disk(c);
        }
        bool failed = false;
        try { cfg->check_initialized(); }
        catch (std::runtime_error&) { failed = true; }
        std::vector<Disk> all;
        if (!added.empty()) {
            for (auto& d : added) if (!d.flash) all.push_back(d);
            for (auto& d : added) if (d.flash) all.push_back(d);
        }
        else if (chosen) {
            PBT_EQ(failed, empty, "a configuration file without disks is refused");
            if (failed) _exit(0);
            all = want;
        }
        PBT_CHECK(!failed, "initialization failed");
        unsigned n = (unsigned)cfg->disks_number();
        if (added.empty() && !chosen) { PBT_EQ(n, 1u, "default disks"); PBT_CHECK(cfg->disk(0).autogrow && cfg->disk(0).delete_on_exit && cfg->disk(0).size > 0, "default disk"); _exit(0); }
        PBT_EQ(n, (unsigned)all.size(), "disks");
        uint64_t total = 0; unsigned regular = 0;
        for (unsigned i = 0; i < n; ++i) {
            check_disk(cfg->disk(i), all[i], "configured");
            PBT_CHECK(cfg->disk_path(i) == all[i].path && cfg->disk_size(i) == all[i].size && cfg->disk_io_impl(i) == all[i].impl, "queries");
            total += all[i].size; regular += !all[i].flash;
        }
        PBT_EQ((uint64_t)cfg->total_size(), total, "total size");
        PBT_CHECK(cfg->regular_disk_range() == std::make_pair(0u, regular), "regular disks");
        PBT_CHECK(cfg->flash_range() == std::make_pair(regular, n), "flash disks");
        // nothing may be removed when this process ends
        _exit(0);
    });
    pbt::ops();
    if (chosen || !added.empty()) pbt::nontrivial();
}

// what the configured disks do with their files, until after the process has ended
PBT_TARGET(disks, 1500, 8000, 1)
{
    std::string base = pbt::scratch();
    struct F { Disk d; bool regular_file; bool was; };
    std::vector<F> fs;
    unsigned nd = 1 + (unsigned)s.raw(4);
    std::string text;
    for (unsigned i = 0; i < nd; ++i) {
        F f;
        f.d.impl = s.pick({ "syscall", "syscall", "mmap", "memory", "fileperblock_syscall", "wbtl" });
        f.d.path = base + "/d" + std::to_string(i);
        f.d.size = s.chance(1, 4) && f.d.impl != "wbtl" ? 0 : (1ull << 20) * (f.d.impl == "wbtl" ? 64 : 1 + s.raw(8));
        f.d.flash = s.chance(1, 4);
        if (!f.d.size) f.d.del = true;
        std::string o = options(s, f.d, 3, true);
        if (o.find("noautogrow") != std::string::npos || o.find("=off") != std::string::npos || o.find("=no") != std::string::npos) { o += " autogrow"; f.d.autogrow = true; }
        f.regular_file = f.d.impl == "syscall" || f.d.impl == "mmap" || f.d.impl == "wbtl";
        f.was = f.regular_file && s.chance(1, 4);
        if (f.was) put_file(f.d.path, std::string(s.raw(9000), 'x'));
        std::string l = (f.d.flash ? "flash=" : "disk=") + f.d.path + "," + std::to_string(f.d.size >> 20) + "," + f.d.impl + o;
        PBT_NOTE(l.substr(l.find(base) + base.size()) << (f.d.flash ? " (flash)" : "") << (f.was ? " (present)" : "") << "; ");
        text += l + "\n";
        fs.push_back(f);
    }
    std::stable_partition(fs.begin(), fs.end(), [](const F& f) { return !f.d.flash; });
    put_file(base + "/cfg", text);
    unsigned nb = 1 + (unsigned)s.raw(30);
    uint64_t seed = s.raw(1u << 30);
    std::vector<uint64_t> grown(nd);
    inner([&] {
        setenv("STXXLCFG", (base + "/cfg").c_str(), 1);
        PBT_CHECK(chdir(base.c_str()) == 0, "chdir");
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        stxxl::config* cfg = stxxl::config::get_instance();
        PBT_EQ((unsigned)cfg->disks_number(), nd, "disks");
        uint64_t total = 0;
        std::set<int> seen;
        for (unsigned i = 0; i < nd; ++i) {
            check_disk(cfg->disk(i), fs[i].d, "configured", true);
            total += fs[i].d.size;
            int q = fs[i].d.queue == stxxl::file::DEFAULT_QUEUE ? (int)i : fs[i].d.queue;
            PBT_EQ(cfg->disk(i).queue, q, "queue of disk " << i);
            if (fs[i].d.devid != (unsigned)stxxl::file::DEFAULT_DEVICE_ID) PBT_EQ(cfg->disk(i).device_id, fs[i].d.devid, "device of disk " << i);
            else PBT_CHECK(!seen.count((int)cfg->disk(i).device_id), "the automatic device number " << cfg->disk(i).device_id << " was taken already");
            seen.insert((int)cfg->disk(i).device_id);
            if (fs[i].regular_file) PBT_EQ(exists(fs[i].d.path), !fs[i].d.unlink, "file of disk " << i << " exists");
        }
        PBT_EQ((uint64_t)bm->get_total_bytes(), total, "space on all disks");
        PBT_EQ((uint64_t)bm->get_free_bytes(), total, "free space");
        // blocks on every disk hold their contents
        typedef stxxl::typed_block<65536, uint64_t> block;
        std::vector<stxxl::BID<65536> > bids(nb);
        bm->new_blocks(stxxl::striping(), bids.begin(), bids.end());
        std::unique_ptr<block> b(new block);
        uint64_t x = seed * 2 + 1;
        std::vector<uint64_t> first;
        for (auto& id : bids) {
            first.push_back(x);
            for (unsigned k = 0; k < block::size; ++k) { (*b)[k] = x; x = x * 6364136223846793005ull + 1442695040888963407ull; }
            b->write(id)->wait();
            PBT_CHECK(id.storage->get_allocator_id() >= 0 && id.storage->get_allocator_id() < (int)nd, "disk of a block");
            PBT_EQ(id.storage->get_queue_id(), cfg->disk(id.storage->get_allocator_id()).queue, "queue of a block");
            PBT_EQ((unsigned)id.storage->get_device_id(), cfg->disk(id.storage->get_allocator_id()).device_id, "device of a block");
        }
        for (size_t i = 0; i < nb; ++i) {
            b->read(bids[i])->wait();
            uint64_t y = first[i];
            for (unsigned k = 0; k < block::size; ++k) { PBT_EQ((*b)[k], y, "contents of block " << i); y = y * 6364136223846793005ull + 1442695040888963407ull; }
        }
        // the file of a disk covers its space and its blocks
        for (unsigned i = 0; i < nd; ++i) {
            struct stat st;
            if (!fs[i].regular_file || fs[i].d.unlink || fs[i].d.impl == "wbtl") continue;
            PBT_CHECK(stat(fs[i].d.path.c_str(), &st) == 0 && (uint64_t)st.st_size >= fs[i].d.size, "size of the file of disk " << i);
            for (auto& id : bids) if (id.storage->get_allocator_id() == (int)i) PBT_CHECK((uint64_t)st.st_size >= id.offset + 65536, "a block lies behind the end of the file");
        }
        bm->delete_blocks(bids.begin(), bids.end());
        if (bm->get_total_bytes() != bm->get_free_bytes()) PBT_CHECK(false, "space not given back");
    });
    for (unsigned i = 0; i < nd; ++i) {
        bool there = exists(fs[i].d.path);
        if (fs[i].regular_file && (fs[i].d.del || fs[i].d.unlink)) PBT_CHECK(!there, "the file of disk " << i << " is left behind");
        else if (fs[i].regular_file) PBT_CHECK(there, "the file of disk " << i << " is gone");
    }
    // blocks of their own files are removed with the blocks
    pbt::ops(nb);
    if (nd > 1 && nb > nd) pbt::nontrivial();
}

// *** command lines

struct Arg {
    int type; bool required, found = false; char key; std::string name;
    bool f = false; int i = -1; unsigned u = 1; double d = 0.5; stxxl::uint32 b32 = 2; stxxl::uint64 b64 = 3; std::string str = "unset"; std::vector<std::string> list;
    bool wf = false; int wi = -1; unsigned wu = 1; double wd = 0.5; uint64_t wb = 0; bool wbset = false; std::string wstr = "unset"; std::vector<std::string> wlist;
};
// a word for an argument: whether it is accepted; sets what is expected
static bool word(pbt::Src& s, Arg& a, std::string& t, bool good)
{
    switch (a.type) {
    case 1: if (good) { a.wi = (int)(s.bits() >> s.raw(64)); t = std::to_string(a.wi); } else t = s.pick({ "", "x", "--", "-x", " ", ".5" }); return good;
    case 2: if (good) { a.wu = (unsigned)(s.bits() >> s.raw(64)); t = std::to_string(a.wu); } else t = s.pick({ "", "x", "abc", " ", "k1" }); return good;
    case 3: if (good) { a.wd = (double)(int)s.raw(1u << 30) / 64.0 * (s.chance(1, 2) ? 1 : -1); char b[60]; snprintf(b, sizeof b, "%.10g", a.wd); a.wd = strtod(b, 0); t = b; } else t = s.pick({ "", "x", "e5", "." }); return good;
    case 4: case 5: {
        Size z = size_text(s, 0);
        t = z.text;
        if (!good) { t = s.pick({ "", "x", "10x", "GiB", "5 5" }); return false; }
        if (z.value > (u128)(a.type == 4 ? 0xffffffffull : ~0ull)) return false;
        a.wb = (uint64_t)z.value; a.wbset = true;
        return true;
    }
    default: {
        t = s.pick({ "", "a", "some words", "-dash", "--", "file.txt", "---", "=", "-1" });
        if (a.type == 6) a.wstr = t; else a.wlist.push_back(t);
        return true;
    }
    }
}
static void check_arg(const Arg& a)
{
    PBT_EQ(a.f, a.wf, "flag " << a.name);
    PBT_EQ(a.i, a.wi, "integer " << a.name);
    PBT_EQ(a.u, a.wu, "unsigned " << a.name);
    PBT_EQ(a.d, a.wd, "double " << a.name);
    PBT_EQ((uint64_t)a.b32, a.type == 4 && a.wbset ? a.wb : 2, "bytes " << a.name);
    PBT_EQ((uint64_t)a.b64, a.type == 5 && a.wbset ? a.wb : 3, "bytes " << a.name);
    PBT_CHECK(a.str == a.wstr, "string " << a.name << " is '" << a.str << "' instead of '" << a.wstr << "'");
    PBT_CHECK(a.list == a.wlist, "list " << a.name);
}
PBT_TARGET(arguments, 60000, 500000, 50)
{
    unsigned no = (unsigned)s.raw(7), np = (unsigned)s.raw(4);
    std::vector<Arg> args(no + np);
    stxxl::cmdline_parser cp;
    cp.set_verbose_process(s.chance(1, 2));
    if (s.chance(1, 2)) cp.set_description("A description of the program that is long enough to be wrapped into several lines when printed, " + std::string(s.raw(200), 'w') + "\nand a second paragraph");
    if (s.chance(1, 3)) cp.set_author("Somebody");
    for (unsigned i = 0; i < no + np; ++i) {
        Arg& a = args[i];
        bool option = i < no;
        a.type = (int)s.raw(8);
        if (!option && a.type == 0) a.type = 6;
        if (!option && a.type == 7 && i + 1 < no + np) a.type = 6; // a list takes all that follows
        a.key = option && s.chance(2, 3) ? (char)('a' + i) : 0;
        if (a.key == 'h') a.key = 0;
        a.name = (option ? "opt" : "param") + std::to_string(i) + std::string(s.chance(1, 12) ? s.raw(90) : 0, 'y');
        a.required = !option && s.chance(1, 2);
        std::string desc = std::string(s.chance(1, 4) ? s.raw(300) : s.raw(40), 'd') + " and " + std::string(s.raw(30), 'e') + (s.chance(1, 5) ? "\nnew line" : "");
        if (option) {
            bool kt = s.chance(1, 3);
            switch (a.type) {
            case 0: kt ? cp.add_flag(a.key, a.name, "#", a.f, desc) : cp.add_flag(a.key, a.name, a.f, desc); break;
            case 1: kt ? cp.add_int(a.key, a.name, "#", a.i, desc) : cp.add_int(a.key, a.name, a.i, desc); break;
            case 2: kt ? cp.add_uint(a.key, a.name, "#", a.u, desc) : cp.add_uint(a.key, a.name, a.u, desc); break;
            case 3: kt ? cp.add_double(a.key, a.name, "#", a.d, desc) : cp.add_double(a.key, a.name, a.d, desc); break;
            case 4: kt ? cp.add_bytes(a.key, a.name, "#", a.b32, desc) : cp.add_bytes(a.key, a.name, a.b32, desc); break;
            case 5: kt ? cp.add_bytes(a.key, a.name, "#", a.b64, desc) : cp.add_bytes(a.key, a.name, a.b64, desc); break;
            case 6: kt ? cp.add_string(a.key, a.name, "#", a.str, desc) : cp.add_string(a.key, a.name, a.str, desc); break;
            default: kt ? cp.add_stringlist(a.key, a.name, "#", a.list, desc) : cp.add_stringlist(a.key, a.name, a.list, desc); break;
            }
        }
        else {
            switch (a.type) {
            case 1: a.required ? cp.add_param_int(a.name, a.i, desc) : cp.add_opt_param_int(a.name, a.i, desc); break;
            case 2: a.required ? cp.add_param_uint(a.name, a.u, desc) : cp.add_opt_param_uint(a.name, a.u, desc); break;
            case 3: a.required ? cp.add_param_double(a.name, a.d, desc) : cp.add_opt_param_double(a.name, a.d, desc); break;
            case 4: a.required ? cp.add_param_bytes(a.name, a.b32, desc) : cp.add_opt_param_bytes(a.name, a.b32, desc); break;
            case 5: a.required ? cp.add_param_bytes(a.name, a.b64, desc) : cp.add_opt_param_bytes(a.name, a.b64, desc); break;
            case 6: a.required ? cp.add_param_string(a.name, a.str, desc) : cp.add_opt_param_string(a.name, a.str, desc); break;
            default: a.required ? cp.add_param_stringlist(a.name, a.list, desc) : cp.add_opt_param_stringlist(a.name, a.list, desc); break;
            }
        }
        PBT_NOTE((option ? "option " : a.required ? "required " : "optional ") << a.type << (a.key ? "+key " : " "));
    }
    // the words, and what they mean
    std::vector<std::string> words;
    bool ok = true, help = false, ended = false;
    unsigned next = no, used = 0;
    for (unsigned k = (unsigned)s.raw(10); k && ok; --k) {
        unsigned what = (unsigned)s.weighted({ 6, 6, 1, 1, 1 });
        if (what == 0 && no) {
            unsigned i = (unsigned)s.raw(no);
            Arg& a = args[i];
            if (ended) continue;
            words.push_back(a.key && s.chance(1, 2) ? std::string("-") + a.key : "--" + a.name);
            ++used;
            if (a.type == 0) { a.wf = true; continue; }
            if (s.chance(1, 20)) { ok = false; break; } // its word is missing
            std::string t; bool good = word(s, a, t, s.chance(14, 15));
            words.push_back(t);
            ok = good;
        }
        else if (what == 1) {
            if (next == no + np) { if (s.chance(1, 4)) { words.push_back("extra"); ok = false; } continue; }
            Arg& a = args[next];
            std::string t; Arg before = a;
            bool good = word(s, a, t, s.chance(14, 15));
            if (!t.empty() && t[0] == '-' && !ended) { a = before; continue; } // would be taken for an option
            words.push_back(t); ++used;
            ok = good;
            a.found = true;
            if (a.type != 7) ++next;
        }
        else if (what == 2 && !ended) { words.push_back("---"); ended = true; }
        else if (what == 3 && !ended && s.chance(1, 2)) { words.push_back(s.pick({ "--nosuch", "-?", "-9", "--opt", "--help2" })); ok = false; }
        else if (what == 4 && s.chance(1, 4)) { words.push_back(s.pick({ "-h", "--help" })); help = true; }
    }
    if (help) ok = false;
    for (unsigned i = no; i < no + np; ++i) if (args[i].required && !args[i].found) ok = false;
    std::vector<const char*> argv; argv.push_back("program");
    for (auto& w : words) { argv.push_back(w.c_str()); PBT_NOTE("[" << w << "]"); }
    argv.push_back(NULL);
    std::ostringstream os;
    bool got = cp.process((int)argv.size() - 1, argv.data(), os);
    PBT_EQ(got, ok, "the command line is " << (ok ? "valid" : "invalid") << ", output: " << os.str());
    if (ok) for (auto& a : args) check_arg(a);
    else PBT_CHECK(os.str().find("Usage: program") != std::string::npos || (help && os.str().find("Usage:") != std::string::npos), "no usage is printed");
    // the result shows every argument and its value
    std::ostringstream rs; cp.print_result(rs);
    std::string r = rs.str();
    for (auto& a : args) {
        size_t p = r.find(a.name);
        PBT_CHECK(p != std::string::npos, "print_result() leaves out " << a.name);
        size_t e = a.str.find('\n') == std::string::npos ? r.find('\n', p) : std::string::npos;
        std::ostringstream v;
        switch (a.type) { case 0: v << (a.f ? "true" : "false"); break; case 1: v << a.i; break; case 2: v << a.u; break; case 3: v << a.d; break; case 4: v << a.b32; break; case 5: v << a.b64; break; case 6: v << '"' << a.str << '"'; break; default: v << '['; for (size_t i = 0; i < a.list.size(); ++i) v << (i ? ",\"" : "\"") << a.list[i] << '"'; v << ']'; }
        PBT_CHECK(r.compare(e - v.str().size(), v.str().size(), v.str()) == 0, "print_result() of " << a.name << " does not end with " << v.str() << ": " << r.substr(p, e - p));
    }
    std::ostringstream us; cp.print_usage(us);
    for (auto& a : args) PBT_CHECK(us.str().find(a.name) != std::string::npos, "print_usage() leaves out " << a.name);
    pbt::ops(words.size());
    if (ok && used > 2) pbt::nontrivial();
}
PBT_TARGET(wrapping, 40000, 300000, 100)
{
    std::string t;
    for (unsigned k = (unsigned)s.raw(40); k; --k) {
        switch (s.weighted({ 8, 5, 1, 1 })) {
        case 0: t += std::string(1 + s.raw(s.chance(1, 8) ? 60 : 9), (char)('a' + k % 26)); break;
        case 1: t += ' '; break;
        case 2: t += '\n'; break;
        default: t += std::string(s.raw(30), ' '); break;
        }
    }
    size_t wrap = s.range(1, 60), first = s.raw(6), rest = s.chance(1, 8) ? s.raw(80) : s.raw(12), cur = s.chance(1, 2) ? 0 : s.raw(70), nl = s.raw(12);
    PBT_NOTE("'" << t << "' in " << wrap << " indents " << first << "," << rest << "," << nl << " at " << cur << " ");
    struct P : stxxl::cmdline_parser { };
    std::ostringstream os;
    P::output_wrap(os, t, wrap, first, rest, cur, nl);
    // the lines without their indentation are the text without its line feeds; only single words may be too long
    std::string out = os.str();
    size_t pos = 0, indent = first, column = cur, lines = 0;
    while (!out.empty()) {
        size_t e = out.find('\n');
        PBT_CHECK(e != std::string::npos, "unfinished line");
        std::string l = out.substr(0, e); out.erase(0, e + 1);
        PBT_CHECK(l.size() >= indent && l.find_first_not_of(' ') >= std::min(indent, l.size()), "indentation of line " << lines);
        std::string body = l.substr(indent);
        PBT_CHECK(t.compare(pos, body.size(), body) == 0, "line " << lines << " is '" << body << "'");
        PBT_CHECK(column + l.size() <= wrap || body.size() <= 1, "line " << lines << " is too long: " << column << "+" << l.size());
        pos += body.size();
        indent = rest; column = 0; ++lines;
        if (pos < t.size() && t[pos] == '\n') { ++pos; indent = nl; }
        else if (pos < t.size()) {
            // a word is broken only when it fills the line
            bool space = body.empty() || body.back() == ' ' || t[pos] == ' ';
            PBT_CHECK(space || body.find(' ', 1) == std::string::npos, "line " << lines << " breaks a word: '" << body << "'");
        }
    }
    PBT_EQ(pos, t.size(), "text left out");
    pbt::ops(lines);
    if (lines > 2) pbt::nontrivial();
}
