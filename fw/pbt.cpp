#include "pbt.hpp"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>

extern "C" __attribute__((weak)) int pbt_stack_use_after_return;   // defined by harnesses that want it
#define PBT_ASAN_BASE "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:" \
    "hard_rss_limit_mb=4000:allocator_may_return_null=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:detect_odr_violation=0:"
extern "C" const char* __asan_default_options()
{
    if (&pbt_stack_use_after_return) return PBT_ASAN_BASE "detect_stack_use_after_return=1";
    return PBT_ASAN_BASE "detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }

namespace pbt {

enum { MAX_TAPE = 400000, MAX_DESC = 6000, MAX_MSG = 4000, MAX_LABELS = 96, MAX_HASH = 4096 };
enum { EXIT_OK = 0, EXIT_FAIL = 101, EXIT_EXC = 102 };

struct LabelCell { char name[48]; uint64_t count; };

struct Shared {
    // request
    uint64_t seed;
    uint32_t target, first, count;
    uint32_t replay;           // the tape below is replayed
    uint32_t in_len;
    // response
    volatile uint32_t cur;     // index of running case inside the batch
    volatile uint32_t done;    // finished cases
    volatile uint32_t n_nontrivial, n_discard;
    uint64_t n_ops;
    volatile uint32_t failed;
    volatile uint32_t out_len;
    uint32_t desc_len;
    char desc[MAX_DESC + 64];
    char msg[MAX_MSG + 64];
    LabelCell labels[MAX_LABELS];
    uint32_t n_hash;
    uint64_t hashes[MAX_HASH];          // hashes of the non-trivial cases
    char first_desc[MAX_DESC + 64];     // description of first case in the batch
    uint64_t in_tape[MAX_TAPE];
    uint64_t out_tape[MAX_TAPE];
};

static Shared* g_sh = nullptr;          // in the child: own slot
static uint64_t g_rng = 0;
static bool g_nontrivial = false, g_discard = false;
static std::string g_scratch;
static unsigned g_tier = 0;
static uint64_t g_hash;

static std::vector<Target>& targets() { static std::vector<Target> t; return t; }
Registrar::Registrar(const Target& t) { targets().push_back(t); }

static inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a ^ (b * 0xd6e8feb86659fd93ull); return splitmix(x); }

uint64_t Src::raw(uint64_t bound)
{
    Shared* sh = g_sh;
    uint64_t v;
    uint32_t pos = sh->out_len;
    if (sh->replay) {
        v = pos < sh->in_len ? sh->in_tape[pos] : 0;
        if (bound && v >= bound) v %= bound;
    }
    else {
        uint64_t r = splitmix(g_rng);
        if (!bound) v = r;
        else v = (uint64_t)(((unsigned __int128)r * bound) >> 64);
    }
    if (pos < MAX_TAPE) { sh->out_tape[pos] = v; sh->out_len = pos + 1; }
    else { // a case that draws too much: not a violation, stop generating
        g_discard = true;
        sh->out_len = pos;
        v = 0;
    }
    g_hash = mix(g_hash, v + 1);
    return v;
}

size_t Src::weighted(std::initializer_list<unsigned> w)
{
    unsigned sum = 0;
    for (unsigned x : w) sum += x;
    unsigned r = (unsigned)raw(sum);
    size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return w.size() - 1;
}

uint64_t Src::size(uint64_t max, uint64_t unit)
{
    uint64_t v;
    switch (weighted({ 3, 4, 4, 3 })) {
    case 0: v = raw(9); break;
    case 1: v = raw((max < 1000 ? max : 1000) + 1); break;
    case 2: {
        uint64_t k = raw(max / unit + 2);
        int64_t d = irange(-2, 2);
        v = k * unit + d;
        if ((int64_t)v < 0) v = 0;
        break;
    }
    default: v = raw(max + 1);
    }
    return v > max ? max : v;
}
unsigned Src::tier() const { return g_tier; }

bool replaying() { return g_sh->replay != 0; }
const char* scratch() { return g_scratch.c_str(); }

static void set_msg(const char* kind, const std::string& m)
{
    snprintf(g_sh->msg, MAX_MSG, "%s: %s", kind, m.c_str());
    g_sh->failed = 1;
}
void fail(const std::string& msg)
{
    if (!__sync_fetch_and_add(&g_sh->failed, 1))
        set_msg("property violated", msg);
    fflush(stdout); fflush(stderr);
    _exit(EXIT_FAIL);
}
void label(const char* name, uint64_t n)
{
    for (int i = 0; i < MAX_LABELS; ++i) {
        LabelCell& c = g_sh->labels[i];
        if (!c.name[0]) { strncpy(c.name, name, sizeof(c.name) - 1); c.count = n; return; }
        if (!strncmp(c.name, name, sizeof(c.name) - 1)) { c.count += n; return; }
    }
}
void label(const std::string& name, uint64_t n) { label(name.c_str(), n); }
void excluded(const char* id) { label(std::string("excluded:") + id); }
void ops(uint64_t n) { g_sh->n_ops += n; }
void nontrivial() { g_nontrivial = true; }
void discard() { g_discard = true; }
bool noting() { return g_sh->desc_len < MAX_DESC - 200; }
void note(const std::string& s)
{
    Shared* sh = g_sh;
    if (sh->desc_len >= MAX_DESC - 8) return;
    size_t l = std::min<size_t>(s.size(), MAX_DESC - 4 - sh->desc_len);
    memcpy(sh->desc + sh->desc_len, s.data(), l);
    sh->desc_len += l;
    sh->desc[sh->desc_len++] = ' ';
    sh->desc[sh->desc_len] = 0;
}

// ------------------------------------------------------------------ child

static void clear_dir(const std::string& d, int depth = 0);

static void case_done(uint32_t i)
{
    if (i == 0) { memcpy(g_sh->first_desc, g_sh->desc, g_sh->desc_len + 1); }
    if (g_discard) g_sh->n_discard = g_sh->n_discard + 1;
    else if (g_nontrivial) {
        g_sh->n_nontrivial = g_sh->n_nontrivial + 1;
        if (g_sh->n_hash < MAX_HASH) g_sh->hashes[g_sh->n_hash++] = g_hash;
    }
    g_sh->done = i + 1;
}
void passed()
{
    case_done(g_sh->cur);
    _exit(EXIT_OK);
}

static void terminate_handler()
{
    // exception escaping a thread or a destructor
    std::string what = "std::terminate without exception";
    if (std::exception_ptr p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch (const std::exception& e) { what = std::string("uncaught ") + typeid(e).name() + ": " + e.what(); }
        catch (...) { what = "uncaught exception of unknown type"; }
    }
    if (!g_sh->failed) set_msg("terminate", what);
    _exit(EXIT_EXC);
}

static void child_main(Shared* sh, const std::string& dir)
{
    g_sh = sh;
    g_scratch = dir;
    if (chdir(dir.c_str()) != 0) _exit(77);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0); dup2(fd, 1);
    int e = open((dir + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setenv("STXXLLOGFILE", "/dev/null", 1);
    setenv("STXXLERRLOGFILE", "/dev/null", 1);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    std::set_terminate(terminate_handler);
    const Target& t = targets()[sh->target];
    Src s;
    for (uint32_t i = 0; i < sh->count; ++i) {
        sh->cur = i;
        if (i) clear_dir(dir);
        sh->out_len = 0;
        sh->desc_len = 0; sh->desc[0] = 0;
        g_nontrivial = false; g_discard = false;
        g_hash = 1469598103934665603ull;
        if (!sh->replay) g_rng = mix(mix(sh->seed, std::hash<std::string>()(t.name)), sh->first + i);
        try {
            t.body(s);
        }
        catch (const std::exception& ex) {
            set_msg("unexpected exception", std::string(typeid(ex).name()) + ": " + ex.what());
            fflush(stderr);
            _exit(EXIT_EXC);
        }
        catch (...) {
            set_msg("unexpected exception", "unknown type");
            _exit(EXIT_EXC);
        }
        case_done(i);
    }
    exit(EXIT_OK);      // runs the library's own exit handlers: an orderly shutdown is part of every case
}

// ------------------------------------------------------------------ parent

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void clear_dir(const std::string& d, int depth)
{
    DIR* dp = opendir(d.c_str());
    if (!dp) return;
    while (struct dirent* de = readdir(dp)) {
        if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
        std::string p = d + "/" + de->d_name;
        if (de->d_type == DT_DIR) { if (depth < 4) clear_dir(p, depth + 1); rmdir(p.c_str()); }
        else unlink(p.c_str());
    }
    closedir(dp);
}

enum Outcome { OK, FAILED, INCONCLUSIVE };
struct Slot {
    Shared* sh = nullptr;
    pid_t pid = 0;
    std::string dir;
    double started = 0, last_progress = 0, last_poll = 0;
    uint64_t last_cpu = 0;
    std::string killed_for;
};

static std::string g_base;
static double g_stall_limit = 25;

static void slot_init(Slot& s, int i)
{
    s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s.sh == MAP_FAILED) { perror("mmap"); exit(2); }
    s.dir = g_base + "/s" + std::to_string(i);
    mkdir(s.dir.c_str(), 0700);
}

static void slot_start(Slot& s)
{
    Shared* sh = s.sh;
    sh->cur = sh->done = sh->n_nontrivial = sh->n_discard = 0;
    sh->n_ops = 0; sh->failed = 0; sh->out_len = 0; sh->desc_len = 0; sh->desc[0] = 0; sh->msg[0] = 0;
    sh->n_hash = 0; sh->first_desc[0] = 0;
    memset(sh->labels, 0, sizeof(sh->labels));
    s.killed_for.clear();
    s.started = s.last_progress = s.last_poll = now();
    s.last_cpu = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { setpgid(0, 0); child_main(sh, s.dir); _exit(78); }
    s.pid = p;
}

// CPU ticks of all threads; all_sleeping: no thread runnable or in disk wait
static bool probe(pid_t pid, uint64_t& cpu, bool& all_sleeping)
{
    char path[128];
    snprintf(path, sizeof path, "/proc/%d/task", (int)pid);
    DIR* dp = opendir(path);
    if (!dp) return false;
    cpu = 0; all_sleeping = true;
    while (struct dirent* de = readdir(dp)) {
        if (de->d_name[0] == '.') continue;
        char fn[200];
        snprintf(fn, sizeof fn, "/proc/%d/task/%s/stat", (int)pid, de->d_name);
        FILE* f = fopen(fn, "r");
        if (!f) continue;
        char buf[1024];
        size_t n = fread(buf, 1, sizeof buf - 1, f);
        fclose(f);
        buf[n] = 0;
        char* p = strrchr(buf, ')');
        if (!p) continue;
        char st; unsigned long ut = 0, stt = 0;
        sscanf(p + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &st, &ut, &stt);
        cpu += ut + stt;
        if (st != 'S') all_sleeping = false;
    }
    closedir(dp);
    return true;
}

static std::string tail_of(const std::string& file, size_t n)
{
    std::ifstream f(file);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::string out;
    // leave out the library's chatter; keep sanitizer reports and assertion messages first
    size_t a = s.find("ERROR: AddressSanitizer");
    if (a == std::string::npos) a = s.find("runtime error:");
    if (a == std::string::npos) a = s.find("Assertion");
    if (a != std::string::npos) { size_t b = s.rfind('\n', a); out = s.substr(b == std::string::npos ? 0 : b + 1, n); }
    else out = s.size() > n ? s.substr(s.size() - n) : s;
    return out;
}

// returns true if the child ended
static bool slot_poll(Slot& s, Outcome& oc, std::string& why)
{
    int st = 0;
    pid_t r = waitpid(s.pid, &st, WNOHANG);
    double t = now();
    if (r == 0) {
        if (t - s.last_poll > 0.5) {
            s.last_poll = t;
            uint64_t cpu; bool sl;
            if (probe(s.pid, cpu, sl)) {
                if (cpu != s.last_cpu || !sl) { s.last_cpu = cpu; s.last_progress = t; }
                else if (t - s.last_progress > g_stall_limit) {
                    s.killed_for = "deadlock: every thread has been asleep without using CPU for " +
                                   std::to_string((int)g_stall_limit) + " s";
                    kill(-s.pid, SIGKILL); kill(s.pid, SIGKILL);
                }
                unsigned lim = targets()[s.sh->target].cpu_limit;
                if (cpu / (double)sysconf(_SC_CLK_TCK) > lim) {
                    s.killed_for = "does not terminate: used more than " + std::to_string(lim) + " s of CPU";
                    kill(-s.pid, SIGKILL); kill(s.pid, SIGKILL);
                }
            }
        }
        return false;
    }
    kill(-s.pid, SIGKILL);
    s.pid = 0;
    clear_dir(s.dir);
    oc = OK;
    if (!s.killed_for.empty()) { oc = FAILED; why = s.killed_for; return true; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.sh->done == s.sh->count) return true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { oc = INCONCLUSIVE; why = "killed from outside"; return true; }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) { oc = INCONCLUSIVE; why = "could not start"; return true; }
    oc = FAILED;
    std::ostringstream os;
    if (s.sh->failed) os << s.sh->msg;
    else if (WIFSIGNALED(st)) os << "crashed with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    else if (WEXITSTATUS(st) == 99) os << "sanitizer report";
    else os << "exited with status " << WEXITSTATUS(st) << " during case or shutdown";
    if (!s.sh->failed || WIFSIGNALED(st)) os << "\n" << tail_of(s.dir + ".err", 2500);
    why = os.str();
    // out of disk or memory is an environment problem, not a finding
    if (why.find("No space left on device") != std::string::npos && !s.sh->failed) oc = INCONCLUSIVE;
    return true;
}

static Outcome run_tape(Slot& s, uint32_t target, const std::vector<uint64_t>& tape, std::string& why,
                        std::vector<uint64_t>* out = nullptr, std::string* desc = nullptr)
{
    Shared* sh = s.sh;
    sh->target = target; sh->first = 0; sh->count = 1; sh->replay = 1;
    sh->in_len = (uint32_t)std::min<size_t>(tape.size(), MAX_TAPE);
    std::copy(tape.begin(), tape.begin() + sh->in_len, sh->in_tape);
    slot_start(s);
    Outcome oc;
    while (!slot_poll(s, oc, why)) usleep(300);
    if (out) out->assign(sh->out_tape, sh->out_tape + sh->out_len);
    if (desc) *desc = sh->desc;
    return oc;
}

// the cases first .. first+count-1 in one process, drawn anew
static Outcome run_batch(Slot& s, uint32_t target, uint64_t seed, uint32_t first, uint32_t count, std::string& why)
{
    clear_dir(s.dir);
    Shared* sh = s.sh;
    sh->seed = seed; sh->target = target; sh->first = first; sh->count = count; sh->replay = 0; sh->in_len = 0;
    slot_start(s);
    Outcome oc;
    while (!slot_poll(s, oc, why)) usleep(300);
    return oc;
}

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// shrinking: shorter tapes, then smaller values
static std::vector<uint64_t> shrink(Slot& s, uint32_t target, std::vector<uint64_t> tape, std::string& why,
                                    double budget, unsigned& steps)
{
    double end = now() + budget;
    steps = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (now() > end) return false;
        ++steps;
        std::string w; std::vector<uint64_t> out;
        if (run_tape(s, target, cand, w, &out) == FAILED) {
            // what was really drawn, if not longer
            if (out.size() && out.size() <= cand.size()) tape = out; else tape = cand;
            why = w;
            return true;
        }
        return false;
    };
    // trailing zeros are implied
    auto strip = [&]() { while (!tape.empty() && tape.back() == 0) tape.pop_back(); };
    strip();
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // truncation
        for (size_t keep = tape.size() / 2; keep < tape.size() && now() < end; ) {
            std::vector<uint64_t> c(tape.begin(), tape.begin() + keep);
            if (attempt(c)) { strip(); progress = true; keep = tape.size() / 2; }
            else { size_t gap = tape.size() - keep; if (gap < 2) break; keep += gap / 2; }
        }
        // delete chunks
        for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= tape.size() && now() < end; ) {
                std::vector<uint64_t> c(tape.begin(), tape.begin() + i);
                c.insert(c.end(), tape.begin() + i + len, tape.end());
                if (attempt(c)) { strip(); progress = true; }
                else i += len;
            }
            if (len == 1) break;
        }
        // zero chunks, then lower single values
        for (size_t len = std::max<size_t>(1, tape.size() / 4); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= tape.size() && now() < end; i += len) {
                bool any = false;
                for (size_t k = i; k < i + len; ++k) any |= tape[k] != 0;
                if (!any) continue;
                std::vector<uint64_t> c = tape;
                std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (attempt(c)) { strip(); progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < tape.size() && now() < end; ++i) {
            uint64_t lo = 0, hi = tape[i];
            while (lo < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c = tape;
                c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= tape.size()) break; hi = tape[i]; }
                else lo = mid + 1;
            }
        }
    }
    return tape;
}

struct TargetStat {
    uint64_t run = 0, nontrivial = 0, discard = 0, inconclusive = 0, unreproduced = 0, ops = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    double cpu = 0;
};

static int run_all(int argc, char** argv)
{
    uint64_t seed = 1;
    std::string tier = "quick", out = "", replay_dir = ".", only, prop = "P00";
    double budget = 300, scale = 1.0;
    int jobs = 8;
    bool keep_going = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--out") out = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--prop") prop = val();
        else if (a == "--keep-going") keep_going = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    g_tier = tier == "thorough";
    std::vector<Slot> slots(jobs);
    for (int i = 0; i < jobs; ++i) slot_init(slots[i], i);

    std::vector<Target>& T = targets();
    std::sort(T.begin(), T.end(), [](const Target& a, const Target& b) { return strcmp(a.name, b.name) < 0; });
    size_t nt = T.size();
    std::vector<uint64_t> want(nt), next(nt, 0);
    std::vector<TargetStat> st(nt);
    std::vector<bool> stopped(nt, false);
    for (size_t i = 0; i < nt; ++i) {
        want[i] = (uint64_t)((g_tier ? T[i].thorough : T[i].quick) * scale);
        if (want[i] < 1) want[i] = 1;
        if (!only.empty()) {
            bool match = only[0] == '=' ? only.substr(1) == T[i].name : strstr(T[i].name, only.c_str()) != nullptr;
            if (!match) want[i] = 0;
        }
    }
    double t0 = now();
    bool out_of_time = false;
    int violations = 0, unrep_total = 0;
    std::string viol_json;
    bool stop = false;

    struct Range { uint32_t target, first, count; };
    std::vector<Range> extra;
    auto choose = [&]() -> int {
        // the target that is furthest behind its share
        int best = -1; double bf = 2;
        for (size_t i = 0; i < nt; ++i) {
            if (stopped[i] || next[i] >= want[i]) continue;
            double f = (double)next[i] / want[i];
            if (f < bf) { bf = f; best = (int)i; }
        }
        return best;
    };
    auto start_next = [&](Slot& s) -> bool {
        if (stop) return false;
        if (now() - t0 > budget) { out_of_time = true; return false; }
        Shared* sh = s.sh;
        if (!extra.empty()) {        // the rest of a batch that ended early
            sh->seed = seed; sh->target = extra.back().target; sh->first = extra.back().first; sh->count = extra.back().count; sh->replay = 0; sh->in_len = 0;
            extra.pop_back();
            slot_start(s);
            return true;
        }
        int t = choose();
        if (t < 0) return false;
        sh->seed = seed; sh->target = t; sh->first = (uint32_t)next[t]; sh->replay = 0; sh->in_len = 0;
        sh->count = (uint32_t)std::min<uint64_t>(T[t].batch, want[t] - next[t]);
        next[t] += sh->count;
        slot_start(s);
        return true;
    };

    int running = 0;
    for (auto& s : slots) if (start_next(s)) ++running;
    while (running > 0) {
        bool any = false;
        for (auto& s : slots) {
            if (!s.pid) continue;
            Outcome oc; std::string why;
            if (!slot_poll(s, oc, why)) continue;
            any = true; --running;
            Shared* sh = s.sh;
            uint32_t t = sh->target;
            TargetStat& ts = st[t];
            ts.run += sh->done; ts.nontrivial += sh->n_nontrivial; ts.discard += sh->n_discard; ts.ops += sh->n_ops;
            for (uint32_t i = 0; i < sh->n_hash; ++i) ts.hashes.insert(sh->hashes[i]);
            for (int i = 0; i < MAX_LABELS && sh->labels[i].name[0]; ++i) ts.labels[sh->labels[i].name] += sh->labels[i].count;
            if (ts.samples.size() < 2 && sh->first_desc[0] && sh->n_nontrivial) ts.samples.push_back(std::string(sh->first_desc).substr(0, 700));
            if (oc == INCONCLUSIVE) { ++ts.inconclusive; fprintf(stderr, "inconclusive: %s case %u: %s\n", T[t].name, sh->first + sh->cur, why.c_str()); }
            if (oc == FAILED && !stopped[t] && !stop) {
                // confirm in fresh processes before anything is reported
                std::vector<uint64_t> tape(sh->out_tape, sh->out_tape + sh->out_len);
                std::string first_why = why;
                uint32_t index = sh->first + sh->cur, bfirst = sh->first, bcount = sh->cur + 1, bend = sh->first + sh->count;
                if (bend > index + 1) extra.push_back(Range { t, index + 1, bend - index - 1 });
                fprintf(stderr, "candidate: %s case %u: %.600s\n", T[t].name, index, why.c_str());
                bool hang = !s.killed_for.empty();
                // let the other slots finish: replays run alone
                for (auto& o : slots) if (o.pid) { Outcome x; std::string y; while (!slot_poll(o, x, y)) usleep(500); --running;
                        Shared* h = o.sh; TargetStat& os = st[h->target]; os.run += h->done; os.nontrivial += h->n_nontrivial; os.ops += h->n_ops; os.discard += h->n_discard;
                        for (uint32_t i = 0; i < h->n_hash; ++i) os.hashes.insert(h->hashes[i]); }
                int fails = 0, tries = 0, max_tries = hang ? 12 : 40;
                for ( ; tries < max_tries && fails < 3; ++tries) {
                    std::string w;
                    if (run_tape(s, t, tape, w) == FAILED) { ++fails; if (fails == 1) first_why = w; }
                    if (hang && fails >= 1) break;
                    if (tries >= 3 && fails == tries) break;
                    if (fails >= 1 && tries >= 10) break;
                }
                int bfails = 0, btries = 0;
                if (fails == 0 && bcount > 1) {      // it may need what the earlier cases of its process left behind
                    for ( ; btries < 4 && bfails < 2; ++btries) {
                        std::string w;
                        if (run_batch(s, t, seed, bfirst, bcount, w) == FAILED) { ++bfails; if (bfails == 1) first_why = w; }
                    }
                }
                // one failure that never comes back is set aside, a second one is not
                if (fails == 0 && bfails == 0 && (hang || unrep_total++ == 0)) {
                    ++ts.unreproduced;
                    fprintf(stderr, "not reproduced in %d replays; not reported: %s case %u\n", tries, T[t].name, index);
                }
                else {
                    unsigned steps = 0;
                    std::vector<uint64_t> small = tape;
                    std::string w2 = first_why;
                    bool deterministic = fails && (fails == tries || fails >= 3);
                    if (!fails) fprintf(stderr, "reported without a single-case replay (batch replays failed %d of %d)\n", bfails, btries);
                    else if (deterministic && !hang) small = shrink(s, t, tape, w2, g_tier ? 60 : 20, steps);
                    else if (hang) { double keep = g_stall_limit; g_stall_limit = 4; small = shrink(s, t, tape, w2, 40, steps); g_stall_limit = keep;
                        std::string w3; bool again = false; for (int k = 0; k < 3 && !again; ++k) again = run_tape(s, t, small, w3) == FAILED; if (!again) { small = tape; w2 = first_why; } }
                    std::string desc, w; std::vector<uint64_t> o;
                    Outcome fin = fails ? run_tape(s, t, small, w, &o, &desc) : OK;
                    if (fin != FAILED) w = w2;
                    char fn[512];
                    snprintf(fn, sizeof fn, "%s/%s-%s-%llu-%u.replay", replay_dir.c_str(), prop.c_str(), T[t].name, (unsigned long long)seed, index);
                    std::ofstream f(fn);
                    f << "prop " << prop << "\ntarget " << T[t].name << "\ntier " << tier << "\nseed " << seed << "\ncase " << index << "\ntape " << small.size();
                    for (uint64_t v : small) f << " " << v;
                    if (!fails) f << "\nbatch " << seed << " " << bfirst << " " << bcount;
                    f << "\nreproduced " << fails << "/" << tries << " shrink_steps " << steps << " original_length " << tape.size();
                    f << "\ncase description: " << desc << "\nfailure: " << w << "\n";
                    f.close();
                    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), fn);
                    printf("  target %s case %u (reproduced %d/%d, tape %zu -> %zu)\n  %s\n  case: %.900s\n", T[t].name, index, fails, tries, tape.size(), small.size(), w.c_str(), desc.c_str());
                    fflush(stdout);
                    ++violations;
                    stopped[t] = true;
                    if (!keep_going) stop = true;
                }
                for (auto& o : slots) if (!o.pid && !stop && &o != &s) if (start_next(o)) ++running;
            }
            if (start_next(s)) ++running;
        }
        if (!any) usleep(400);
    }
    double wall = now() - t0;

    // summary
    std::ostringstream js;
    uint64_t tot = 0, nontr = 0, dist = 0, op = 0, inc = 0, unrep = 0, disc = 0;
    std::map<std::string, uint64_t> labels;
    std::ostringstream tj, sj;
    bool ft = true, fs = true;
    for (size_t i = 0; i < nt; ++i) {
        if (!want[i]) continue;
        tot += st[i].run; nontr += st[i].nontrivial; dist += st[i].hashes.size(); op += st[i].ops; inc += st[i].inconclusive; unrep += st[i].unreproduced; disc += st[i].discard;
        tj << (ft ? "" : ",") << "\n  " << json_str(T[i].name) << ": {\"cases\": " << st[i].run << ", \"planned\": " << want[i] << ", \"nontrivial\": " << st[i].nontrivial
           << ", \"distinct_nontrivial\": " << st[i].hashes.size() << ", \"operations\": " << st[i].ops << ", \"discarded\": " << st[i].discard << ", \"labels\": {";
        bool fl = true;
        for (auto& l : st[i].labels) { tj << (fl ? "" : ", ") << json_str(l.first) << ": " << l.second; fl = false; }
        tj << "}}";
        ft = false;
        for (auto& x : st[i].samples) { if (fs || true) { sj << (fs ? "" : ",") << "\n  " << json_str(std::string(T[i].name) + ": " + x); fs = false; } }
    }
    js << "{\"evaluations\": " << tot << ", \"nontrivial\": " << nontr << ", \"distinct_nontrivial\": " << dist << ", \"operations\": " << op << ", \"discarded\": " << disc
       << ", \"inconclusive\": " << inc << ", \"unreproduced_failures\": " << unrep << ", \"out_of_time\": " << (out_of_time ? "true" : "false")
       << ", \"violations\": " << violations << ", \"wall_s\": " << wall << ",\n\"targets\": {" << tj.str() << "},\n\"samples\": [" << sj.str() << "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << js.str(); }
    fprintf(stderr, "%s: %llu cases (%llu non-trivial, %llu distinct), %llu operations, %.1f s%s\n", prop.c_str(), (unsigned long long)tot, (unsigned long long)nontr,
            (unsigned long long)dist, (unsigned long long)op, wall, out_of_time ? " (out of time)" : "");
    if (violations) return 1;
    if (inc * 5 > tot && tot) { fprintf(stderr, "too many inconclusive cases\n"); return 2; }
    return 0;
}

static int do_replay(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    int times = argc > 3 ? atoi(argv[3]) : 1;
    std::string k, target;
    std::vector<uint64_t> tape;
    uint64_t bseed = 0; uint32_t bfirst = 0, bcount = 0;
    while (f >> k) {
        if (k == "target") f >> target;
        else if (k == "tier") { std::string v; f >> v; g_tier = v == "thorough"; }
        else if (k == "tape") { size_t n; f >> n; tape.resize(n); for (auto& v : tape) f >> v;
            if (f >> k && k == "batch") { f >> bseed >> bfirst >> bcount; }
            break; }
        else { std::string v; f >> v; }
    }
    Slot s; slot_init(s, 0);
    std::vector<Target>& T = targets();
    for (uint32_t i = 0; i < T.size(); ++i) {
        if (target != T[i].name) continue;
        int bad = 0;
        for (int r = 0; r < times; ++r) {
            std::string why, desc; std::vector<uint64_t> o;
            Outcome oc = bcount ? run_batch(s, i, bseed, bfirst, bcount, why) : run_tape(s, i, tape, why, &o, &desc);
            if (oc == FAILED) { if (!bad) printf("FAILED: %s\ncase: %s\n", why.c_str(), desc.c_str()); ++bad; }
            else if (r == 0) printf("no failure; case: %s\n", desc.c_str());
        }
        printf("%d of %d replays failed\n", bad, times);
        if (bad) { FILE* e = fopen((s.dir + ".err").c_str(), "r"); if (e) { char b[8192]; size_t n = fread(b, 1, sizeof b, e); fwrite(b, 1, n, stdout); fclose(e); } }
        return bad ? 1 : 0;
    }
    fprintf(stderr, "no such target %s\n", target.c_str());
    return 2;
}

} // namespace pbt

static void cleanup_base()
{
    if (pbt::g_base.empty()) return;
    pbt::clear_dir(pbt::g_base);
    rmdir(pbt::g_base.c_str());
}

int main(int argc, char** argv)
{
    if (argc < 2) { fprintf(stderr, "usage: %s run|list|replay ...\n", argv[0]); return 2; }
    std::string cmd = argv[1];
    if (cmd == "list") { for (auto& t : pbt::targets()) printf("%s quick=%u thorough=%u batch=%u\n", t.name, t.quick, t.thorough, t.batch); return 0; }
    const char* b = getenv("PBT_SCRATCH");
    std::string base = b ? b : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    pbt::g_base = base + "/pbt." + std::to_string(getpid());
    mkdir(pbt::g_base.c_str(), 0700);
    int rc = 2;
    if (cmd == "run") rc = pbt::run_all(argc, argv);
    else if (cmd == "replay") rc = pbt::do_replay(argc, argv);
    cleanup_base();
    fflush(stdout); fflush(stderr);
    _exit(rc);
}
