#include "core.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <signal.h>
#include <ucontext.h>
#include <mutex>
#include <pthread.h>

namespace hx {

static FILE *g_out;
static std::mutex g_mu;
static std::unordered_set<uint64_t> g_distinct;
static long g_evals, g_nontrivial, g_cases, g_fails;
static std::vector<std::string> g_samples;
static std::map<std::string, long> g_stats;
static volatile long *g_progress;   // mmapped: current case index
static std::string g_scratch;
static uint64_t g_time = 1600000000;
static bool g_leak;
static std::string g_cur;           // current scenario
struct Guard { uint8_t *lo, *hi; const char *label; size_t n; };
static const int NGUARD = 4096;
static Guard g_guard[NGUARD];       // live guard pages, for the fault monitor
static std::mutex g_guardMu;
static void guardAdd(uint8_t *lo, uint8_t *hi, const char *label, size_t n) {
    std::lock_guard<std::mutex> l(g_guardMu);
    for (auto &g : g_guard) if (!g.lo) { g = {lo, hi, label, n}; return; }
}
static void guardDel(uint8_t *lo) {
    std::lock_guard<std::mutex> l(g_guardMu);
    for (auto &g : g_guard) if (g.lo == lo) { g.lo = nullptr; return; }
}
bool leakMode() { return g_leak; }
// fault monitor: names the buffer whose guard page was hit before dying
static void onSegv(int sig, siginfo_t *si, void *uc) {
    uint8_t *a = (uint8_t *)si->si_addr;
    bool wr = false;
#ifdef __x86_64__
    wr = (((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
#endif
    for (auto &g : g_guard)
        if (g.lo && a >= g.lo && a < g.hi) {
            char m[512];
            int k = snprintf(m, sizeof m, "FAIL\t%s\t%ld\t%s\t%s beyond the end of buffer '%s' of %zu bytes (offset +%ld)\n", g_cur.c_str(), *g_progress,
                             wr ? "write-beyond-buffer" : "read-beyond-buffer", wr ? "write" : "read", g.label, g.n, (long)(a - g.lo));
            if (write(fileno(g_out), m, (size_t)k) < 0) {}
            break;
        }
    signal(sig, SIG_DFL);
}

uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull;
    return mix(h ^ n);
}
Bytes Rng::bytes(size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = u64();
        for (size_t j = 0; j < 8 && i + j < n; j++) b[i + j] = (uint8_t)(v >> (8 * j));
    }
    return b;
}
Bytes Rng::data(size_t n) {
    Bytes b;
    switch (below(8)) {
    case 0: b.assign(n, (uint8_t)(below(3) == 0 ? 0 : below(2) ? 0xff : u64())); break;
    case 1: b.resize(n); for (auto &x : b) x = (uint8_t)below(18); break;
    case 2: b.resize(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)i; break;
    case 3: b = bytes(n); for (auto &x : b) if (below(4)) x = 0; break;
    default: b = bytes(n);
    }
    return b;
}

std::string strf(const char *fmt, ...) {
    char tmp[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    return tmp;
}
std::string hex(const void *p, size_t n, size_t max) {
    std::string s;
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n && i < max; i++) s += strf("%02x", b[i]);
    if (n > max) s += strf("...(%zu bytes)", n);
    return s;
}
static std::string oneLine(std::string s) {
    for (auto &ch : s) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
    return s;
}

void Case::fail(const char *key, const char *fmt, ...) {
    char tmp[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    {
        std::lock_guard<std::mutex> l(g_mu);
        g_fails++;
        fprintf(g_out, "FAIL\t%s\t%ld\t%s\t%s\n", scen.c_str(), idx, key, oneLine(tmp).c_str());
        fflush(g_out);
    }
    throw CaseAbort();
}
void Case::eq(const void *got, const void *want, size_t n, const char *key, const std::string &what) {
    if (n == 0 || memcmp(got, want, n) == 0) return;
    size_t i = 0;
    while (((const uint8_t *)got)[i] == ((const uint8_t *)want)[i]) i++;
    fail(key, "%s: first difference at byte %zu of %zu: got %s want %s", what.c_str(), i, n,
         hex((const uint8_t *)got + (i & ~15ul), n - (i & ~15ul), 20).c_str(),
         hex((const uint8_t *)want + (i & ~15ul), n - (i & ~15ul), 20).c_str());
}
void Case::eqn(long long got, long long want, const char *key, const std::string &what) {
    if (got != want) fail(key, "%s: got %lld want %lld", what.c_str(), got, want);
}
void Case::observe(uint64_t h, bool nontrivial) {
    std::lock_guard<std::mutex> l(g_mu);
    g_evals++;
    if (nontrivial && !g_leak) { g_nontrivial++; if (g_distinct.size() < 2000000) g_distinct.insert(h); }
}
void Case::sample(const std::string &s) {
    std::lock_guard<std::mutex> l(g_mu);
    if (g_samples.size() < 6 && !g_leak) g_samples.push_back(scen + "#" + std::to_string(idx) + ": " + s);
}
void Case::stat(const char *name, long v) {
    std::lock_guard<std::mutex> l(g_mu);
    g_stats[name] += v;
}

bool isSan() {
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(HX_HEAPBUF)
    return true;
#else
    return false;
#endif
}

static const size_t PRE = 64;
void Buf::alloc(size_t n) {
    n_ = n;
    if (isSan()) {
        p_ = (uint8_t *)malloc(n);      // n==0: any access is an error for the sanitizer
        pre_ = 0;
        return;
    }
    size_t pg = 4096;
    size_t body = (n + PRE + pg - 1) / pg * pg;
    maplen_ = body + pg;
    map_ = (uint8_t *)mmap(nullptr, maplen_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map_ == MAP_FAILED) { perror("mmap"); _exit(90); }
    mprotect(map_ + body, pg, PROT_NONE);
    p_ = map_ + body - n;
    pre_ = PRE;
    memset(p_ - pre_, 0xC7, pre_);
    guardAdd(map_ + body, map_ + maplen_, label_, n);
}
Buf::Buf(Case &c, const char *label, size_t n, int fill) : c_(c), label_(label) {
    alloc(n);
    if (n) memset(p_, fill, n);
    snap();
}
Buf::Buf(Case &c, const char *label, const Bytes &b) : c_(c), label_(label) {
    alloc(b.size());
    if (!b.empty()) memcpy(p_, b.data(), b.size());
    snap();
}
Buf::~Buf() {
    if (map_) { guardDel(map_ + maplen_ - 4096); munmap(map_, maplen_); }
    else free(p_);
}
void Buf::set(const Bytes &b) {
    if (b.size() != n_) { fprintf(stderr, "harness: Buf::set size\n"); _exit(91); }
    if (n_) memcpy(p_, b.data(), n_);
    snap();
}
void Buf::canary() {
    for (size_t i = 0; i < pre_; i++)
        if (p_[-(long)pre_ + (long)i] != 0xC7)
            c_.fail("write-before-buffer", "bytes before buffer '%s' (size %zu) were overwritten", label_, n_);
}
void Buf::onlyPrefix(size_t used) {
    canary();
    for (size_t i = used; i < n_; i++)
        if (p_[i] != snap_[i])
            c_.fail("write-beyond-declared", "buffer '%s': byte %zu changed although only %zu of %zu bytes are output",
                    label_, i, used, n_);
}
void Buf::mustBeUnchanged() {
    canary();
    for (size_t i = 0; i < n_; i++)
        if (p_[i] != snap_[i])
            c_.fail("input-modified", "buffer '%s' (size %zu): byte %zu changed from %02x to %02x", label_, n_, i, snap_[i], p_[i]);
}

std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> v;
    return v;
}
void setTime(uint64_t t) { __atomic_store_n(&g_time, t, __ATOMIC_SEQ_CST); }
std::string scratch() { return g_scratch; }
bool readFile(const std::string &p, Bytes &out) {
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    out.clear();
    uint8_t tmp[65536];
    ssize_t k;
    while ((k = read(fd, tmp, sizeof tmp)) > 0) out.insert(out.end(), tmp, tmp + k);
    close(fd);
    return k == 0;
}
bool writeFile(const std::string &p, const Bytes &b) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < b.size()) {
        ssize_t k = write(fd, b.data() + o, b.size() - o);
        if (k <= 0) { close(fd); return false; }
        o += (size_t)k;
    }
    close(fd);
    return true;
}
bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::set<std::string> listDir(const std::string &d) {
    std::set<std::string> s;
    DIR *dp = opendir(d.c_str());
    if (!dp) return s;
    while (dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") s.insert(n);
    }
    closedir(dp);
    return s;
}
int openFds() {
    int n = 0;
    DIR *dp = opendir("/proc/self/fd");
    if (!dp) return -1;
    while (dirent *e = readdir(dp)) if (e->d_name[0] != '.') n++;
    closedir(dp);
    return n;
}
size_t rndLen(Rng &r, size_t max) {
    size_t n;
    switch (r.below(6)) {
    case 0: n = r.below(20); break;
    case 1: n = r.below(70); break;
    case 2: n = 16 * r.below(max / 16 + 1); break;
    case 3: n = 16 * r.below(max / 16 + 1) + (r.below(2) ? 1 : 15); break;
    default: n = r.below(max + 1);
    }
    return n > max ? max : n;
}
size_t sweepLen(Case &c, size_t sweep, size_t max) {
    if ((size_t)c.idx < sweep) return (size_t)c.idx;
    return rndLen(c.rng, max);
}
Bytes keyOf(Rng &r, size_t &len) {
    switch (r.below(5)) {
    case 0: len = r.below(16); break;
    case 1:
        len = 17 + r.below(48);
        if (r.below(8) == 0) {      // lengths that are short ones when cut to 8 or 16 bits
            len = (r.below(3) ? 256 * (1 + r.below(3)) : 65536) + r.below(17);
            Bytes k = r.data(48); k.resize(len, (uint8_t)r.u64());
            return k;
        }
        break;
    default: len = 16;
    }
    return r.data(len);
}
Bytes relatedKey(Rng &r, const Bytes &k) {
    Bytes n = normKey(k), o = k;
    switch (r.below(9)) {
    case 0: return k;                                                   // the same key again
    case 1: o = n; o.back() ^= (uint8_t)(1 + r.below(255)); return o;   // differs in the last byte
    case 2: o = n; o[0] ^= (uint8_t)(1 + r.below(255)); return o;       // ... in the first
    case 3: o = n; o[r.below(16)] ^= (uint8_t)(1u << r.below(8)); return o;
    case 4: o = n; for (size_t i = 8; i < 16; i++) o[i] = (uint8_t)r.u64(); return o;   // same first half
    case 5: o = n; for (size_t i = 0; i < 8; i++) o[i] = (uint8_t)r.u64(); return o;    // same second half
    case 6: { size_t z = r.below(15); o = n; o[z] = 0; for (size_t i = z + 1; i < 16; i++) o[i] = (uint8_t)r.u64(); return o; }  // equal C string prefix once chosen twice
    case 7: o = n; { Bytes t = r.bytes(r.below(20)); o.insert(o.end(), t.begin(), t.end()); } return o;  // same effective key, longer
    default: o.resize(r.below(o.size() + 1)); return o;                 // shortened
    }
}
Bytes normKey(const Bytes &k) {
    Bytes o(k.begin(), k.begin() + (k.size() > 16 ? 16 : k.size()));
    size_t pad = 16 - o.size();
    while (o.size() < 16) o.push_back((uint8_t)pad);
    return o;
}

} // namespace hx

// Library randomness is seeded from time(): the harness owns the clock so that
// every case has its own, reproducible generator seed.
extern "C" time_t time(time_t *t) {
    time_t v = (time_t)__atomic_load_n(&hx::g_time, __ATOMIC_SEQ_CST);
    if (t) *t = v;
    return v;
}

namespace hx {
static const size_t SZ = 4u << 20;
static void *runOn(void *p) { (*(const std::function<void()> *)p)(); return nullptr; }
size_t stackUse(const std::function<void()> &f) {
    static uint8_t *st = nullptr;
    if (!st) {
        st = (uint8_t *)mmap(nullptr, SZ + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (st == MAP_FAILED || mprotect(st, 65536, PROT_NONE)) _exit(91);
        st += 65536;
    }
    memset(st, 0xC7, SZ);
    pthread_attr_t a; pthread_t t;
    pthread_attr_init(&a);
    if (pthread_attr_setstack(&a, st, SZ) || pthread_create(&t, &a, runOn, (void *)&f)) _exit(91);
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
    size_t i = 0;
    while (i < SZ && st[i] == 0xC7) i++;
    return SZ - i;
}
}

namespace hx { void selfTest(); }

int main(int argc, char **argv) {
    using namespace hx;
    std::string scen, out, prog, only;
    long from = 0, to = 0, step = 1, off = 0;
    uint64_t seed = 1;
    bool thorough = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scen") scen = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--progress") prog = nxt();
        else if (a == "--from") from = atol(nxt().c_str());
        else if (a == "--to") to = atol(nxt().c_str());
        else if (a == "--step") step = atol(nxt().c_str());
        else if (a == "--off") off = atol(nxt().c_str());
        else if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--scratch") g_scratch = nxt();
        else if (a == "--thorough") thorough = true;
        else if (a == "--leak") g_leak = true;
        else if (a == "--list") { for (auto &s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
        else { fprintf(stderr, "harness: bad argument %s\n", a.c_str()); return 92; }
    }
    g_out = fopen(out.c_str(), "a");
    if (!g_out) { perror("out"); return 93; }
    long dummy = -1;
    g_progress = &dummy;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g_progress = (long *)m;
        }
        if (fd >= 0) close(fd);
    }
    selfTest();
    const Scenario *s = nullptr;
    for (auto &x : scenarios()) if (x.name == scen) s = &x;
    if (!s) { fprintf(stderr, "harness: no scenario %s\n", scen.c_str()); return 94; }
    signal(SIGPIPE, SIG_IGN);
    g_cur = scen;
    if (!isSan()) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = onSegv;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
    }
    for (long i = from + off; i < to; i += step) {
        Case c;
        c.scen = scen;
        c.idx = i;
        c.seed = seed;
        c.thorough = thorough;
        *g_progress = i;
        auto once = [&]() {
            c.rng = Rng(hashBytes(scen.data(), scen.size(), mix(seed * 1000003 + (uint64_t)i)));
            setTime(1500000000 + (c.rng.u64() % 500000000));
            uint64_t fill = hx::mix(seed + 77 * (uint64_t)i);
            setFill((fill >> 8) % 4 ? (int)(fill & 0xff) : 0);        // fresh heap memory: any byte, often zero
            s->fn(c);
        };
        try {
            if (!g_leak) once();
            else {
                long b[8], y[8]; int f[8];
                int passes = 3;
                for (int p = 0; p < passes; p++) {
                    once();
                    liveMem(b[p], y[p]);
                    f[p] = openFds();
                    if (p == 2 && passes == 3 && ((y[2] > y[1] && y[1] > y[0]) || (f[2] > f[1] && f[1] > f[0]))) passes = 7;
                }
                if (passes == 7) {
                    bool mem = true, fds = true;
                    for (int p = 2; p < 7; p++) { if (y[p] <= y[p - 1]) mem = false; if (f[p] <= f[p - 1]) fds = false; }
                    if (mem) c.fail("leak-memory", "each repetition of this history keeps %ld more bytes in %ld more blocks", y[6] - y[5], b[6] - b[5]);
                    if (fds) c.fail("leak-fd", "each repetition of this history keeps %d more open files", f[6] - f[5]);
                }
                g_nontrivial++;
                g_distinct.insert(hx::mix((uint64_t)i * 31 + hashBytes(scen.data(), scen.size())));
            }
        } catch (CaseAbort &) {
            if (g_fails > 20) break;
        }
        g_cases++;
    }
    *g_progress = -2;
    for (auto &x : g_samples) fprintf(g_out, "SAMPLE\t%s\n", oneLine(x).c_str());
    for (auto &x : g_stats) fprintf(g_out, "STAT\t%s\t%ld\n", x.first.c_str(), x.second);
    fprintf(g_out, "DONE\t%ld\t%ld\t%ld\t%zu\n", g_cases, g_evals, g_nontrivial, g_distinct.size());
    for (auto h : g_distinct) { static long k = 0; if (k++ >= 400000) break; fprintf(g_out, "H\t%llx\n", (unsigned long long)h); }
    fclose(g_out);
    fflush(stdout);
    return 0;
}
