// Core of the monitoring harness: deterministic cases, guarded buffers,
// violation reporting.  Everything here lives in namespace hx so that no symbol
// can collide with the (unprefixed) globals of the library under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <unordered_set>

namespace hx {

typedef std::vector<uint8_t> Bytes;

uint64_t mix(uint64_t x);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull);

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed ^ 0xD1B54A32D192ED03ull)) {}
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint32_t u32() { return (uint32_t)(u64() >> 32); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    Bytes bytes(size_t n);          // uniformly random
    Bytes data(size_t n);           // shaped: random / constant / low entropy / small values
};

// thrown to give up the current case after a failure was recorded
struct CaseAbort {};

struct Case {
    Rng rng{1};
    std::string scen;
    long idx = 0;
    bool thorough = false;
    uint64_t seed = 1;
    long lastLen = 0;

    void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void check(bool ok, const char *key, const char *what) { if (!ok) fail(key, "%s", what); }
    void eq(const void *got, const void *want, size_t n, const char *key, const std::string &what);
    void eqn(long long got, long long want, const char *key, const std::string &what);
    // one observation: hash of what was observed, and whether it was non-trivial
    void observe(uint64_t h, bool nontrivial = true);
    void sample(const std::string &s);
    void stat(const char *name, long v = 1);
};

// ---------------------------------------------------------------- buffers
// Writable or read-only caller buffer of EXACTLY n bytes.
//  - plain build: flush against a PROT_NONE page (end) with canary bytes before it
//  - sanitizer/valgrind build: exact-size heap block
// In/Out semantics: inputs are snapshotted and compared when checked.
class Buf {
public:
    Buf(Case &c, const char *label, size_t n, int fill = 0xA5);
    Buf(Case &c, const char *label, const Bytes &b);
    ~Buf();
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    uint8_t *p() { return p_; }
    char *c() { return (char *)p_; }
    size_t size() const { return n_; }
    Bytes bytes() const { return Bytes(p_, p_ + n_); }
    Bytes bytes(size_t n) const { return Bytes(p_, p_ + n); }
    void set(const Bytes &b);
    void refill(int v) { if (n_) memset(p_, v, n_); snap(); }
    void snap() { snap_.assign(p_, p_ + n_); haveSnap_ = true; }
    bool unchanged() const { return !haveSnap_ || snap_.size() == 0 || memcmp(p_, snap_.data(), n_) == 0; }
    // checks that only [0, used) may have changed since the last snap
    void onlyPrefix(size_t used);
    void mustBeUnchanged();
    void canary();
private:
    Case &c_;
    const char *label_;
    size_t n_;
    uint8_t *p_ = nullptr;
    uint8_t *map_ = nullptr;
    size_t maplen_ = 0;
    size_t pre_ = 0;
    Bytes snap_;
    bool haveSnap_ = false;
    void alloc(size_t n);
};

// ---------------------------------------------------------------- scenarios
typedef void (*CaseFn)(Case &);
struct Scenario {
    std::string name;
    CaseFn fn;
};
std::vector<Scenario> &scenarios();
struct Reg {
    Reg(const char *n, CaseFn f) { scenarios().push_back({n, f}); }
};

// Runs f (which may not throw) on a thread whose painted stack shows how deep it went.
size_t stackUse(const std::function<void()> &f);

#define SCENARIO(id, name) \
    static void id(hx::Case &c); \
    static hx::Reg reg_##id(name, id); \
    static void id(hx::Case &c)

// ---------------------------------------------------------------- environment
void setTime(uint64_t t);           // value returned by time() from now on
std::string scratch();              // private scratch directory (exists)
bool isSan();                       // sanitizer / valgrind flavour
bool leakMode();                    // every case is repeated and must not grow memory
bool haveMallocMonitor();
void liveMem(long &blocks, long &bytes);
void setFill(int v);
// between the two calls every block given back to the allocator is searched for the 8-byte secrets
struct FreeHit { size_t hits = 0, size = 0, offset = 0, blocks = 0, bytes = 0; };
void watchFrees(const std::vector<uint64_t> &secrets, const std::vector<uint32_t> &words);
FreeHit unwatchFrees();
// from failAlloc on the library's k-th allocation fails (0: none); allocsSeen stops that and tells how many there were
void failAlloc(long k);
long allocsSeen(bool &failed);
bool secretIn(const void *p, size_t n, size_t &off);     // search with the secrets of the last watch
std::string hex(const void *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool readFile(const std::string &p, Bytes &out);
bool writeFile(const std::string &p, const Bytes &b);
bool exists(const std::string &p);
std::set<std::string> listDir(const std::string &d);
int openFds();

// length that sweeps 0..sweep-1 in the first `sweep` cases and is random
// (biased to block boundaries) up to max afterwards
size_t sweepLen(Case &c, size_t sweep, size_t max);
size_t rndLen(Rng &r, size_t max);
Bytes keyOf(Rng &r, size_t &len);   // key bytes with a varied length, normalised key by normKey
Bytes relatedKey(Rng &r, const Bytes &k);   // another key that is easy to confuse with k (or k itself)
Bytes normKey(const Bytes &k);      // documented: PKCS#7-expanded / truncated to 16

} // namespace hx
