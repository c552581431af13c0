// Allocator monitor (plain builds only): counts live blocks/bytes and fills every
// new block with a case-dependent pattern and every freed block with 0xDD, so that
// results which depend on uninitialised or freed memory become visible.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <malloc.h>
#include "core.h"
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace hx {
long g_liveBlocks, g_liveBytes;
int g_fill = 0xA5;
bool haveMallocMonitor() { return true; }
void liveMem(long &blocks, long &bytes) {
    blocks = __atomic_load_n(&g_liveBlocks, __ATOMIC_SEQ_CST);
    bytes = __atomic_load_n(&g_liveBytes, __ATOMIC_SEQ_CST);
}
void setFill(int v) { g_fill = v; }
static inline void add(void *p) {
    __atomic_add_fetch(&g_liveBlocks, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&g_liveBytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
}
static inline void sub(void *p) {
    __atomic_sub_fetch(&g_liveBlocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&g_liveBytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
}
// watch: does a block hold one of some 8-byte secrets when it is given back?
static const uint64_t MASK = 0x5bd1e9955bd1e995ull;     // the secrets themselves must not lie around here
static bool g_watch;
static uint64_t g_sec[1024]; static int g_nsec;
static uint64_t g_maybe[1024];
static uint32_t g_word[1024]; static int g_nword; static uint64_t g_maybeW[1024];
static size_t g_blocks, g_bytes; static FreeHit g_hit;
// four different 4-byte words of the key schedule in one region, however far apart
static bool wordsIn(const unsigned char *p, size_t n, size_t &off) {
    int seen[4], ns = 0;
    for (size_t i = (size_t)(-(uintptr_t)p & 3); i + 4 <= n; i += 4) {
        uint32_t v; memcpy(&v, p + i, 4);
        unsigned h = v & 0xffff;
        if (!(g_maybeW[h >> 6] >> (h & 63) & 1)) continue;
        v ^= (uint32_t)MASK;
        for (int k = 0; k < g_nword; k++) if (g_word[k] == v) {
            bool old = false; for (int j = 0; j < ns; j++) old = old || seen[j] == k;
            if (!old) { seen[ns++] = k; off = i; if (ns == 4) return true; }
            break;
        }
    }
    return false;
}
static bool secretAt(const unsigned char *p) {
    uint64_t v; memcpy(&v, p, 8);
    unsigned h = (unsigned)(v & 0xffff);
    if (!(g_maybe[h >> 6] >> (h & 63) & 1)) return false;
    v ^= MASK;
    for (int i = 0; i < g_nsec; i++) if (g_sec[i] == v) return true;
    return false;
}
static void scan(const void *b, size_t n) {
    const unsigned char *p = (const unsigned char *)b;
    g_blocks++; g_bytes += n;
    for (size_t i = 0; i + 8 <= n; i++) if (secretAt(p + i)) { if (!g_hit.hits) { g_hit.size = n; g_hit.offset = i; } g_hit.hits++; }
    size_t o;
    if (wordsIn(p, n, o)) { if (!g_hit.hits) { g_hit.size = n; g_hit.offset = o; } g_hit.hits++; }
}
void watchFrees(const std::vector<uint64_t> &secrets, const std::vector<uint32_t> &words) {
    memset(g_maybeW, 0, sizeof g_maybeW); g_nword = 0;
    for (uint32_t v : words) if (g_nword < 1024) { g_word[g_nword++] = v ^ (uint32_t)MASK; unsigned h = v & 0xffff; g_maybeW[h >> 6] |= 1ull << (h & 63); }
    memset(g_maybe, 0, sizeof g_maybe); g_nsec = 0; g_hit = FreeHit(); g_blocks = g_bytes = 0;
    for (uint64_t v : secrets) if (g_nsec < 1024) { g_sec[g_nsec++] = v ^ MASK; unsigned h = (unsigned)(v & 0xffff); g_maybe[h >> 6] |= 1ull << (h & 63); }
    __atomic_store_n(&g_watch, true, __ATOMIC_SEQ_CST);
}
FreeHit unwatchFrees() { __atomic_store_n(&g_watch, false, __ATOMIC_SEQ_CST); g_hit.blocks = g_blocks; g_hit.bytes = g_bytes; return g_hit; }
bool secretIn(const void *b, size_t n, size_t &off) { const unsigned char *p = (const unsigned char *)b; for (size_t i = 0; i + 8 <= n; i++) if (secretAt(p + i)) { off = i; return true; } return wordsIn(p, n, off); }
static inline void fill(void *p, size_t n) { if (n <= (1u << 20)) memset(p, g_fill, n); }
}
// failing allocations: the k-th request made by code of the executable itself (the library under test; shared libraries are not counted)
extern "C" char __executable_start[], etext[];
namespace hx {
static long g_allocs, g_failAt; static bool g_count, g_failed;
void failAlloc(long k) { g_allocs = 0; g_failAt = k; g_failed = false; __atomic_store_n(&g_count, true, __ATOMIC_SEQ_CST); }
long allocsSeen(bool &failed) { __atomic_store_n(&g_count, false, __ATOMIC_SEQ_CST); failed = g_failed; return g_allocs; }
static inline bool refuse(void *ra) {
    if (!__atomic_load_n(&g_count, __ATOMIC_RELAXED) || (char *)ra < __executable_start || (char *)ra >= etext) return false;
    if (__atomic_add_fetch(&g_allocs, 1, __ATOMIC_RELAXED) != g_failAt) return false;
    g_failed = true; errno = ENOMEM;
    return true;
}
}
#define REFUSE() if (hx::refuse(__builtin_return_address(0))) return NULL
extern "C" {
void *malloc(size_t n) { REFUSE(); void *p = __libc_malloc(n); if (p) { hx::add(p); hx::fill(p, malloc_usable_size(p)); } return p; }
void *calloc(size_t a, size_t b) { REFUSE(); void *p = __libc_calloc(a, b); if (p) hx::add(p); return p; }
void *realloc(void *o, size_t n) {
    REFUSE();
    if (hx::g_watch && o && n) {                        // a move gives the old block back
        void *p = malloc(n);
        if (!p) return p;
        size_t k = malloc_usable_size(o);
        memcpy(p, o, k < n ? k : n);
        free(o);
        return p;
    }
    size_t old = o ? malloc_usable_size(o) : 0;
    if (o) hx::sub(o);
    void *p = __libc_realloc(o, n);
    if (p) {
        hx::add(p);
        size_t now = malloc_usable_size(p);
        if (now > old && now - old <= (1u << 20)) memset((char *)p + old, hx::g_fill, now - old);
    } else if (o && n) hx::add(o);
    return p;
}
void free(void *p) {
    if (!p) return;
    int e = errno;
    hx::sub(p);
    size_t n = malloc_usable_size(p);
    if (hx::g_watch) hx::scan(p, n);
    if (n <= (1u << 20)) memset(p, 0xDD, n);
    __libc_free(p);
    errno = e;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) { hx::add(p); hx::fill(p, malloc_usable_size(p)); } return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
