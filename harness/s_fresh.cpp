// C29: every part of a white-box table set comes from fresh randomness, and the key is nowhere in it
#include "lib.h"
extern "C" {
#include <wbcrypto/se_wbsm4.h>
}
using namespace kit;
namespace {
// one kind of table: `leaf` bytes make one lookup table or matrix
struct Part { Bytes b; size_t leaf; };
typedef std::map<std::string, Part> Img;
void put(Img &m, const std::string &k, const void *p, size_t n, size_t leaf) {
    Part &q = m[k]; q.leaf = leaf; q.b.insert(q.b.end(), (const uint8_t *)p, (const uint8_t *)p + n);
}
#define T(x, f, leaf) put(m, #f, x->f, sizeof x->f, leaf)
const char *const names[] = {"wbaes", "wbgcm-ee", "wbgcm-mask encryption", "wbgcm-mask decryption", "wbsm4", "se_wbsm4"};
template <class X> void aesParts(Img &m, X *x) { T(x, TypeII, 1024); T(x, TypeIII, 1024); T(x, TypeIV_II, 256); T(x, TypeIV_III, 256); T(x, TypeIa, 256); }

Img gen(Case &c, int kind, const Bytes &key, int mode, int dummy, std::string &pattern) {
    Img m;
    Buf kb(c, "key", key);
    pattern.clear();
    if (kind == 0) {
        auto *x = WBCRYPTO_wbaes_context_init();
        c.check(x && WBCRYPTO_wbaes_gen_table(x, kb.p(), kb.size()) == 1, "gen-return", "wbaes_gen_table failed");
        aesParts(m, x); T(x, TypeIb, 256); put(m, "context", x, sizeof *x, sizeof *x);
        WBCRYPTO_wbaes_context_free(x);
    } else if (kind == 1) {
        static auto *x = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context));
        WBCRYPTO_wbaes_wbgcm_ee_gen_table(x, kb.p(), kb.size());
        aesParts(m, x); T(x, GBOX_TypeI, 256); T(x, GBOX_TypeIII, 65536); put(m, "context", x, sizeof *x, sizeof *x);
    } else if (kind == 2 || kind == 3) {
        static auto *e = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *d = WBCRYPTO_wbaes_wbgcm_mask_init_table();
        c.check(e && d, "key-setup", "mask table allocation failed");
        WBCRYPTO_wbaes_wbgcm_mask_gen_table(e, d, kb.p(), kb.size());
        auto *x = kind == 2 ? e : d;
        aesParts(m, x); T(x, TypeIb, 256); T(x, GBOX_TypeI, 256); T(x, GBOX_TypeII, 256); T(x, L1, sizeof(M8));
        for (int i = 0; i < 16; i++) for (int j = 0; j < 256; j++) put(m, "GBOX_TypeIII", x->GBOX_TypeIII[i][j], 256, 65536);
        put(m, "context", x, sizeof *x, sizeof *x);
    } else if (kind == 4) {
        auto *x = WBCRYPTO_wbsm4_context_init(mode, dummy);
        c.check(x && WBCRYPTO_wbsm4_gen_table(x, kb.p(), kb.size()) == 1, "gen-return", "wbsm4_gen_table failed");
        static const uint32_t zero[256] = {0};
        for (int i = 0; i < x->rounds; i++) {
            // a dummy round adds nothing to the state
            bool dm = true;
            for (int j = 0; j < 4; j++) dm = dm && !memcmp(x->DD[i][j], zero, 1024);
            pattern += dm ? 'd' : '.';
            if (dm) continue;
            for (int j = 0; j < 4; j++) {
                for (int k = 0; k < 3; k++) put(m, "MM", x->MM[i][k][j], 1024, 1024);
                put(m, "CC", x->CC[i][j], 1024, 1024); put(m, "DD", x->DD[i][j], 1024, 1024); put(m, "Table", x->Table[i][j], 1024, 1024);
            }
        }
        T(x, SE, 1024); T(x, FE, 1024); put(m, "context", x, sizeof *x, sizeof *x);
        WBCRYPTO_wbsm4_context_free(x);
    } else {
        auto *x = WBCRYPTO_se_wbsm4_context_init(mode);
        c.check(x && WBCRYPTO_se_wbsm4_gen_table(x, kb.p(), kb.size()) == 1, "gen-return", "se_wbsm4_gen_table failed");
        T(x, M, sizeof(Aff32)); T(x, C, sizeof(Aff32)); T(x, D, sizeof(Aff32)); T(x, SE, sizeof(Aff32)); T(x, FE, sizeof(Aff32)); put(m, "context", x, sizeof *x, sizeof *x);
        WBCRYPTO_se_wbsm4_context_free(x);
    }
    return m;
}
bool has(const Bytes &h, const uint8_t *n, size_t k) { return memmem(h.data(), h.size(), n, k) != nullptr; }
}
// the key and every round key as they would lie in memory
static std::vector<Bytes> schedule(const ref::Cipher &R, const Bytes &key) {
    std::vector<Bytes> v{key};
    auto swap = [](uint32_t w) { return __builtin_bswap32(w); };
    if (!R.sm4) for (auto &rk : R.rk) {
        uint32_t w[4]; memcpy(w, rk, 16);
        v.push_back(Bytes(rk, rk + 16));
        for (auto &x : w) x = swap(x);
        v.push_back(Bytes((uint8_t *)w, (uint8_t *)(w + 4)));
    } else for (int i = 0; i + 4 <= 32; i++) for (int rev = 0; rev < 2; rev++) for (int sw = 0; sw < 2; sw++) {
        uint32_t w[4];
        for (int j = 0; j < 4; j++) { w[j] = R.srk[rev ? i + 3 - j : i + j]; if (sw) w[j] = swap(w[j]); }
        v.push_back(Bytes((uint8_t *)w, (uint8_t *)(w + 4)));
    }
    return v;
}
// how much later: a second, any time, or a distance at which a seed cut out of the clock (its low bits, the second or the
// minute of the hour, ...) would come round again
static uint64_t later(Rng &r) {
    switch (r.below(5)) {
    case 0: return 1;
    case 1: return 1 + r.below(1u << r.below(24));
    case 2: return 1ull << (1 + r.below(26));
    case 3: { static const uint64_t u[] = {60, 3600, 86400, 7 * 86400, 1000, 100}; return u[r.below(6)] * (1 + r.below(20)); }
    default: return 1 + r.below(59);
    }
}
SCENARIO(fresh_tables, "fresh.tables") {
    const int G = 16;
    int kind = (int)(c.idx % 6), mode = (int)(c.idx / 6 % 2) ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE;
    int dummy = c.idx / 6 % 3 == 0 ? 0 : 1 + (int)c.rng.below(8);
    bool same = c.idx / 12 % 2 == 0;
    Bytes key = c.rng.bytes(16);
    std::vector<Img> g; std::vector<std::string> pat;
    uint64_t t0 = 1000000000 + c.rng.below(3000000000ull);
    for (int i = 0; i < G; i++) {
        hx::setTime(t0 += later(c.rng));
        if (!same) key = c.rng.bytes(16);
        std::string p;
        g.push_back(gen(c, kind, key, mode, dummy, p));
        pat.push_back(p);
        // the key and its schedule
        ref::Cipher R(kind >= 4, key);
        std::vector<Bytes> secrets = schedule(R, key);
        for (auto &kv : g.back()) for (auto &s : secrets) if (has(kv.second.b, s.data(), s.size())) c.fail("key-in-table", "%s: key material in table %s", names[kind], kv.first.c_str());
    }
    for (auto &kv : g[0]) {
        if (kv.first == "context") continue;
        size_t n = kv.second.b.size(), leaf = kv.second.leaf;
        bool aligned = true;
        for (auto &x : g) aligned = aligned && x[kv.first].b.size() == n;
        // no lookup table occurs twice in one set, and no kind of table is the same in two sets
        std::unordered_set<uint64_t> whole;
        for (int i = 0; i < G; i++) {
            const Bytes &b = g[(size_t)i][kv.first].b;
            std::unordered_set<uint64_t> seen;
            for (size_t o = 0; o + leaf <= b.size(); o += leaf) {
                if (!seen.insert(hx::hashBytes(&b[o], leaf)).second) c.fail("table-repeated", "%s: lookup table %s[%zu] occurs twice in one set", names[kind], kv.first.c_str(), o / leaf);
                c.stat("lookup tables compared");
            }
            if (!whole.insert(hx::hashBytes(b.data(), b.size())).second) c.fail("table-repeated", "%s: tables %s are those of an earlier generation", names[kind], kv.first.c_str());
        }
        // and no four bits keep their value
        if (aligned) for (size_t o = 0; o < n; o++) for (int h = 0; h < 8; h += 4) {
            if (kv.first.compare(0, 6, "TypeIV") == 0 && h) continue;                       // four-bit entries
            if (kv.first == "TypeII" && o >= 9 * 16 * 1024 && o % 4) continue;              // one-byte entries of the last round
            uint8_t v = g[0][kv.first].b[o] >> h & 15; bool k = true;
            for (int i = 1; i < G && k; i++) k = (g[(size_t)i][kv.first].b[o] >> h & 15) == v;
            if (k) c.fail("table-constant", "%s: four bits at byte %zu of table %s[%zu] were %x in all %d generations", names[kind], o % leaf, kv.first.c_str(), o / leaf, v, G);
        }
        c.observe(hx::hashBytes(kv.second.b.data(), n));
    }
    if (kind == 4 && dummy) {
        std::set<std::string> s(pat.begin(), pat.end());
        if (pat[0].find('d') != std::string::npos && s.size() == 1) c.fail("dummy-positions", "wbsm4: %d dummy rounds at the same places in all %d generations: %s", dummy, G, pat[0].c_str());
        c.stat("dummy round placements", (long)s.size());
    }
    c.stat("table sets generated", G);
    if (c.idx % 16 < 6) c.sample(strf("%s, %d generations%s%s%s", names[kind], G, same ? " for one key" : "", kind == 4 ? ", rounds " : "", pat[0].c_str()));
}
// two processes that start alike but at different times
#include <sys/wait.h>
#include <unistd.h>
SCENARIO(fresh_process, "fresh.process") {
    int kind = (int)(c.idx % 6), mode = (int)(c.idx / 6 % 2) ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE;
    Bytes key = c.rng.bytes(16);
    int dummy = 8 + (int)c.rng.below(6);                    // 8 of 40 rounds: 76 million placements
    uint64_t t0 = 1000000000 + c.rng.below(3000000000ull), t1 = t0 + later(c.rng);
    typedef std::vector<uint64_t> Hs;
    Hs h[2];
    for (int q = 0; q < 2; q++) {
        int fd[2];
        if (pipe(fd)) _exit(91);
        pid_t pid = fork();
        if (pid < 0) _exit(91);
        if (!pid) {
            hx::setTime(q ? t1 : t0);
            std::string p; Hs v;
            try {
                Img m = gen(c, kind, key, mode, dummy, p);
                if (kind == 4) v.push_back(hx::hashBytes(p.data(), p.size()));
                for (auto &kv : m) if (kv.first != "context") for (size_t o = 0; o + kv.second.leaf <= kv.second.b.size(); o += kv.second.leaf) v.push_back(hx::hashBytes(&kv.second.b[o], kv.second.leaf));
            } catch (...) { v.clear(); }
            const char *w = (const char *)v.data(); size_t n = v.size() * 8;
            while (n) { ssize_t k = write(fd[1], w, n); if (k <= 0) _exit(1); w += k; n -= (size_t)k; }
            _exit(0);
        }
        close(fd[1]);
        uint64_t x; size_t got = 0; ssize_t k;
        while ((k = read(fd[0], (char *)&x + got, 8 - got)) > 0) { got += (size_t)k; if (got == 8) { h[q].push_back(x); got = 0; } }
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (h[q].empty()) c.fail("gen-return", "%s: table generation in a child process gave nothing (status %x)", names[kind], st);
    }
    if (h[0].size() == h[1].size()) for (size_t i = 0; i < h[0].size(); i++) {
        if (kind == 4 && i == 0) {
            if (h[0][0] == h[1][0]) c.fail("dummy-positions", "wbsm4: the %d dummy rounds are at the same places in two processes started %llu s apart", dummy, (unsigned long long)(t1 - t0));
            continue;
        }
        if (h[0][i] == h[1][i]) c.fail("table-repeated", "%s: lookup table %zu is the same in two processes started %llu s apart", names[kind], i, (unsigned long long)(t1 - t0));
        c.stat("lookup tables compared");
    }
    c.observe(hx::hashBytes(h[0].data(), h[0].size() * 8));
    c.stat("process pairs");
}
