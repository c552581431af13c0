// Key material must not stay behind in memory the library gives back, nor in static storage.
#include "lib.h"
#include <unistd.h>
#include <link.h>
extern "C" {
#include <wbcrypto/se_wbsm4.h>
extern char __data_start[], _end[];
}
using namespace kit;
namespace {
struct Tls { const void *p; size_t n; };
const void *hx_tls(size_t &n) {                     // the executable's thread-local block of this thread
    Tls t = {nullptr, 0};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *d) {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { ((Tls *)d)->p = i->dlpi_tls_data; ((Tls *)d)->n = i->dlpi_phdr[k].p_memsz; }
        return 1;
    }, &t);
    n = t.n;
    return t.p;
}
struct Secrets : std::vector<uint64_t> { std::vector<uint32_t> words; };
void add(Secrets &v, const void *p, size_t n) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t o = 0; o + 8 <= n; o += 4) {
        bool flat = true;
        for (int i = 1; i < 8; i++) flat = flat && b[o + i] == b[o];
        uint64_t w; memcpy(&w, b + o, 8);
        bool small = (uint32_t)w == 0 || (uint32_t)(w >> 32) == 0;
        bool half = true; for (int i = 1; i < 4; i++) half = half && b[o + 4 + i] == b[o + 4] ;       // mostly padding
        if (!flat && !small && !half) v.push_back(w);
    }
}
uint8_t mul(uint8_t a, uint8_t b) { uint8_t p = 0; for (; b; b >>= 1) { if (b & 1) p ^= a; a = (uint8_t)(a << 1) ^ (a & 0x80 ? 0x1b : 0); } return p; }
void addBoth(Secrets &v, const uint32_t *w, int n) {
    uint32_t s[4]; for (int i = 0; i < n; i++) s[i] = __builtin_bswap32(w[i]);
    add(v, w, 4 * (size_t)n); add(v, s, 4 * (size_t)n);
    for (int i = 0; i < n; i++) {
        uint32_t x = w[i]; uint8_t b[4]; memcpy(b, &x, 4);
        if (!x || x + 1 == 0 || (b[0] == b[1] && b[1] == b[2]) || (b[1] == b[2] && b[2] == b[3]) || (b[0] == 0 && b[1] == 0) || (b[2] == 0 && b[3] == 0)) continue;
        for (uint32_t y : {x, s[i]}) { bool old = false; for (uint32_t z : v.words) old = old || z == y; if (!old) v.words.push_back(y); }
    }
}
// key, encryption and decryption round keys in either byte order
void schedule(Secrets &v, const ref::Cipher &R, const Bytes &key) {
    add(v, key.data(), key.size());
    if (!R.sm4) for (int r = 0; r < 11; r++) {
        uint32_t w[4]; uint8_t d[16];
        memcpy(w, R.rk[r], 16); addBoth(v, w, 4);
        for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { uint8_t x = 0; static const uint8_t m[4] = {14, 11, 13, 9}; for (int j = 0; j < 4; j++) x ^= mul(R.rk[r][4 * c + j], m[(j - i + 4) % 4]); d[4 * c + i] = x; }
        memcpy(w, d, 16); addBoth(v, w, 4);
    } else for (int i = 0; i + 2 <= 32; i++) {
        uint32_t w[2] = {R.srk[i], R.srk[i + 1]}, u[2] = {w[1], w[0]};
        addBoth(v, w, 2); addBoth(v, u, 2);
    }
}
// the hash key of GCM and its multiples, as bytes and as words
void hashKey(Secrets &v, const ref::Cipher &R) {
    uint8_t z[16] = {0}, h[16]; R.enc(z, h);
    add(v, h, 16);
    ref::G128 g = ref::gload(h);
    for (int i = 0; i < 4; i++) {
        add(v, &g.hi, 8); add(v, &g.lo, 8);
        uint64_t c = g.lo & 1; g.lo = g.hi << 63 | g.lo >> 1; g.hi = g.hi >> 1 ^ (c ? 0xe1ull << 56 : 0);
    }
}
struct W {
    Case &c; Secrets sec; std::string what; size_t blocks = 0, bytes = 0;
    template <class F> void run(const char *op, F f) { hx::watchFrees(sec, sec.words); f(); done(op); }
    hx::FreeHit last;
    void done(const char *op) {
        last = hx::unwatchFrees(); blocks += last.blocks; bytes += last.bytes;
        if (last.hits) c.fail("key-in-freed-memory", "%s, %s: a block of %zu bytes was given back with key material at offset %zu (%zu places in all)", what.c_str(), op, last.size, last.offset, last.hits);
    }
    void statics(const char *when) {
        size_t o;
        size_t n = 0; const void *t = hx_tls(n);
        if (t && hx::secretIn(t, n, o)) c.fail("key-in-static-memory", "%s, %s: thread-local storage holds key material", what.c_str(), when);
        if (hx::secretIn(__data_start, (size_t)(_end - __data_start), o)) c.fail("key-in-static-memory", "%s, %s: static storage holds key material", what.c_str(), when);
    }
};
}
static void app(Case &c) {
    Rng &r = c.rng;
    seedLib(r);
    static char *cn[] = {(char *)WBCYRPTO_FPE_CIPHER_SM4, (char *)WBCYRPTO_FPE_CIPHER_AES};
    int aes = (int)r.below(2);
    Bytes k = r.bytes(r.below(3) ? 16 : 9 + r.below(30)), nk = hx::normKey(k);
    ref::Cipher R(!aes, nk);
    W w{c, {}, strf("application layer over %s, key of %zu bytes", aes ? "aes" : "sm4", k.size())};
    schedule(w.sec, R, nk); hashKey(w.sec, R);
    WBCRYPTO_fpe_app_context x;
    w.run("setting the key", [&] { WBCRYPTO_fpe_app_init(&x, k.data(), k.size(), cn[aes], (char *)(r.below(2) ? WBCYRPTO_FPE_FFX_FF1 : WBCYRPTO_FPE_FFX_FF3)); });
    char ph[] = "13888888888", id[] = "44010619990101123X", zh[] = "\xe5\xb9\xbf\xe5\xb7\x9e\xe5\xb8\x82", o[64], s1[] = "138****8888", s2[] = "4401**********123X", s3[] = "\xe5\xb9\xbf**";
    w.run("values", [&] {
        WBCRYPTO_fpe_encrypt_phone(&x, ph, o); WBCRYPTO_fpe_decrypt_phone_with_sample(&x, ph, o, s1);
        WBCRYPTO_fpe_encrypt_idcard_with_sample(&x, id, o, s2); WBCRYPTO_fpe_decrypt_idcard(&x, id, o);
        WBCRYPTO_fpe_encrypt_cn_utf8(&x, zh, o); WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&x, zh, o, s3);
    });
    w.run("freeing the key context", [&] { if (aes) WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)x.cipher_ctx); else WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)x.cipher_ctx); });
    w.statics("after freeing");
    c.stat("blocks searched when given back", (long)w.blocks); c.stat("bytes searched when given back", (long)w.bytes); c.stat("application-layer lives watched");
    c.observe(hx::hashBytes(w.sec.data(), 8));
}
SCENARIO(wipe_keys, "wipe.keys") {
    if (!hx::haveMallocMonitor()) return;
    static const char *nm[] = {"aes", "sm4", "wbaes", "wbsm4", "se_wbsm4", "wbgcm-ee", "wbgcm-mask"};
    static const int map[14] = {0, 1, 3, 0, 1, 4, 7, 1, 3, 5, 2, 6, 0, 7};
    int kind = map[c.idx % 14];
    if (kind == 7) { app(c); return; }
    Rng &r = c.rng;
    seedLib(r);
    int gens = kind < 2 ? 1 + (int)r.below(3) : 1;
    bool isSm4 = kind == 1 || kind == 3 || kind == 4;
    int mode = r.below(2) ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE;
    W w{c, {}, nm[kind]};
    Bytes in = r.bytes(16), out(16);
    struct Ctx { WBCRYPTO_aes_context *a = nullptr; WBCRYPTO_sm4_context *s = nullptr; WBCRYPTO_wbaes_context *wa = nullptr; WBCRYPTO_wbsm4_context *ws = nullptr; WBCRYPTO_se_wbsm4_context *se = nullptr; } x;
    if (kind == 0) x.a = WBCRYPTO_aes_context_init();
    if (kind == 1) x.s = WBCRYPTO_sm4_context_init();
    if (kind == 2) x.wa = WBCRYPTO_wbaes_context_init();
    if (kind == 3) x.ws = WBCRYPTO_wbsm4_context_init(mode, (int)r.below(4));
    if (kind == 4) x.se = WBCRYPTO_se_wbsm4_context_init(mode);
    WBCRYPTO_wbaes_wbgcm_ee_context *ee = nullptr; WBCRYPTO_wbaes_wbgcm_mask_context *me = nullptr, *md = nullptr;
    ref::Cipher R;
    for (int g = 0; g < gens; g++) {
        Bytes k = r.bytes(r.below(3) ? 16 : 9 + r.below(30)), nk = hx::normKey(k);
        R = ref::Cipher(isSm4, nk);
        schedule(w.sec, R, nk);
        hashKey(w.sec, R);
        w.what = strf("%s, key %d of %zu bytes", nm[kind], g + 1, k.size());
        int rc = 1;
        switch (kind) {
        case 0: w.run("setting the key", [&] { rc = WBCRYPTO_aes_init_key(x.a, k.data(), k.size()); }); break;
        case 1: w.run("setting the key", [&] { rc = WBCRYPTO_sm4_init_key(x.s, k.data(), k.size()); }); break;
        case 2: w.run("table generation", [&] { rc = WBCRYPTO_wbaes_gen_table(x.wa, k.data(), k.size()); }); break;
        case 3: w.run("table generation", [&] { rc = WBCRYPTO_wbsm4_gen_table(x.ws, k.data(), k.size()); }); break;
        case 4: w.run("table generation", [&] { rc = WBCRYPTO_se_wbsm4_gen_table(x.se, k.data(), k.size()); }); break;
        case 5: { static auto *t = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context)); ee = t; w.run("table generation", [&] { WBCRYPTO_wbaes_wbgcm_ee_gen_table(ee, k.data(), k.size()); }); break; }
        case 6: { static auto *t = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *u = WBCRYPTO_wbaes_wbgcm_mask_init_table(); me = t; md = u; w.run("table generation", [&] { WBCRYPTO_wbaes_wbgcm_mask_gen_table(me, md, k.data(), k.size()); }); break; }
        }
        c.eqn(rc, 1, "wipe-return", w.what + ": keying");
        if (kind >= 2) w.statics("after table generation");
        hx::Bytes iv = ivOf(r), aad = r.data(r.below(40)), m = r.data(r.below(200)), o(m.size() + 32), tag(16);
        // the cipher and the modes on top of it
        for (int u = 0; u < 3; u++) {
            switch (r.below(4)) {
            case 0:
                w.run("one block", [&] {
                    if (x.a) { WBCRYPTO_aes_encrypt(in.data(), out.data(), x.a); WBCRYPTO_aes_decrypt(in.data(), out.data(), x.a); }
                    if (x.s) { WBCRYPTO_sm4_encrypt(in.data(), out.data(), x.s); WBCRYPTO_sm4_decrypt(in.data(), out.data(), x.s); }
                    if (x.wa) WBCRYPTO_wbaes_encrypt(in.data(), out.data(), x.wa);
                    if (x.ws) WBCRYPTO_wbsm4_encrypt(in.data(), out.data(), x.ws);
                    if (x.se) WBCRYPTO_se_wbsm4_encrypt(in.data(), out.data(), x.se);
                });
                break;
            case 1: case 2: {
                WBCRYPTO_gcm_context *gc = nullptr;
                if (ee) {
                    auto e = WBCRYPTO_wbaes_wbgcm_ee_init(ee);
                    w.run("GCM message", [&] { WBCRYPTO_wbaes_wbgcm_ee_setiv(e, iv.data(), iv.size()); WBCRYPTO_wbaes_wbgcm_ee_aad(e, aad.data(), aad.size()); WBCRYPTO_wbaes_wbgcm_ee_encrypt(e, m.data(), m.size(), o.data(), o.size()); WBCRYPTO_wbaes_wbgcm_ee_finish(e, tag.data(), 16); });
                    w.run("freeing the GCM context", [&] { WBCRYPTO_wbaes_wbgcm_ee_free(e); });
                    break;
                }
                if (me) {
                    auto e = WBCRYPTO_wbaes_wbgcm_mask_init(me);
                    w.run("GCM message", [&] { WBCRYPTO_wbaes_wbgcm_mask_setiv(e, iv.data(), iv.size()); WBCRYPTO_wbaes_wbgcm_mask_aad(e, aad.data(), aad.size()); WBCRYPTO_wbaes_wbgcm_mask_encrypt(e, m.data(), m.size(), o.data(), o.size()); WBCRYPTO_wbaes_wbgcm_mask_finish(e, tag.data(), 16); });
                    w.run("freeing the GCM context", [&] { WBCRYPTO_wbaes_wbgcm_mask_free(e); });
                    break;
                }
                bool file = r.below(3) == 0;
                w.run("GCM context", [&] {
                    if (x.a) gc = WBCRYPTO_aes_gcm_init(x.a);
                    if (x.s) gc = WBCRYPTO_sm4_gcm_init(x.s);
                    if (x.wa) gc = WBCRYPTO_wbaes_gcm_init(x.wa);
                    if (x.ws && mode == WBCRYPTO_ENCRYPT_MODE) gc = WBCRYPTO_wbsm4_gcm_init(x.ws);
                });
                if (!gc) break;
                w.run("GCM message", [&] {
                    WBCRYPTO_gcm_setiv(gc, iv.data(), iv.size()); WBCRYPTO_gcm_aad(gc, aad.data(), aad.size());
                    (r.below(2) ? WBCRYPTO_gcm_encrypt : WBCRYPTO_gcm_parallel_encrypt)(gc, m.data(), m.size(), o.data(), o.size());
                    if (r.below(4)) WBCRYPTO_gcm_finish(gc, tag.data(), 16);
                });
                w.run("freeing the GCM context", [&] { WBCRYPTO_gcm_free(gc); });
                if (file && (x.a || x.s)) {
                    std::string a = hx::scratch() + "/w.in", b = hx::scratch() + "/w.out";
                    hx::writeFile(a, m);
                    auto f = x.a ? WBCRYPTO_aes_gcmfile_init(x.a) : WBCRYPTO_sm4_gcmfile_init(x.s);
                    w.run("file encryption", [&] { WBCRYPTO_gcmfile_setiv(f, iv.data(), iv.size()); WBCRYPTO_gcmfile_encrypt(f, (char *)a.c_str(), (char *)b.c_str()); });
                    w.run("freeing the file context", [&] { WBCRYPTO_gcmfile_free(f); });
                    unlink(a.c_str()); unlink(b.c_str());
                }
                break;
            }
            default: {
                Bytes tw = r.bytes(8); std::string d = digits(r, 10, 8 + r.below(10)); std::string q(64, 0); char t[16]; size_t tl;
                w.run("format-preserving encryption", [&] {
                    WBCRYPTO_fpe_mac_context *f = nullptr;
                    if (x.a) f = WBCRYPTO_aes_fpe_mac_init(x.a, (char *)tw.data(), 8, 10);
                    if (x.s) f = WBCRYPTO_sm4_fpe_mac_init(x.s, (char *)tw.data(), 8, 10);
                    if (!f) return;
                    WBCRYPTO_ff1_cmac_encrypt(f, d.c_str(), &q[0]); WBCRYPTO_ff1_cmac_finish(f, t, &tl);
                    WBCRYPTO_ff3_gmac_encrypt(f, d.c_str(), &q[0]); WBCRYPTO_ff3_gmac_finish(f, t, &tl);
                    WBCRYPTO_ff1_encrypt(f->fpe_ctx, d.c_str(), &q[0]); WBCRYPTO_ff3_decrypt(f->fpe_ctx, d.c_str(), &q[0]);
                    WBCRYPTO_fpe_mac_free(f);
                });
            }
            }
        }
    }
    w.run("freeing the key context", [&] {
        if (x.a) WBCRYPTO_aes_context_free(x.a);
        if (x.s) WBCRYPTO_sm4_context_free(x.s);
        if (x.wa) WBCRYPTO_wbaes_context_free(x.wa);
        if (x.ws) WBCRYPTO_wbsm4_context_free(x.ws);
        if (x.se) WBCRYPTO_se_wbsm4_context_free(x.se);
    });
    w.statics("after freeing");
    if (c.idx % 97 == 3) c.sample(strf("%s: %d keys, %zu pieces of key material searched for, %zu blocks given back", nm[kind], gens, w.sec.size() + w.sec.words.size(), w.blocks));
    c.stat("blocks searched when given back", (long)w.blocks);
    c.stat("bytes searched when given back", (long)w.bytes);
    c.stat(strf("%s lives watched", nm[kind]).c_str());
    c.observe(hx::hashBytes((const uint8_t *)w.sec.data(), 8));
}
