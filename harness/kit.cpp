#include "lib.h"
#include <memory>
#include <mutex>
namespace kit {
const char *const kname[NKIND] = {"aes", "sm4", "wbaes", "wbsm4"};

void seedLib(Rng &r) {
    hx::setTime(1000000000 + r.below(3000000000ull));
    srand((unsigned)r.u32());
}
Key::~Key() {
    if (aes) WBCRYPTO_aes_context_free(aes);
    if (sm4) WBCRYPTO_sm4_context_free(sm4);
    if (wbaes) WBCRYPTO_wbaes_context_free(wbaes);
    if (wbsm4) WBCRYPTO_wbsm4_context_free(wbsm4);
    if (wbsm4d) WBCRYPTO_wbsm4_context_free(wbsm4d);
}
void Key::encBlock(const uint8_t *in, uint8_t *out) const { r.enc(in, out); }
static void addImage(Bytes &b, const WBCRYPTO_wbsm4_context *x) {
    char *s = nullptr;
    if (!x || WBCRYPTO_wbsm4_key2bytes(x, &s) != 1 || !s) return;
    uint32_t n; memcpy(&n, s, 4);
    b.insert(b.end(), (uint8_t *)s, (uint8_t *)s + n);
    free(s);
}
Bytes Key::image() const {
    Bytes b;
    if (aes) b.assign((uint8_t *)aes, (uint8_t *)(aes + 1));
    if (sm4) b.assign((uint8_t *)sm4, (uint8_t *)(sm4 + 1));
    if (wbaes) b.assign((uint8_t *)wbaes, (uint8_t *)(wbaes + 1));
    addImage(b, wbsm4); addImage(b, wbsm4d);
    return b;
}
void Key::unchanged(Case &c) const {
    if (image() != snap) c.fail("key-context-modified", "using the %s context changed its key tables", kname[kind]);
}
int Key::cbcEnc(const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *use, uint8_t *iv) const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_cbc_encrypt(in, n, out, cap, use, aes, iv);
    case SM4: return WBCRYPTO_sm4_cbc_encrypt(in, n, out, cap, use, sm4, iv);
    case WBAES: return WBCRYPTO_wbaes_cbc_encrypt(in, n, out, cap, use, wbaes, iv);
    default: return WBCRYPTO_wbsm4_cbc_encrypt(in, n, out, cap, use, wbsm4, iv);
    }
}
int Key::cbcDec(const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *use, uint8_t *iv) const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_cbc_decrypt(in, n, out, cap, use, aes, iv);
    case SM4: return WBCRYPTO_sm4_cbc_decrypt(in, n, out, cap, use, sm4, iv);
    default: return WBCRYPTO_wbsm4_cbc_decrypt(in, n, out, cap, use, wbsm4d, iv);
    }
}
WBCRYPTO_gcm_context *Key::gcm() const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_gcm_init(aes);
    case SM4: return WBCRYPTO_sm4_gcm_init(sm4);
    case WBAES: return WBCRYPTO_wbaes_gcm_init(wbaes);
    default: return WBCRYPTO_wbsm4_gcm_init(wbsm4);
    }
}
WBCRYPTO_gcmfile_context *Key::gcmfile() const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_gcmfile_init(aes);
    case SM4: return WBCRYPTO_sm4_gcmfile_init(sm4);
    case WBAES: return WBCRYPTO_wbaes_gcmfile_init(wbaes);
    default: return WBCRYPTO_wbsm4_gcmfile_init(wbsm4);
    }
}
WBCRYPTO_fpe_context *Key::fpe(const char *tw, size_t n, unsigned radix) const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_fpe_init(aes, tw, n, radix);
    case SM4: return WBCRYPTO_sm4_fpe_init(sm4, tw, n, radix);
    case WBAES: return WBCRYPTO_wbaes_fpe_init(wbaes, tw, n, radix);
    default: return WBCRYPTO_wbsm4_fpe_init(wbsm4, tw, n, radix);
    }
}
WBCRYPTO_fpe_mac_context *Key::fpemac(const char *tw, size_t n, unsigned radix) const {
    switch (kind) {
    case AES: return WBCRYPTO_aes_fpe_mac_init(aes, tw, n, radix);
    case SM4: return WBCRYPTO_sm4_fpe_mac_init(sm4, tw, n, radix);
    case WBAES: return WBCRYPTO_wbaes_fpe_mac_init(wbaes, tw, n, radix);
    default: return WBCRYPTO_wbsm4_fpe_mac_init(wbsm4, tw, n, radix);
    }
}
std::unique_ptr<Key> make(Case &c, Kind k, Rng r) {
    std::unique_ptr<Key> x(new Key);
    x->kind = k;
    size_t kl;
    x->key = hx::keyOf(r, kl);
    x->norm = hx::normKey(x->key);
    x->r = ref::Cipher(k == SM4 || k == WBSM4, x->norm);
    Buf kb(c, "key", x->key);
    seedLib(r);
    int ok = 0;
    switch (k) {
    case AES:
        x->aes = WBCRYPTO_aes_context_init();
        ok = x->aes && WBCRYPTO_aes_init_key(x->aes, kb.p(), kl) == 1; break;
    case SM4:
        x->sm4 = WBCRYPTO_sm4_context_init();
        ok = x->sm4 && WBCRYPTO_sm4_init_key(x->sm4, kb.p(), kl) == 1; break;
    case WBAES:
        x->wbaes = WBCRYPTO_wbaes_context_init();
        ok = x->wbaes && WBCRYPTO_wbaes_gen_table(x->wbaes, kb.p(), kl) == 1; break;
    default:
        x->dummy = (int)r.below(5);
        x->wbsm4 = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, x->dummy);
        x->wbsm4d = WBCRYPTO_wbsm4_context_init(WBCRYPTO_DECRYPT_MODE, (int)r.below(5));
        ok = x->wbsm4 && x->wbsm4d && WBCRYPTO_wbsm4_gen_table(x->wbsm4, kb.p(), kl) == 1;
        seedLib(r);
        ok = ok && WBCRYPTO_wbsm4_gen_table(x->wbsm4d, kb.p(), kl) == 1;
    }
    if (!ok) c.fail("key-setup", "keying a %s context with %zu key bytes did not succeed", kname[k], kl);
    kb.mustBeUnchanged();
    x->snap = x->image();
    return x;
}
const Key &key(Case &c, Kind k, long slot) {
    struct E { std::unique_ptr<Key> k; long slot = -1; uint64_t seed = 0; };
    static E pool[NKIND];
    E &e = pool[k];
    if (k == AES || k == SM4) {
        e.k = make(c, k, Rng(c.rng.u64()));
        return *e.k;
    }
    if (!e.k || e.slot != slot || e.seed != c.seed) {
        e.k.reset();
        e.k = make(c, k, Rng(hx::mix(c.seed * 7919 + (uint64_t)slot) ^ hx::mix(77 + (uint64_t)k)));
        e.slot = slot; e.seed = c.seed;
    }
    return *e.k;
}
Kind pickKind(Case &c, bool needDecrypt) {
    static const Kind a[] = {AES, SM4, WBAES, WBSM4}, b[] = {AES, SM4, WBSM4};
    return needDecrypt ? b[c.rng.below(3)] : a[c.rng.below(4)];
}

void Ee::unchanged(Case &c) const {
    if (memcmp(snap.data(), t, sizeof *t) != 0) c.fail("key-context-modified", "using the wbgcm-ee key changed its tables");
}
const Ee &ee(Case &c, long slot) {
    static Ee e; static long cur = -1; static uint64_t cs = 0;
    if (cur != slot || cs != c.seed) {
        Rng r(hx::mix(c.seed * 104729 + (uint64_t)slot));
        size_t kl; Bytes k = hx::keyOf(r, kl);
        e.norm = hx::normKey(k); e.r = ref::Cipher(false, e.norm);
        if (!cs) e.t = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof *e.t);
        memset(e.t, (int)r.below(256), sizeof *e.t);
        Buf kb(c, "key", k);
        seedLib(r);
        WBCRYPTO_wbaes_wbgcm_ee_gen_table(e.t, kb.p(), kl);
        kb.mustBeUnchanged();
        e.snap.assign((uint8_t *)e.t, (uint8_t *)(e.t + 1));
        cur = slot; cs = c.seed;
    }
    return e;
}
static uint64_t maskHash(const WBCRYPTO_wbaes_wbgcm_mask_context *t);
Mask &mask(Case &c, long slot) {
    static Mask m; static long cur = -1; static uint64_t cs = 0;
    if (cur != slot || cs != c.seed) {
        Rng r(hx::mix(c.seed * 1299709 + (uint64_t)slot));
        size_t kl; Bytes k = hx::keyOf(r, kl);
        m.norm = hx::normKey(k); m.r = ref::Cipher(false, m.norm);
        if (!cs) { m.e = WBCRYPTO_wbaes_wbgcm_mask_init_table(); m.d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); }
        if (!m.e || !m.d) c.fail("key-setup", "mask table allocation failed");
        Buf kb(c, "key", k);
        seedLib(r);
        WBCRYPTO_wbaes_wbgcm_mask_gen_table(m.e, m.d, kb.p(), kl);
        kb.mustBeUnchanged();
        m.he = maskHash(m.e); m.hd = maskHash(m.d);
        memset(m.map, -1, sizeof m.map); memset(m.inv, -1, sizeof m.inv);
        cur = slot; cs = c.seed;
    }
    return m;
}
static uint64_t maskHash(const WBCRYPTO_wbaes_wbgcm_mask_context *t) {
    uint64_t h = hx::hashBytes(t, offsetof(WBCRYPTO_wbaes_wbgcm_mask_context, GBOX_TypeIII));
    h = hx::hashBytes(t->L1, sizeof t->L1, h);
    if (t->GBOX_TypeIII)
        for (int i = 0; i < 16; i++) for (int j = 0; j < 256; j++) h = hx::hashBytes(t->GBOX_TypeIII[i][j], 256, h);
    return h;
}
void Mask::unchanged(Case &c) {
    if (maskHash(e) != he || maskHash(d) != hd) c.fail("key-context-modified", "using the wbgcm-mask key changed its tables");
}
Bytes ivOf(Rng &r) {
    size_t n;
    uint64_t big = r.below(512);
    if (big == 0) return r.data(65536 - 40 + r.below(80));
    if (big < 8) return r.data(81 + r.below(4200));
    switch (r.below(4)) {
    case 0: n = 1 + r.below(80); break;
    case 1: { static const size_t s[] = {1, 8, 11, 13, 15, 16, 17, 31, 32, 33, 48, 64}; n = s[r.below(12)]; break; }
    default: n = 12;
    }
    return r.data(n);
}
std::string digits(Rng &r, unsigned radix, size_t n) {
    std::string s;
    int shape = (int)r.below(8);
    for (size_t i = 0; i < n; i++) {
        unsigned d = shape == 0 ? 0 : shape == 1 ? radix - 1 : shape == 2 ? (r.below(6) ? 0 : (unsigned)r.below(radix)) : (unsigned)r.below(radix);
        s += (char)(d < 10 ? '0' + d : 'a' + d - 10);
    }
    return s;
}
}
