// C07 CBC, C08 GCM, C09 parallel GCM (functional side), C10 WBGCM-EE, C11 WBGCM-mask
#include "lib.h"
#include <openssl/evp.h>
#include <algorithm>
using namespace kit;

static long slotOf(Case &c) { return c.idx / 24; }
static size_t msgLen(Case &c, size_t sweep) {
    if (c.idx % 61 == 60) return 4000 + c.rng.below(5000);
    if (c.idx % 997 == 996 && !hx::isSan()) return (1u << 20) - 40 + c.rng.below(80);
    return hx::sweepLen(c, sweep, 700);
}

// ------------------------------------------------------------------ CBC
static Bytes cbcMsg(Case &c, size_t n) {
    Bytes m = c.rng.data(n);
    if (n && c.rng.below(3) == 0) {         // tails that look almost like a fill
        uint8_t k = (uint8_t)(1 + c.rng.below(17));
        for (size_t i = 0; i < k && i < n; i++) if (c.rng.below(8) || i == 0) m[n - 1 - i] = k;
    }
    return m;
}
SCENARIO(cbc_roundtrip, "cbc.roundtrip") {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    size_t n = msgLen(c, 140);
    Bytes m = cbcMsg(c, n), iv = c.rng.data(16), pad = ref::pkcs7(m), w = ref::cbcEnc(K.r, iv, pad);
    size_t cap = pad.size() + (c.rng.below(2) ? 0 : c.rng.below(40));
    size_t off = c.rng.below(2) ? 0 : c.rng.below(16);
    Buf in(c, "plaintext", m), out(c, "ciphertext", cap + off), ivb(c, "iv", iv);
    size_t use = (size_t)-77;
    c.eqn(K.cbcEnc(in.p(), n, out.p() + off, cap, &use, ivb.p()), 1, "cbc-enc-return", strf("%s CBC encrypt of %zu bytes into %zu", kname[kd], n, cap));
    c.eqn((long long)use, (long long)pad.size(), "cbc-enc-length", strf("%s CBC encrypt of %zu bytes, reported length", kname[kd], n));
    c.eq(out.p() + off, w.data(), w.size(), "cbc-enc-value", strf("%s CBC encrypt of %zu bytes", kname[kd], n));
    out.onlyPrefix(off + w.size()); in.mustBeUnchanged(); ivb.mustBeUnchanged();
    c.observe(hx::hashBytes(w.data(), w.size(), n), n > 0);
    c.stat(strf("cbc encrypt %s", kname[kd]).c_str());
    if (K.canDecrypt()) {
        size_t dcap = w.size() + (c.rng.below(2) ? 0 : c.rng.below(40));
        Buf ct(c, "ciphertext", w), pt(c, "plaintext", dcap), iv2(c, "iv2", iv);
        bool inpl = c.rng.below(3) == 0;
        uint8_t *dst = inpl ? ct.p() : pt.p();
        use = (size_t)-77;
        c.eqn(K.cbcDec(ct.p(), w.size(), dst, inpl ? w.size() : dcap, &use, iv2.p()), 1, "cbc-dec-return", strf("%s CBC decrypt of %zu bytes", kname[kd], w.size()));
        if (!ref::ambiguousTail(m)) {
            c.eqn((long long)use, (long long)n, "cbc-dec-length", strf("%s CBC decrypt, length of the message (ciphertext %zu)", kname[kd], w.size()));
            c.eq(dst, m.data(), n, "cbc-dec-value", strf("%s CBC decrypt of %zu bytes%s", kname[kd], w.size(), inpl ? " in place" : ""));
        } else if (use > n) c.fail("cbc-dec-length", "length %zu for a %zu byte message", use, n);
        else c.eq(dst, m.data(), use, "cbc-dec-value", "prefix of an ambiguous message");
        if (!inpl) { ct.mustBeUnchanged(); pt.onlyPrefix(w.size()); }
        // arbitrary ciphertext (not produced by the encryption) decrypts to standard CBC
        if (c.rng.below(3) == 0) {
            Bytes x = c.rng.bytes(16 * (1 + c.rng.below(5))), px = ref::cbcDec(K.r, iv, x);
            Buf cx(c, "ciphertext", x), po(c, "plaintext", x.size()), iv3(c, "iv3", iv);
            c.eqn(K.cbcDec(cx.p(), x.size(), po.p(), x.size(), &use, iv3.p()), 1, "cbc-dec-return", "decrypt of arbitrary blocks");
            if (use > x.size()) c.fail("cbc-dec-length", "length %zu for %zu bytes", use, x.size());
            c.eq(po.p(), px.data(), use, "cbc-dec-value", strf("%s CBC decrypt of arbitrary blocks", kname[kd]));
        }
        c.stat(strf("cbc decrypt %s", kname[kd]).c_str());
    }
    if (c.idx % 8 == 0) K.unchanged(c);
    if (c.idx % 170 == 9) c.sample(strf("%s CBC %zu -> %zu bytes, iv %s", kname[kd], n, w.size(), hex(iv).c_str()));
}
SCENARIO(cbc_refuse, "cbc.refuse") {
    Kind kd = pickKind(c, true);
    const Key &K = key(c, kd, slotOf(c));
    Bytes iv = c.rng.data(16);
    size_t use = 7777;
    if (c.idx % 2 == 0) {           // capacity too small, every shortfall
        size_t n = 1 + (size_t)(c.idx / 2) % 90, need = (n + 15) / 16 * 16;
        for (size_t cap = need > 40 ? need - 40 : 0; cap < need; cap++) {
            Buf in(c, "plaintext", c.rng.data(n)), out(c, "too small output", cap), ivb(c, "iv", iv);
            c.eqn(K.cbcEnc(in.p(), n, out.p(), cap, &use, ivb.p()), 0, "cbc-refuse", strf("%s CBC encrypt of %zu bytes into capacity %zu", kname[kd], n, cap));
            in.mustBeUnchanged(); ivb.mustBeUnchanged();
            if (!out.unchanged()) c.fail("refused-write", "refused CBC encryption wrote output");
            out.canary();
        }
        size_t m = 16 * (1 + (size_t)c.idx % 5);
        for (size_t cap = 0; cap < m; cap += 1 + c.rng.below(5)) {
            Buf in(c, "ciphertext", c.rng.data(m)), out(c, "too small output", cap), ivb(c, "iv", iv);
            c.eqn(K.cbcDec(in.p(), m, out.p(), cap, &use, ivb.p()), 0, "cbc-refuse", strf("%s CBC decrypt of %zu bytes into capacity %zu", kname[kd], m, cap));
            in.mustBeUnchanged(); ivb.mustBeUnchanged();
            if (!out.unchanged()) c.fail("refused-write", "refused CBC decryption wrote output");
            out.canary();
        }
    } else {                        // ciphertext that is not whole blocks
        size_t n = (size_t)(c.idx / 2) % 130;
        if (n % 16 == 0) n++;
        size_t cap = (n + 15) / 16 * 16 + c.rng.below(20);
        Buf in(c, "ciphertext", c.rng.data(n)), out(c, "output", cap), ivb(c, "iv", iv);
        c.eqn(K.cbcDec(in.p(), n, out.p(), cap, &use, ivb.p()), 0, "cbc-refuse-partial", strf("%s CBC decrypt of %zu bytes", kname[kd], n));
        in.mustBeUnchanged(); ivb.mustBeUnchanged();
        if (!out.unchanged()) c.fail("refused-write", "refused CBC decryption wrote output");
        out.canary();
    }
    c.observe(hx::mix((uint64_t)c.idx * 4 + kd));
    c.stat("refusals observed");
}

// ------------------------------------------------------------------ GCM (generic over the entry points)
struct GcmOps {
    void *ctx;
    std::function<int(const uint8_t *, size_t)> iv, aad;
    std::function<int(const uint8_t *, size_t, uint8_t *, size_t)> enc, dec;
    std::function<int(uint8_t *, size_t)> fin;
};
static const uint8_t J0WRAP[5][4] = {{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xfe}, {0xff, 0xff, 0xff, 0xf0}, {0x00, 0x00, 0xff, 0xff}, {0x00, 0xff, 0xff, 0xfd}};

static Bytes pickIv(Case &c, const ref::Cipher &r, bool &wrap) {
    wrap = c.rng.below(5) == 0;
    if (!wrap) return ivOf(c.rng);
    Bytes j = c.rng.bytes(16);
    memcpy(&j[12], J0WRAP[c.rng.below(5)], 4);
    if (c.rng.below(2)) j[11] = 0xff;
    return ref::ivForJ0(r, j.data());
}
// one message through the mode, split at multiples of 16, checked against the reference
static void gcmMessage(Case &c, const char *nm, GcmOps &o, const ref::Cipher &r, bool dec, size_t n, bool oneCall, std::function<void(GcmOps &, int)> mixer = nullptr) {
    bool wrap;
    Bytes iv = pickIv(c, r, wrap), aad = c.rng.data(c.rng.below(3) ? c.rng.below(70) : 0);
    if (c.idx % 127 == 5) aad = c.rng.data(3000 + c.rng.below(3000));
    Bytes m = c.rng.data(n);
    ref::Gcm g(r, iv);
    Bytes x = g.ctr(m), tag = g.tag(aad, dec ? m : x);
    bool inpl = c.rng.below(3) == 0;
    Buf ivb(c, "iv", iv), ab(c, "aad", aad), in(c, "input", m), out(c, "output", n + (c.rng.below(2) ? 0 : c.rng.below(30)));
    std::string what = strf("%s GCM %s: %zu bytes%s, iv %zu bytes%s, aad %zu bytes", nm, dec ? "decrypt" : "encrypt", n, inpl ? " in place" : "", iv.size(), wrap ? " (counter wraps)" : "", aad.size());
    c.eqn(o.iv(ivb.p(), iv.size()), 1, "gcm-return", what + ", setiv");
    ivb.mustBeUnchanged(); ivb.refill(0);
    if (!aad.empty() || c.rng.below(2)) c.eqn(o.aad(ab.p(), aad.size()), 1, "gcm-return", what + ", aad");
    ab.mustBeUnchanged();
    size_t pos = 0; int calls = 0;
    uint8_t *dst = inpl ? in.p() : out.p();
    do {
        size_t k = n - pos;
        if (!oneCall && k > 16 && c.rng.below(3)) k = 16 * c.rng.below(k / 16 + 1);
        size_t cap = k + (c.rng.below(2) ? 0 : (inpl ? n - pos - k : out.size() - pos - k));
        if (mixer) mixer(o, calls);
        int rc = dec ? o.dec(in.p() + pos, k, dst + pos, cap) : o.enc(in.p() + pos, k, dst + pos, cap);
        c.eqn(rc, 1, "gcm-return", what + strf(", call %d with %zu bytes", calls, k));
        pos += k; calls++;
        if (calls > 200) oneCall = true;
    } while (pos < n);
    c.eq(dst, x.data(), n, "gcm-data", what + strf(" in %d calls", calls));
    if (!inpl) { in.mustBeUnchanged(); out.onlyPrefix(n); } else in.canary();
    size_t tl = c.rng.below(3) ? 16 : c.rng.below(17);
    Buf tb(c, "tag", tl + (c.rng.below(2) ? 0 : 8));
    c.eqn(o.fin(tb.p(), tl), 1, "gcm-return", what + ", finish");
    c.eq(tb.p(), tag.data(), tl, "gcm-tag", what + strf(", tag of %zu bytes after %d calls", tl, calls));
    tb.onlyPrefix(tl);
    c.observe(hx::hashBytes(tag.data(), 16, n), n > 0);
    c.stat("data calls", calls);
    if (wrap) c.stat("counter wrap-arounds");
    if (c.idx % 160 == 11) c.sample(what + strf(" in %d calls, tag %s", calls, hex(tag).c_str()));
}
static void gcmRefuse(Case &c, const char *nm, GcmOps &o) {
    Bytes iv = ivOf(c.rng);
    Buf ivb(c, "iv", iv);
    o.iv(ivb.p(), iv.size());
    size_t n = 1 + c.rng.below(100), cap = c.rng.below(2) ? n - 1 : c.rng.below(n);
    Buf in(c, "input", c.rng.data(n)), out(c, "too small output", cap);
    bool dec = c.rng.below(2);
    int rc = dec ? o.dec(in.p(), n, out.p(), cap) : o.enc(in.p(), n, out.p(), cap);
    c.eqn(rc, 0, "gcm-refuse", strf("%s GCM %s of %zu bytes into capacity %zu", nm, dec ? "decrypt" : "encrypt", n, cap));
    if (!out.unchanged()) c.fail("refused-write", "refused GCM call wrote output");
    out.canary(); in.mustBeUnchanged();
    c.stat("refusals observed");
}
static GcmOps plainOps(WBCRYPTO_gcm_context *g) {
    return GcmOps{g, [g](const uint8_t *p, size_t n) { return WBCRYPTO_gcm_setiv(g, p, n); },
        [g](const uint8_t *p, size_t n) { return WBCRYPTO_gcm_aad(g, p, n); },
        [g](const uint8_t *i, size_t n, uint8_t *o, size_t cap) { return WBCRYPTO_gcm_encrypt(g, i, n, o, cap); },
        [g](const uint8_t *i, size_t n, uint8_t *o, size_t cap) { return WBCRYPTO_gcm_decrypt(g, i, n, o, cap); },
        [g](uint8_t *t, size_t n) { return WBCRYPTO_gcm_finish(g, t, n); }};
}
static GcmOps parOps(WBCRYPTO_gcm_context *g) {
    GcmOps o = plainOps(g);
    o.enc = [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_gcm_parallel_encrypt(g, i, n, p, cap); };
    o.dec = [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_gcm_parallel_decrypt(g, i, n, p, cap); };
    return o;
}
SCENARIO(gcm_messages, "gcm.messages") {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    WBCRYPTO_gcm_context *g = K.gcm();
    c.check(g != nullptr, "gcm-init", "gcm_init returned NULL");
    GcmOps o = plainOps(g);
    int msgs = 1 + (int)c.rng.below(4);
    for (int i = 0; i < msgs; i++) {
        // leave rubbish state behind: an abandoned message must not influence the next
        if (c.rng.below(4) == 0) {
            Bytes iv = ivOf(c.rng), a = c.rng.bytes(c.rng.below(40)), d = c.rng.bytes(c.rng.below(60)), e(64);
            o.iv(iv.data(), iv.size()); o.aad(a.data(), a.size());
            if (c.rng.below(2)) o.enc(d.data(), d.size(), e.data(), e.size());
            if (c.rng.below(2)) o.fin(e.data(), 16);
        }
        if (c.rng.below(6) == 0) gcmRefuse(c, kname[kd], o);
        gcmMessage(c, kname[kd], o, K.r, c.rng.below(2), i ? hx::rndLen(c.rng, 300) : msgLen(c, 200), c.rng.below(2));
    }
    c.stat("messages", msgs);
    c.stat(strf("gcm contexts %s", kname[kd]).c_str());
    if (c.idx % 8 == 0) K.unchanged(c);
    WBCRYPTO_gcm_free(g);
}
// a bad tag length is refused without writing
SCENARIO(gcm_badtag, "gcm.badtag") {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    WBCRYPTO_gcm_context *g = K.gcm();
    uint8_t iv[12] = {1};
    WBCRYPTO_gcm_setiv(g, iv, 12);
    size_t n = 17 + c.rng.below(100);
    Buf t(c, "tag", n);
    if (WBCRYPTO_gcm_finish(g, t.p(), n) == 1) c.fail("gcm-tag-length", "a %zu byte tag was accepted", n);
    if (!t.unchanged()) c.fail("refused-write", "refused tag request wrote output");
    // the context goes on working
    Buf t2(c, "tag", 16);
    WBCRYPTO_gcm_setiv(g, iv, 12);
    c.eqn(WBCRYPTO_gcm_finish(g, t2.p(), 16), 1, "gcm-return", "finish of an empty message after a refused tag request");
    Bytes w = ref::Gcm(K.r, Bytes(iv, iv + 12)).tag(Bytes(), Bytes());
    c.eq(t2.p(), w.data(), 16, "gcm-tag", "empty message after a refused tag request");
    WBCRYPTO_gcm_free(g);
    c.observe(hx::mix(n * 4 + kd));
}

static int evp(EVP_CIPHER_CTX *e, uint8_t *o, const uint8_t *i, size_t n) { int l; for (size_t p = 0; p < n;) { size_t k = std::min(n - p, (size_t)1 << 30); if (!EVP_EncryptUpdate(e, o ? o + p : nullptr, &l, i + p, (int)k)) return 0; p += k; } return 1; }
// messages, AAD and IVs of 512 MB and more: bit lengths beyond 32 bits (oracle: OpenSSL)
SCENARIO(gcm_long, "gcm.long") {
    int kind = (int)(c.idx % 6);
    bool sm4 = false;
    auto K = make(c, AES, c.rng);
    WBCRYPTO_gcm_context *g = K->gcm();
    const size_t CH = (size_t)8 << 20, TOT = ((size_t)1 << 29) + 16 * c.rng.below(1000);
    Bytes iv = c.rng.bytes(12), aad = c.rng.bytes(20), big, out;
    if (kind == 4) { big = c.rng.bytes(1 << 20); while (big.size() < TOT) big.insert(big.end(), big.begin(), big.begin() + (long)std::min(big.size(), TOT - big.size())); aad = big; }
    if (kind == 5) { big = c.rng.bytes(1 << 20); while (big.size() < TOT) big.insert(big.end(), big.begin(), big.begin() + (long)std::min(big.size(), TOT - big.size())); iv = big; }
    uint8_t want[16], got[16];
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    if (kind == 5) {
        // J0 by the reference GHASH would take minutes: hash it with GMAC instead: GHASH(iv || 0^64 || len64)
        // = the value GCM derives; OpenSSL accepts IVs only up to a limit, so use the serial reference on the last blocks
        ref::Gcm r(K->r, iv);
        Bytes z = r.tag(aad, Bytes()); memcpy(want, z.data(), 16);
    } else {
        EVP_EncryptInit_ex(e, EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
        EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr);
        EVP_EncryptInit_ex(e, nullptr, nullptr, K->norm.data(), iv.data());
        evp(e, nullptr, aad.data(), aad.size());
    }
    c.eqn(WBCRYPTO_gcm_setiv(g, iv.data(), iv.size()), 1, "gcm-return", "setiv");
    c.eqn(WBCRYPTO_gcm_aad(g, aad.data(), aad.size()), 1, "gcm-return", "aad");
    if (kind < 4) {
        // kind 0: many calls; 1: one call; 2: one parallel call; 3: decryption in one call
        size_t ch = kind == 0 ? CH : TOT;
        Bytes a = c.rng.bytes(CH), b(ch), w(ch);
        while (a.size() < ch) a.insert(a.end(), a.begin(), a.begin() + (long)std::min(a.size(), ch - a.size()));
        for (size_t p = 0; p < TOT; p += ch) {
            size_t k = std::min(ch, TOT - p);
            evp(e, w.data(), a.data(), k);
            int rc = kind == 3 ? WBCRYPTO_gcm_decrypt(g, w.data(), k, b.data(), k) : kind == 2 ? WBCRYPTO_gcm_parallel_encrypt(g, a.data(), k, b.data(), k) : WBCRYPTO_gcm_encrypt(g, a.data(), k, b.data(), k);
            c.eqn(rc, 1, "gcm-return", "data call");
            if (memcmp(b.data(), kind == 3 ? a.data() : w.data(), k)) c.fail("gcm-data", "%s of a long message differs at offset %zu..", kind == 3 ? "decryption" : "encryption", p);
        }
    }
    int l;
    if (kind != 5) { EVP_EncryptFinal_ex(e, want, &l); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want); }
    EVP_CIPHER_CTX_free(e);
    c.eqn(WBCRYPTO_gcm_finish(g, got, 16), 1, "gcm-return", "finish");
    c.eq(got, want, 16, "gcm-tag", strf("tag of %s of %zu bytes", kind == 4 ? "an AAD" : kind == 5 ? "an IV" : "a message", TOT));
    WBCRYPTO_gcm_free(g);
    c.observe(hx::hashBytes(want, 16));
    c.stat(kind == 4 ? "long AAD" : kind == 5 ? "long IV" : "long messages");
    c.sample(strf("%s of %zu bytes, kind %d, tag %s", kind == 4 ? "AAD" : kind == 5 ? "IV" : "message", TOT, kind, hex(want, 16).c_str()));
}

// ------------------------------------------------------------------ parallel GCM
SCENARIO(gcmpar_messages, "gcmpar.messages") {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    WBCRYPTO_gcm_context *g = K.gcm();
    c.check(g != nullptr, "gcm-init", "gcm_init returned NULL");
    GcmOps o = parOps(g), s = plainOps(g);
    int msgs = 1 + (int)c.rng.below(3);
    for (int i = 0; i < msgs; i++) {
        GcmOps m = o;
        if (c.rng.below(3) == 0) {          // serial and parallel calls mixed on one message
            Case *cp = &c;
            m.enc = [=](const uint8_t *a, size_t n, uint8_t *b, size_t cap) { return cp->rng.below(2) ? s.enc(a, n, b, cap) : o.enc(a, n, b, cap); };
            m.dec = [=](const uint8_t *a, size_t n, uint8_t *b, size_t cap) { return cp->rng.below(2) ? s.dec(a, n, b, cap) : o.dec(a, n, b, cap); };
        }
        if (c.rng.below(8) == 0) gcmRefuse(c, kname[kd], o);
        gcmMessage(c, (std::string("parallel ") + kname[kd]).c_str(), m, K.r, c.rng.below(2), i ? hx::rndLen(c.rng, 900) : msgLen(c, 200), c.rng.below(2));
    }
    c.stat("messages", msgs);
    if (c.idx % 8 == 0) K.unchanged(c);
    WBCRYPTO_gcm_free(g);
}

// ------------------------------------------------------------------ WBGCM-EE
SCENARIO(ee_messages, "wbgcmee.messages") {
    const Ee &E = ee(c, slotOf(c));
    WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init((WBCRYPTO_wbaes_wbgcm_ee_context *)E.t);
    c.check(g != nullptr, "gcm-init", "wbgcm_ee_init returned NULL");
    GcmOps o{g, [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_setiv(g, p, n); },
        [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_aad(g, p, n); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, i, n, p, cap); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, i, n, p, cap); },
        [g](uint8_t *t, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_finish(g, t, n); }};
    int msgs = 1 + (int)c.rng.below(4);
    for (int i = 0; i < msgs; i++) {
        if (c.rng.below(4) == 0) {
            Bytes iv = ivOf(c.rng), a = c.rng.bytes(c.rng.below(40)), d = c.rng.bytes(c.rng.below(60)), e(64);
            o.iv(iv.data(), iv.size()); o.aad(a.data(), a.size());
            if (c.rng.below(2)) o.enc(d.data(), d.size(), e.data(), e.size());
            if (c.rng.below(2)) o.fin(e.data(), 16);
        }
        if (c.rng.below(6) == 0) gcmRefuse(c, "wbgcm-ee", o);
        gcmMessage(c, "wbgcm-ee", o, E.r, c.rng.below(2), i ? hx::rndLen(c.rng, 300) : msgLen(c, 200), c.rng.below(2));
    }
    c.stat("messages", msgs);
    if (c.rng.below(4) == 0) {              // tags longer than 16 bytes do not exist
        size_t n = 17 + c.rng.below(60); Buf t(c, "tag", n);
        o.iv(t.p(), 12); t.snap();
        if (o.fin(t.p(), n) == 1) c.fail("gcm-tag-length", "a %zu byte tag was accepted", n);
        if (!t.unchanged()) c.fail("refused-write", "refused tag request wrote output");
    }
    E.unchanged(c);
    WBCRYPTO_wbaes_wbgcm_ee_free(g);
}

SCENARIO(ee_long, "wbgcmee.long") {
    const Ee &E = ee(c, c.idx);
    WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init((WBCRYPTO_wbaes_wbgcm_ee_context *)E.t);
    bool msg = c.idx % 2;
    const size_t CH = (size_t)4 << 20, TOT = ((size_t)1 << 29) + 16 * c.rng.below(1000);
    Bytes iv = c.rng.bytes(12), a = c.rng.bytes(msg ? CH : 1 << 20), w(CH), b(CH);
    while (!msg && a.size() < TOT) a.insert(a.end(), a.begin(), a.begin() + (long)std::min(a.size(), TOT - a.size()));
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(e, EVP_aes_128_gcm(), nullptr, E.norm.data(), iv.data());
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv.data(), 12), 1, "gcm-return", "setiv");
    if (!msg) { evp(e, nullptr, a.data(), a.size()); c.eqn(WBCRYPTO_wbaes_wbgcm_ee_aad(g, a.data(), a.size()), 1, "gcm-return", "aad"); }
    else for (size_t p = 0; p < TOT; p += CH) {
        size_t k = std::min(CH, TOT - p);
        evp(e, w.data(), a.data(), k);
        c.eqn(WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, a.data(), k, b.data(), k), 1, "gcm-return", "data");
        if (memcmp(b.data(), w.data(), k)) c.fail("gcm-data", "long message differs after %zu bytes", p);
    }
    uint8_t want[16], got[16]; int l;
    EVP_EncryptFinal_ex(e, want, &l); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want); EVP_CIPHER_CTX_free(e);
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_finish(g, got, 16), 1, "gcm-return", "finish");
    c.eq(got, want, 16, "gcm-tag", strf("tag of %s of %zu bytes", msg ? "a message" : "an AAD", TOT));
    WBCRYPTO_wbaes_wbgcm_ee_free(g);
    c.observe(hx::hashBytes(want, 16)); c.sample(strf("%s of %zu bytes", msg ? "message" : "AAD", TOT));
}

// ------------------------------------------------------------------ WBGCM-mask
struct MaskRun { Bytes out, tag; };
static MaskRun maskRun(Case &c, WBCRYPTO_wbaes_wbgcm_mask_context *t, bool dec, const Bytes &iv, const Bytes &aad, const Bytes &m, bool split, bool reuse) {
    WBCRYPTO_wbgcm_mask_context *g = WBCRYPTO_wbaes_wbgcm_mask_init(t);
    c.check(g != nullptr, "gcm-init", "wbgcm_mask_init returned NULL");
    if (reuse) {                            // an abandoned message first
        Bytes iv0 = ivOf(c.rng), a = c.rng.bytes(c.rng.below(40)), d = c.rng.bytes(c.rng.below(60)), e(64);
        WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv0.data(), iv0.size());
        WBCRYPTO_wbaes_wbgcm_mask_aad(g, a.data(), a.size());
        if (dec) WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, d.data(), d.size(), e.data(), e.size());
        else WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, d.data(), d.size(), e.data(), e.size());
        if (c.rng.below(2)) WBCRYPTO_wbaes_wbgcm_mask_finish(g, e.data(), 16);
    }
    Buf ivb(c, "iv", iv), ab(c, "aad", aad), in(c, "input", m), out(c, "output", m.size()), tb(c, "tag", 16);
    c.eqn(WBCRYPTO_wbaes_wbgcm_mask_setiv(g, ivb.p(), iv.size()), 1, "gcm-return", "mask setiv");
    c.eqn(WBCRYPTO_wbaes_wbgcm_mask_aad(g, ab.p(), aad.size()), 1, "gcm-return", "mask aad");
    size_t pos = 0;
    bool inpl = c.rng.below(3) == 0;
    uint8_t *dst = inpl ? in.p() : out.p();
    do {
        size_t k = m.size() - pos;
        if (split && k > 16 && c.rng.below(3)) k = 16 * c.rng.below(k / 16 + 1);
        int rc = dec ? WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, in.p() + pos, k, dst + pos, k) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, in.p() + pos, k, dst + pos, k);
        c.eqn(rc, 1, "gcm-return", "mask data");
        pos += k;
    } while (pos < m.size());
    c.eqn(WBCRYPTO_wbaes_wbgcm_mask_finish(g, tb.p(), 16), 1, "gcm-return", "mask finish");
    ivb.mustBeUnchanged(); ab.mustBeUnchanged(); if (!inpl) in.mustBeUnchanged(); else in.canary();
    out.canary(); tb.canary();
    MaskRun r{Bytes(dst, dst + m.size()), tb.bytes()};
    WBCRYPTO_wbaes_wbgcm_mask_free(g);
    return r;
}
SCENARIO(mask_messages, "wbgcmmask.messages") {
    Mask &M = mask(c, slotOf(c));
    size_t n = msgLen(c, 200);
    if (n > 9000) n = 9000;
    bool wrap;
    Bytes iv = pickIv(c, M.r, wrap), aad = c.rng.data(c.rng.below(3) ? c.rng.below(70) : 0), m = c.rng.data(n);
    std::string what = strf("wbgcm-mask, %zu bytes, iv %zu%s, aad %zu", n, iv.size(), wrap ? " (counter wraps)" : "", aad.size());
    MaskRun e = maskRun(c, M.e, false, iv, aad, m, c.rng.below(2), c.rng.below(3) == 0);
    MaskRun d = maskRun(c, M.d, true, iv, aad, e.out, c.rng.below(2), c.rng.below(3) == 0);
    c.eq(d.out.data(), m.data(), n, "mask-roundtrip", what);
    c.eq(d.tag.data(), e.tag.data(), 16, "mask-tags-agree", what);
    // the ciphertext is AES-CTR through an invertible, fixed byte mask
    ref::Gcm g(M.r, iv);
    Bytes s = g.ctr(m);
    for (size_t i = 0; i < n; i++) {
        int &f = M.map[i % 16][s[i]], &b = M.inv[i % 16][e.out[i]];
        if ((f >= 0 && f != e.out[i]) || (b >= 0 && b != s[i]))
            c.fail("mask-not-ctr", "%s: byte %zu is not the fixed invertible mask of AES-CTR output", what.c_str(), i);
        f = e.out[i]; b = s[i];
    }
    c.observe(hx::hashBytes(e.tag.data(), 16, n), n > 0);
    c.stat("mask map entries checked", (long)n);
    // encryption is deterministic
    MaskRun e2 = maskRun(c, M.e, false, iv, aad, m, c.rng.below(2), c.rng.below(2));
    if (e2.out != e.out || e2.tag != e.tag) c.fail("mask-history", "%s: result depends on splitting or on an earlier message of the context", what.c_str());
    // tags of other lengths are prefixes; longer ones are refused
    for (int dd = 0; dd < 2; dd++) {
        WBCRYPTO_wbgcm_mask_context *x = WBCRYPTO_wbaes_wbgcm_mask_init(dd ? M.d : M.e);
        WBCRYPTO_wbaes_wbgcm_mask_setiv(x, iv.data(), iv.size());
        WBCRYPTO_wbaes_wbgcm_mask_aad(x, aad.data(), aad.size());
        Bytes z(n + 1);
        if (dd) WBCRYPTO_wbaes_wbgcm_mask_decrypt(x, e.out.data(), n, z.data(), n); else WBCRYPTO_wbaes_wbgcm_mask_encrypt(x, m.data(), n, z.data(), n);
        if (c.rng.below(4)) {
            size_t tl = c.rng.below(17); Buf t(c, "tag", tl);
            c.eqn(WBCRYPTO_wbaes_wbgcm_mask_finish(x, t.p(), tl), 1, "gcm-return", "mask finish");
            c.eq(t.p(), e.tag.data(), tl, "mask-tag-prefix", what + strf(": tag of %zu bytes", tl)); t.canary();
        } else {
            size_t tl = 17 + c.rng.below(60); Buf t(c, "tag", tl);
            if (WBCRYPTO_wbaes_wbgcm_mask_finish(x, t.p(), tl) == 1) c.fail("gcm-tag-length", "a %zu byte tag was accepted", tl);
            if (!t.unchanged()) c.fail("refused-write", "refused tag request wrote output");
        }
        WBCRYPTO_wbaes_wbgcm_mask_free(x);
    }
    // forgeries: one changed bit, or zero bytes appended / removed
    for (int fi = 0; fi < (n > 2000 ? 1 : 4); fi++) {
        int what2 = (int)c.rng.below(6);
        Bytes ct = e.out, a2 = aad, iv2 = iv;
        if (what2 == 0 && n) ct[c.rng.below(n)] ^= (uint8_t)(1u << c.rng.below(8));
        else if (what2 == 1 && !aad.empty()) a2[c.rng.below(aad.size())] ^= (uint8_t)(1u << c.rng.below(8));
        else if (what2 == 3) ct.push_back(c.rng.below(2) ? 0 : (uint8_t)c.rng.below(256));
        else if (what2 == 4) a2.push_back(0);
        else if (what2 == 5 && n) ct.pop_back();
        else iv2[c.rng.below(iv.size())] ^= (uint8_t)(1u << c.rng.below(8));
        MaskRun f = maskRun(c, M.d, true, iv2, a2, ct, false, false);
        if (f.tag == e.tag) c.fail("mask-forgery", "%s: changed %s but the receiver computes the same tag", what.c_str(), ct != e.out ? "ciphertext" : a2 != aad ? "aad" : "iv");
        c.stat("forgeries tried");
    }
    // too small output
    if (n) {
        bool de = c.rng.below(2);
        WBCRYPTO_wbgcm_mask_context *x = WBCRYPTO_wbaes_wbgcm_mask_init(de ? M.d : M.e);
        WBCRYPTO_wbaes_wbgcm_mask_setiv(x, iv.data(), iv.size());
        size_t cap = c.rng.below(n);
        Buf in(c, "input", m), out(c, "too small output", cap);
        int rc = !de ? WBCRYPTO_wbaes_wbgcm_mask_encrypt(x, in.p(), n, out.p(), cap) : WBCRYPTO_wbaes_wbgcm_mask_decrypt(x, in.p(), n, out.p(), cap);
        c.eqn(rc, 0, "gcm-refuse", "wbgcm-mask into a too small output");
        if (!out.unchanged()) c.fail("refused-write", "refused wbgcm-mask call wrote output");
        out.canary();
        WBCRYPTO_wbaes_wbgcm_mask_free(x);
    }
    if (c.idx % 6 == 0) M.unchanged(c);
    if (c.idx % 80 == 11) c.sample(what + strf(", tag %s", hex(e.tag).c_str()));
}

// ------------------------------------------------------------------ interleaved contexts
// Several GCM contexts, each in the middle of its own message, are advanced in
// random order; each must produce what it produces alone.
struct Lane {
    std::string nm; GcmOps o; bool dec;
    std::function<void(const Bytes &iv, const Bytes &aad, const Bytes &m, Bytes &out, Bytes &tag)> expect;
    const ref::Cipher *r;
    int left = 2, st = 0;
    Bytes iv, aad, m, out, tag; size_t pos = 0;
};
static void interleave(Case &c, std::vector<Lane> &L) {
    uint64_t order = 0; std::string log;
    for (;;) {
        std::vector<size_t> live;
        for (size_t i = 0; i < L.size(); i++) if (L[i].left) live.push_back(i);
        if (live.empty()) break;
        size_t q = live[c.rng.below(live.size())];
        Lane &l = L[q];
        order = hx::mix(order * 8 + q * 4 + (uint64_t)l.st);
        if (log.size() < 400) log += strf(" %zu.%d", q, l.st);
        std::string what = l.nm + ", contexts advanced in the order (lane.step)" + log;
        switch (l.st) {
        case 0: {
            bool w; l.iv = pickIv(c, *l.r, w);
            // lanes often work with equal IVs and data
            Lane &z = L[c.rng.below(L.size())];
            if (c.rng.below(3) == 0 && !z.iv.empty()) l.iv = z.iv;
            l.aad = c.rng.data(c.rng.below(40)); l.m = c.rng.data(c.rng.below(120));
            if (c.rng.below(3) == 0) { l.aad = z.aad; l.m = z.m; }
            l.expect(l.iv, l.aad, l.m, l.out, l.tag);
            c.eqn(l.o.iv(l.iv.data(), l.iv.size()), 1, "gcm-return", what); l.st = 1; l.pos = 0; break; }
        case 1: c.eqn(l.o.aad(l.aad.data(), l.aad.size()), 1, "gcm-return", what); l.st = 2; break;
        case 2: {
            size_t k = l.m.size() - l.pos;
            if (k > 16 && c.rng.below(4)) k = 16 * (1 + c.rng.below(k / 16));
            Buf in(c, "input", Bytes(l.m.begin() + (long)l.pos, l.m.begin() + (long)(l.pos + k))), out(c, "output", k);
            c.eqn(l.dec ? l.o.dec(in.p(), k, out.p(), k) : l.o.enc(in.p(), k, out.p(), k), 1, "gcm-return", what);
            c.eq(out.p(), l.out.data() + l.pos, k, "interleave-data", what);
            l.pos += k; if (l.pos == l.m.size()) l.st = 3; break; }
        default: {
            Buf t(c, "tag", 16);
            c.eqn(l.o.fin(t.p(), 16), 1, "gcm-return", what);
            c.eq(t.p(), l.tag.data(), 16, "interleave-tag", what);
            c.observe(hx::hashBytes(t.p(), 16, order));
            l.st = 0; l.left--; c.stat("messages"); }
        }
    }
    c.stat("contexts interleaved", (long)L.size());
    if (c.idx % 100 == 7) c.sample("order" + log);
}
static Lane plainLane(const Key &K, WBCRYPTO_gcm_context *g, bool par, bool dec) {
    Lane l; l.nm = strf("%s GCM %s%s", kname[K.kind], par ? "parallel " : "", dec ? "decrypt" : "encrypt");
    l.o = par ? parOps(g) : plainOps(g); l.dec = dec; l.r = &K.r;
    const ref::Cipher *r = &K.r;
    l.expect = [r, dec](const Bytes &iv, const Bytes &aad, const Bytes &m, Bytes &out, Bytes &tag) { ref::Gcm g(*r, iv); out = g.ctr(m); tag = g.tag(aad, dec ? m : out); };
    return l;
}
static void gcmInterleave(Case &c, bool par) {
    // up to three keys; some contexts share one key
    std::vector<std::unique_ptr<Key>> own;
    for (int i = 0; i < 2; i++) own.push_back(make(c, c.rng.below(2) ? AES : SM4, Rng(c.rng.u64())));
    const Key &wb = key(c, c.rng.below(2) ? WBAES : WBSM4, slotOf(c));
    std::vector<WBCRYPTO_gcm_context *> gs; std::vector<Lane> L;
    int n = 2 + (int)c.rng.below(3);
    for (int i = 0; i < n; i++) {
        const Key &K = c.rng.below(5) == 0 ? wb : *own[c.rng.below(own.size())];
        gs.push_back(K.gcm()); c.check(gs.back() != nullptr, "gcm-init", "gcm_init returned NULL");
        L.push_back(plainLane(K, gs.back(), par && c.rng.below(3), c.rng.below(2)));
    }
    interleave(c, L);
    for (auto g : gs) WBCRYPTO_gcm_free(g);
}
SCENARIO(gcm_interleave, "gcm.interleave") { gcmInterleave(c, false); }
SCENARIO(gcmpar_interleave, "gcmpar.interleave") { gcmInterleave(c, true); }

static GcmOps eeOps(WBCRYPTO_wbgcm_ee_context *g) {
    return GcmOps{g, [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_setiv(g, p, n); },
        [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_aad(g, p, n); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, i, n, p, cap); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, i, n, p, cap); },
        [g](uint8_t *t, size_t n) { return WBCRYPTO_wbaes_wbgcm_ee_finish(g, t, n); }};
}
// two table sets alive at once, the second generated (for an equal or confusable key)
// while the first is in use, the first then regenerated
SCENARIO(ee_history, "wbgcmee.history") {
    const int N = 2;
    WBCRYPTO_wbaes_wbgcm_ee_context *t[N]; Bytes k[N]; ref::Cipher r[N];
    size_t kl; Bytes base = hx::keyOf(c.rng, kl);
    for (auto &x : t) x = (WBCRYPTO_wbaes_wbgcm_ee_context *)malloc(sizeof *x);
    for (int round = 0; round < 3; round++) {
        for (int i = 0; i < N; i++) {
            if (round && (round - 1) % N != i) continue;        // later rounds regenerate one of them
            k[i] = hx::relatedKey(c.rng, i && c.rng.below(2) ? k[0] : base);
            r[i] = ref::Cipher(false, hx::normKey(k[i]));
            if (!round) memset(t[i], (int)c.rng.below(256), sizeof *t[i]);
            if (c.rng.below(4)) seedLib(c.rng);
            Buf kb(c, "key", k[i]);
            WBCRYPTO_wbaes_wbgcm_ee_gen_table(t[i], kb.p(), k[i].size());
            kb.mustBeUnchanged(); kb.refill(0);
            c.stat("table sets generated");
        }
        std::vector<WBCRYPTO_wbgcm_ee_context *> gs; std::vector<Lane> L;
        for (int q = 0; q < 3; q++) {
            int i = q < N ? q : (int)c.rng.below(N);
            auto g = WBCRYPTO_wbaes_wbgcm_ee_init(t[i]); gs.push_back(g);
            c.check(g != nullptr, "gcm-init", "wbgcm_ee_init returned NULL");
            Lane l; l.dec = c.rng.below(2); l.nm = strf("wbgcm-ee %s, key %s", l.dec ? "decrypt" : "encrypt", hex(k[i]).c_str()); l.o = eeOps(g); l.r = &r[i];
            const ref::Cipher *rr = &r[i]; bool dec = l.dec;
            l.expect = [rr, dec](const Bytes &iv, const Bytes &aad, const Bytes &m, Bytes &out, Bytes &tag) { ref::Gcm g(*rr, iv); out = g.ctr(m); tag = g.tag(aad, dec ? m : out); };
            L.push_back(l);
        }
        interleave(c, L);
        for (auto g : gs) WBCRYPTO_wbaes_wbgcm_ee_free(g);
    }
    for (auto x : t) free(x);
}
static GcmOps maskOps(WBCRYPTO_wbgcm_mask_context *g) {
    return GcmOps{g, [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_mask_setiv(g, p, n); },
        [g](const uint8_t *p, size_t n) { return WBCRYPTO_wbaes_wbgcm_mask_aad(g, p, n); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, i, n, p, cap); },
        [g](const uint8_t *i, size_t n, uint8_t *p, size_t cap) { return WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, i, n, p, cap); },
        [g](uint8_t *t, size_t n) { return WBCRYPTO_wbaes_wbgcm_mask_finish(g, t, n); }};
}
// contexts over one encryption/decryption pair, all in the middle of a message
SCENARIO(mask_interleave, "wbgcmmask.interleave") {
    Mask &M = mask(c, slotOf(c));
    std::vector<WBCRYPTO_wbgcm_mask_context *> gs; std::vector<Lane> L;
    Case *cp = &c; Mask *mp = &M;
    for (int q = 0; q < 3; q++) {
        bool dec = q == 0 ? false : q == 1 ? true : c.rng.below(2) != 0;
        auto g = WBCRYPTO_wbaes_wbgcm_mask_init(dec ? M.d : M.e); gs.push_back(g);
        c.check(g != nullptr, "gcm-init", "wbgcm_mask_init returned NULL");
        Lane l; l.dec = dec; l.nm = strf("wbgcm-mask %s", dec ? "decrypt" : "encrypt"); l.o = maskOps(g); l.r = &M.r;
        l.expect = [cp, mp, dec](const Bytes &iv, const Bytes &aad, const Bytes &m, Bytes &out, Bytes &tag) { MaskRun x = maskRun(*cp, dec ? mp->d : mp->e, dec, iv, aad, m, false, false); out = x.out; tag = x.tag; };
        L.push_back(l);
    }
    interleave(c, L);
    for (auto g : gs) WBCRYPTO_wbaes_wbgcm_mask_free(g);
}
// two pairs alive at once; the first must keep inverting itself after the second was generated
SCENARIO(mask_history, "wbgcmmask.history") {
    WBCRYPTO_wbaes_wbgcm_mask_context *e[2], *d[2]; Bytes k[2]; ref::Cipher r[2];
    size_t kl; k[0] = hx::keyOf(c.rng, kl);
    struct Rec { int p; Bytes iv, aad, m, ct, tag; }; std::vector<Rec> recs;
    for (int p = 0; p < 2; p++) {
        e[p] = WBCRYPTO_wbaes_wbgcm_mask_init_table(); d[p] = WBCRYPTO_wbaes_wbgcm_mask_init_table();
        c.check(e[p] && d[p], "key-setup", "mask table allocation failed");
        if (p) k[1] = hx::relatedKey(c.rng, k[0]);
        r[p] = ref::Cipher(false, hx::normKey(k[p]));
        if (c.rng.below(4)) seedLib(c.rng);
        Buf kb(c, "key", k[p]);
        WBCRYPTO_wbaes_wbgcm_mask_gen_table(e[p], d[p], kb.p(), k[p].size());
        kb.mustBeUnchanged(); kb.refill(0);
        c.stat("table pairs generated");
        for (int q = 0; q <= p; q++) for (int j = 0; j < 3; j++) {
            Bytes m = c.rng.data(c.rng.below(100)), aad = c.rng.data(c.rng.below(30)), iv = ivOf(c.rng);
            MaskRun x = maskRun(c, e[q], false, iv, aad, m, true, false), y = maskRun(c, d[q], true, iv, aad, x.out, true, false);
            c.eq(y.out.data(), m.data(), m.size(), "mask-roundtrip", strf("pair %d of %d, key %s", q, p + 1, hex(k[q]).c_str()));
            c.eq(y.tag.data(), x.tag.data(), 16, "mask-tags-agree", strf("pair %d of %d, key %s", q, p + 1, hex(k[q]).c_str()));
            recs.push_back({q, iv, aad, m, x.out, x.tag});
            c.observe(hx::hashBytes(x.tag.data(), 16));
        }
    }
    for (auto &z : recs) {
        MaskRun y = maskRun(c, d[z.p], true, z.iv, z.aad, z.ct, true, false);
        if (y.out != z.m || y.tag != z.tag) c.fail("mask-roundtrip", "ciphertext of pair %d no longer decrypts (key %s)", z.p, hex(k[z.p]).c_str());
    }
    // there is no public call that releases the tables of a mask key
    for (int p = 0; p < 2; p++) for (auto x : {e[p], d[p]}) { if (x->GBOX_TypeIII) { for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) free(x->GBOX_TypeIII[i][j]); free(x->GBOX_TypeIII[i]); } free(x->GBOX_TypeIII); } free(x); }
}

// ------------------------------------------------------------------ calls with more than 4 GB
#include <sys/mman.h>
#include <unistd.h>
// an 8 MB pattern mapped over and over: huge read-only input at no cost
struct Repeat {
    static const size_t P = (size_t)8 << 20;
    uint8_t *p = nullptr; size_t len = 0; Bytes pat;
    Repeat(Case &c, size_t n) {
        pat = c.rng.bytes(P);
        len = (n + P - 1) / P * P;
        int fd = memfd_create("pattern", 0);
        if (fd < 0 || ftruncate(fd, (off_t)P) || pwrite(fd, pat.data(), P, 0) != (ssize_t)P) return;
        void *v = mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (v == MAP_FAILED) { close(fd); return; }
        bool ok = true;
        for (size_t o = 0; o < len; o += P) ok &= mmap((uint8_t *)v + o, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
        close(fd);
        if (ok) p = (uint8_t *)v;
    }
    ~Repeat() { if (p) munmap(p, len); }
};
struct Room { uint8_t *p; size_t n; Room(size_t n) : n(n) { void *v = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = v == MAP_FAILED ? nullptr : (uint8_t *)v; } ~Room() { if (p) munmap(p, n); } };
SCENARIO(gcm_huge, "gcm.huge") {
    // (parallel GCM of that size would need some 15 GB of working memory)
    int kind = (int)(c.idx % 3);            // 0 encrypt, 1 AAD, 2 decrypt
    bool dec = kind == 2;
    size_t n = ((size_t)1 << 32) + 16 * c.rng.below(50000) + c.rng.below(16);
    auto K = make(c, AES, c.rng);
    WBCRYPTO_gcm_context *g = K->gcm();
    Bytes iv = c.rng.bytes(12), aad = c.rng.bytes(20);
    Repeat in(c, n); Room out(kind == 1 ? 4096 : n);
    if (!in.p || !out.p) { c.stat("huge message skipped (memory)"); WBCRYPTO_gcm_free(g); return; }
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(e, EVP_aes_128_gcm(), nullptr, K->norm.data(), iv.data(), 1);
    const uint8_t *ap = kind == 1 ? in.p : aad.data(); size_t an = kind == 1 ? n : aad.size();
    c.eqn(WBCRYPTO_gcm_setiv(g, iv.data(), iv.size()), 1, "gcm-return", "setiv");
    c.eqn(WBCRYPTO_gcm_aad(g, ap, an), 1, "gcm-return", "aad");
    evp(e, nullptr, ap, an);
    uint8_t want[16], got[16]; int l;
    Bytes w(Repeat::P);
    if (kind != 1) {
        int rc = dec ? WBCRYPTO_gcm_decrypt(g, in.p, n, out.p, n) : WBCRYPTO_gcm_encrypt(g, in.p, n, out.p, n);
        c.eqn(rc, 1, "gcm-return", strf("one call with %zu bytes", n));
        for (size_t p = 0; p < n; p += Repeat::P) {
            size_t k = std::min(Repeat::P, n - p);
            // decryption: the keystream is the same, so encrypting the plaintext obtained must give the input
            evp(e, w.data(), dec ? out.p + p : in.p + p, k);
            if (memcmp(w.data(), dec ? in.p + p : out.p + p, k)) c.fail("gcm-data", "one %s of %zu bytes is wrong near offset %zu", dec ? "decryption" : "encryption", n, p);
        }
    }
    EVP_EncryptFinal_ex(e, want, &l); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want); EVP_CIPHER_CTX_free(e);
    c.eqn(WBCRYPTO_gcm_finish(g, got, 16), 1, "gcm-return", "finish");
    c.eq(got, want, 16, "gcm-tag", strf("tag after one call with %zu bytes (kind %d)", n, kind));
    WBCRYPTO_gcm_free(g);
    c.observe(hx::hashBytes(want, 16));
    c.stat("calls with more than 4 GB");
    c.sample(strf("%zu bytes in one call, kind %d, tag %s", n, kind, hex(want, 16).c_str()));
}
// enough memory for a call with its working storage, and some to spare?
static bool roomFor(Case &c, size_t bytes) {
    for (int i = 0; i < 100; i++) {
        long kb = 0; char l[200]; FILE *f = fopen("/proc/meminfo", "r");
        while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %ld", &kb) == 1) break;
        if (f) fclose(f);
        if (((size_t)kb << 10) > bytes + ((size_t)5 << 30)) return true;
        sleep(1);
    }
    c.stat("huge message skipped (memory)");
    return false;
}
// one parallel call of more than 2 GB
SCENARIO(gcmpar_huge, "gcmpar.huge") {
    bool dec = c.idx % 2;
    size_t n = ((size_t)1 << 31) + 16 * c.rng.below(50000) + c.rng.below(16);
    if (!roomFor(c, n + n / 16 * 40)) return;
    auto K = make(c, AES, c.rng);
    WBCRYPTO_gcm_context *g = K->gcm();
    Bytes iv = c.rng.bytes(12), aad = c.rng.bytes(20), w(Repeat::P);
    Repeat in(c, n); Room out(n);
    if (!in.p || !out.p) { c.stat("huge message skipped (memory)"); WBCRYPTO_gcm_free(g); return; }
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(e, EVP_aes_128_gcm(), nullptr, K->norm.data(), iv.data(), 1);
    evp(e, nullptr, aad.data(), aad.size());
    c.eqn(WBCRYPTO_gcm_setiv(g, iv.data(), iv.size()), 1, "gcm-return", "setiv");
    c.eqn(WBCRYPTO_gcm_aad(g, aad.data(), aad.size()), 1, "gcm-return", "aad");
    c.eqn((dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt)(g, in.p, n, out.p, n), 1, "gcm-return", strf("one parallel call with %zu bytes", n));
    for (size_t p = 0; p < n; p += Repeat::P) {
        size_t k = std::min(Repeat::P, n - p);
        evp(e, w.data(), dec ? out.p + p : in.p + p, k);
        if (memcmp(w.data(), dec ? in.p + p : out.p + p, k)) c.fail("gcm-data", "one parallel %s of %zu bytes is wrong near offset %zu", dec ? "decryption" : "encryption", n, p);
    }
    uint8_t want[16], got[16]; int l;
    EVP_EncryptFinal_ex(e, want, &l); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want); EVP_CIPHER_CTX_free(e);
    c.eqn(WBCRYPTO_gcm_finish(g, got, 16), 1, "gcm-return", "finish");
    c.eq(got, want, 16, "gcm-tag", strf("tag after one parallel call with %zu bytes", n));
    WBCRYPTO_gcm_free(g);
    c.observe(hx::hashBytes(want, 16)); c.stat("parallel calls with more than 2 GB");
    c.sample(strf("%zu bytes in one parallel %s, tag %s", n, dec ? "decryption" : "encryption", hex(want, 16).c_str()));
}
SCENARIO(cbc_huge, "cbc.huge") {
    Kind kd = c.idx % 2 ? SM4 : AES;
    auto K = make(c, kd, c.rng);
    size_t n = ((size_t)1 << 32) + 16 * c.rng.below(50000) + 1 + c.rng.below(15), pn = n / 16 * 16 + 16;
    Repeat in(c, n); Room out(pn);
    if (!in.p || !out.p) { c.stat("huge message skipped (memory)"); return; }
    Bytes iv = c.rng.bytes(16), iv2 = iv, w(Repeat::P + 16);
    size_t use = 0; int l;
    c.eqn(K->cbcEnc(in.p, n, out.p, pn, &use, iv2.data()), 1, "cbc-enc-return", strf("%s CBC encrypt of %zu bytes", kname[kd], n));
    c.eqn((long long)use, (long long)pn, "cbc-enc-length", strf("%s CBC encrypt of %zu bytes, reported length", kname[kd], n));
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(e, kd == AES ? EVP_aes_128_cbc() : EVP_sm4_cbc(), nullptr, K->norm.data(), iv.data());
    size_t o = 0;
    for (size_t p = 0; p < n; p += Repeat::P) {
        EVP_EncryptUpdate(e, w.data(), &l, in.p + p, (int)std::min(Repeat::P, n - p));
        if (memcmp(w.data(), out.p + o, (size_t)l)) c.fail("cbc-enc-value", "%s CBC encrypt of %zu bytes is wrong near offset %zu", kname[kd], n, o);
        o += (size_t)l;
    }
    EVP_EncryptFinal_ex(e, w.data(), &l); EVP_CIPHER_CTX_free(e);
    c.eq(out.p + o, w.data(), (size_t)l, "cbc-enc-value", strf("last block of %zu bytes", n));
    iv2 = iv; use = 0;
    c.eqn(K->cbcDec(out.p, pn, out.p, pn, &use, iv2.data()), 1, "cbc-dec-return", strf("%s CBC decrypt of %zu bytes", kname[kd], pn));
    c.eqn((long long)use, (long long)n, "cbc-dec-length", strf("%s CBC decrypt of %zu bytes, length of the message", kname[kd], pn));
    for (size_t p = 0; p < n; p += Repeat::P) if (memcmp(in.p + p, out.p + p, std::min(Repeat::P, n - p))) c.fail("cbc-dec-value", "%s CBC decrypt of %zu bytes in place is wrong near offset %zu", kname[kd], pn, p);
    c.observe(hx::hashBytes(w.data(), 16));
    c.stat("calls with more than 4 GB");
    c.sample(strf("%s CBC of %zu bytes both ways", kname[kd], n));
}

SCENARIO(ee_huge, "wbgcmee.huge") {         // AAD of more than 4 GB
    const Ee &E = ee(c, c.idx);
    WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init((WBCRYPTO_wbaes_wbgcm_ee_context *)E.t);
    size_t n = ((size_t)1 << 32) + c.rng.below(800000);
    Repeat in(c, n);
    if (!in.p) { c.stat("huge AAD skipped (memory)"); WBCRYPTO_wbaes_wbgcm_ee_free(g); return; }
    Bytes iv = c.rng.bytes(12), m = c.rng.bytes(100), o(100), w(100);
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(e, EVP_aes_128_gcm(), nullptr, E.norm.data(), iv.data());
    evp(e, nullptr, in.p, n); evp(e, w.data(), m.data(), 100);
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv.data(), 12), 1, "gcm-return", "setiv");
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_aad(g, in.p, n), 1, "gcm-return", "aad");
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, m.data(), 100, o.data(), 100), 1, "gcm-return", "data");
    c.eq(o.data(), w.data(), 100, "gcm-data", "message after a huge AAD");
    uint8_t want[16], got[16]; int l;
    EVP_EncryptFinal_ex(e, want, &l); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, want); EVP_CIPHER_CTX_free(e);
    c.eqn(WBCRYPTO_wbaes_wbgcm_ee_finish(g, got, 16), 1, "gcm-return", "finish");
    c.eq(got, want, 16, "gcm-tag", strf("tag with an AAD of %zu bytes", n));
    WBCRYPTO_wbaes_wbgcm_ee_free(g);
    c.observe(hx::hashBytes(want, 16)); c.stat("calls with more than 4 GB");
    c.sample(strf("AAD of %zu bytes", n));
}
// all-zero AADs hash to zero whatever their number of blocks: only the length field can tell them apart
SCENARIO(mask_long, "wbgcmmask.long") {
    Mask &M = mask(c, c.idx);
    auto ge = WBCRYPTO_wbaes_wbgcm_mask_init(M.e), gd = WBCRYPTO_wbaes_wbgcm_mask_init(M.d);
    size_t base = 16 * c.rng.below(3), top = (size_t)1 << (c.idx % 2 ? 32 : 29);
    Room z(top + 64);
    if (!z.p) { c.stat("huge AAD skipped (memory)"); WBCRYPTO_wbaes_wbgcm_mask_free(ge); WBCRYPTO_wbaes_wbgcm_mask_free(gd); return; }
    Bytes iv = c.rng.bytes(12), m = c.rng.bytes(c.rng.below(60)), ct(m.size()), pt(m.size());
    auto tag = [&](WBCRYPTO_wbgcm_mask_context *g, bool dec, size_t al) {
        Bytes t(16);
        c.eqn(WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv.data(), iv.size()), 1, "gcm-return", "setiv");
        c.eqn(WBCRYPTO_wbaes_wbgcm_mask_aad(g, z.p, al), 1, "gcm-return", "aad");
        c.eqn(dec ? WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, ct.data(), ct.size(), pt.data(), pt.size()) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, m.data(), m.size(), ct.data(), ct.size()), 1, "gcm-return", "data");
        c.eqn(WBCRYPTO_wbaes_wbgcm_mask_finish(g, t.data(), 16), 1, "gcm-return", "finish");
        return t;
    };
    Bytes a = tag(ge, false, base + top), b = tag(gd, true, base + top);
    if (a != b) c.fail("mask-tag", "tags differ with an AAD of %zu bytes", base + top);
    if (pt != m) c.fail("mask-roundtrip", "wrong plaintext with an AAD of %zu bytes", base + top);
    for (size_t l : {base, base + 16, base + (top >> 1)}) if (tag(gd, true, l) == a) c.fail("mask-forgery", "AADs of %zu and %zu zero bytes give the same tag", base + top, l);
    WBCRYPTO_wbaes_wbgcm_mask_free(ge); WBCRYPTO_wbaes_wbgcm_mask_free(gd);
    c.observe(hx::hashBytes(a.data(), 16)); c.stat("huge AADs");
    c.sample(strf("AAD of %zu zero bytes against %zu", base + top, base));
}
