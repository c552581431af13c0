// C20 white-box SM4 key export/import, C21 padding / key expansion / key store
#include "lib.h"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
using namespace kit;
namespace {
typedef WBCRYPTO_wbsm4_context WS;
struct Ctx {
    WS *x; explicit Ctx(WS *p = nullptr) : x(p) {}
    ~Ctx() { reset(); }
    void reset() { if (x) WBCRYPTO_wbsm4_context_free(x); x = nullptr; }
    Ctx(const Ctx &) = delete;
};
struct UDir {
    std::string d; explicit UDir(Case &c) { d = hx::scratch() + strf("/u%ld", c.idx); mkdir(d.c_str(), 0755); }
    ~UDir() { for (auto &n : hx::listDir(d)) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); }
    std::string p(const char *n) { return d + "/" + n; }
};
Bytes image(WS *x) { char *s = nullptr; Bytes b; if (WBCRYPTO_wbsm4_key2bytes(x, &s) == 1 && s) { uint32_t n; memcpy(&n, s, 4); b.assign((uint8_t *)s, (uint8_t *)s + n); } free(s); return b; }
void works(Case &c, WS *x, bool dec, const ref::Cipher &r, const char *what) {
    for (int i = 0; i < (hx::isSan() ? 6 : 60); i++) {
        Bytes p = i % 4 ? c.rng.bytes(16) : c.rng.data(16), w(16), g(16);
        if (dec) r.dec(p.data(), w.data()); else r.enc(p.data(), w.data());
        int rc = dec ? WBCRYPTO_wbsm4_decrypt(p.data(), g.data(), x) : WBCRYPTO_wbsm4_encrypt(p.data(), g.data(), x);
        c.eqn(rc, 1, "import-function", what);
        c.eq(g.data(), w.data(), 16, "import-function", strf("%s: block %s", what, hex(p).c_str()));
    }
}
WS *fresh(Case &c, int kind, Rng &r, int sd, bool smode) {
    // the importing context: other mode, other dummy count, already keyed with another key, or alike
    int mode = kind & 1 ? (smode ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE) : (smode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE);
    int dm = kind & 2 ? (int)r.below(8) : sd;
    WS *x = WBCRYPTO_wbsm4_context_init(mode, dm);
    c.check(x != nullptr, "init", "wbsm4_context_init");
    if (kind & 4) { Bytes k = r.bytes(16); seedLib(r); c.eqn(WBCRYPTO_wbsm4_gen_table(x, k.data(), 16), 1, "gen-return", "wbsm4_gen_table"); }
    return x;
}
}
SCENARIO(exkey, "exkey.roundtrip") {
    Rng &r = c.rng;
    bool dec = c.idx & 1, viaFile = (c.idx / 2) & 1;
    int dummy = c.idx % 24 >= 17 && c.idx % 24 <= 19 ? 8 + (int)Rng(hx::mix(c.seed * 77 + (uint64_t)c.idx)).below(c.idx % 48 < 24 ? 60 : 300) : (int)((c.idx / 4) % 7);
    size_t kl; Bytes k = hx::keyOf(r, kl); ref::Cipher R(true, hx::normKey(k));
    Ctx src(WBCRYPTO_wbsm4_context_init(dec ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE, dummy));
    seedLib(r);
    c.check(src.x != nullptr, "init", "wbsm4_context_init");
    c.eqn(WBCRYPTO_wbsm4_gen_table(src.x, k.data(), kl), 1, "gen-return", "wbsm4_gen_table");
    UDir D(c);
    std::string f = D.p("key");
    if (viaFile && r.below(2)) hx::writeFile(f, r.bytes(r.below(2000000)));     // an older, possibly longer key file
    for (int round = 0; round < 2; round++) {
        Bytes before = image(src.x);
        c.check(!before.empty(), "export", "key2bytes failed");
        Ctx dst(fresh(c, (int)r.below(8), r, dummy, !dec)), dst2(fresh(c, (int)r.below(4), r, dummy, !dec));
        char *s = nullptr;
        if (viaFile) {
            c.eqn(WBCRYPTO_wbsm4_key2file(src.x, (char *)f.c_str()), 1, "export", "key2file");
            Bytes file; hx::readFile(f, file);
            c.eqn(WBCRYPTO_wbsm4_file2key(dst.x, (char *)f.c_str()), 1, "import", strf("file2key of a key with %d dummy rounds", dummy));
            Bytes file2; hx::readFile(f, file2); if (file != file2) c.fail("input-modified", "importing changed the key file");
        } else {
            c.eqn(WBCRYPTO_wbsm4_key2bytes(src.x, &s), 1, "export", "key2bytes");
            uint32_t n; memcpy(&n, s, 4);
            Bytes copy((uint8_t *)s, (uint8_t *)s + n);
            Buf kb(c, "key stream", copy);
            c.eqn(WBCRYPTO_wbsm4_bytes2key(dst.x, kb.c()), 1, "import", strf("bytes2key of a key with %d dummy rounds", dummy));
            kb.mustBeUnchanged();
            kb.refill(0xEE);                            // the byte string is gone
            memset(s, 0xEE, n); free(s);
        }
        if (image(src.x) != before) c.fail("export-changes-source", "exporting changed the source context");
        if (image(dst.x) != before) c.fail("import-differs", "re-exporting the imported context gives other tables");
        works(c, dst.x, dec, R, strf("imported %s, %d dummy rounds", viaFile ? "from file" : "from bytes", dummy).c_str());
        works(c, src.x, dec, R, "source after export");
        // independence: the source goes (or is re-keyed), the import stays
        if (round == 0 && r.below(2)) {
            Bytes k2 = r.bytes(16); seedLib(r);
            c.eqn(WBCRYPTO_wbsm4_gen_table(src.x, k2.data(), 16), 1, "gen-return", "re-keying the source");
            works(c, src.x, dec, ref::Cipher(true, k2), "source re-keyed after export");
        } else { for (int i = 0; i < 0; i++) {} src.reset(); }
        unlink(f.c_str());
        works(c, dst.x, dec, R, "imported context after the source and its byte string are gone");
        // chain: the import is itself exported
        char *t = nullptr;
        c.eqn(WBCRYPTO_wbsm4_key2bytes(dst.x, &t), 1, "export", "key2bytes of an imported context");
        dst.reset();
        c.eqn(WBCRYPTO_wbsm4_bytes2key(dst2.x, t), 1, "import", "bytes2key of a re-exported key");
        { uint32_t n; memcpy(&n, t, 4); memset(t, 0xEE, n); }
        free(t);
        works(c, dst2.x, dec, R, "re-imported context");
        // re-key the imported context: fully replaces, whatever it was created with
        if (r.below(3) == 0) {
            Bytes k3 = r.bytes(16); seedLib(r);
            c.eqn(WBCRYPTO_wbsm4_gen_table(dst2.x, k3.data(), 16), 1, "gen-return", "re-keying an imported context");
            works(c, dst2.x, dec, ref::Cipher(true, k3), "imported context after re-keying");
        }
        c.observe(hx::hashBytes(before.data(), before.size()));
        c.stat(viaFile ? "file round trips" : "byte round trips");
        if (!src.x) break;
        // next round continues with the re-keyed source: reference changes
        if (round == 0) { Bytes b = image(src.x); break; }
    }
    if (c.idx % 23 == 3) c.sample(strf("%s context with %d dummy rounds via %s", dec ? "decryption" : "encryption", dummy, viaFile ? "file" : "bytes"));
}
SCENARIO(exkey_bad, "exkey.refuse") {
    Rng &r = c.rng;
    const Key &K = key(c, WBSM4, c.idx / 24);
    UDir D(c); std::string f = D.p("key");
    c.eqn(WBCRYPTO_wbsm4_key2file(K.wbsm4, (char *)f.c_str()), 1, "export", "key2file");
    Bytes file; hx::readFile(f, file);
    int dm = (int)r.below(5);
    Ctx dst(WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, dm));
    bool keyed = r.below(2); Bytes k2 = r.bytes(16);
    if (keyed) { seedLib(r); WBCRYPTO_wbsm4_gen_table(dst.x, k2.data(), 16); }
    auto refuse = [&](const Bytes &b, const std::string &what) {
        hx::writeFile(f, b);
        int fds = hx::openFds();
        c.eqn(WBCRYPTO_wbsm4_file2key(dst.x, (char *)f.c_str()), 0, "bad-key-accepted", what);
        if (hx::openFds() != fds) c.fail("leak-fd", "%s: file left open", what.c_str());
        c.observe(hx::hashBytes(b.data(), b.size() < 64 ? b.size() : 64, b.size()));
        c.stat("damaged key files refused");
    };
    for (int i = 0; i < 6; i++) { Bytes b = file; b.resize(i == 0 ? (size_t)c.idx % 60 : i == 1 ? file.size() - 1 - (size_t)c.idx % 40 : (size_t)r.below(file.size())); refuse(b, strf("key file truncated to %zu of %zu bytes", b.size(), file.size())); }
    for (int i = 0; i < 3; i++) { Bytes b = file; Bytes e = r.bytes(1 + r.below(i == 0 ? 4 : 60000)); b.insert(b.end(), e.begin(), e.end()); refuse(b, strf("key file extended by %zu bytes", e.size())); }
    for (int i = 0; i < 6; i++) { Bytes b = file; size_t at = i == 0 ? (size_t)c.idx % 16 : r.below(16); b[at] ^= (uint8_t)(1 + r.below(255)); refuse(b, strf("key file with a damaged magic byte %zu", at)); }
    for (int i = 0; i < 8; i++) {                   // damaged round count: no longer fits the size
        Bytes b = file; int32_t n; memcpy(&n, &b[16], 4);
        static const int32_t bad[] = {0, -1, 31, 33, 0x7fffffff, (int32_t)0x80000000, -32, 1 << 24};
        int32_t v = r.below(2) ? bad[r.below(8)] : (int32_t)r.u32(); if (v == n) v++;
        memcpy(&b[16], &v, 4); refuse(b, strf("key file claiming %d rounds instead of %d", v, n));
    }
    refuse(Bytes(), "empty key file");
    unlink(f.c_str());
    c.eqn(WBCRYPTO_wbsm4_file2key(dst.x, (char *)f.c_str()), 0, "bad-key-accepted", "missing key file");
    // byte string whose length or round count does not fit
    Bytes im = image(K.wbsm4);
    for (int i = 0; i < 6; i++) {
        Bytes b = im; int at = (int)r.below(2) * 4; int32_t v = r.below(2) ? (int32_t)r.u32() : (int32_t)r.below(100); int32_t o; memcpy(&o, &b[at], 4); if (o == v) v++;
        memcpy(&b[at], &v, 4); Buf kb(c, "key stream", b);
        c.eqn(WBCRYPTO_wbsm4_bytes2key(dst.x, kb.c()), 0, "bad-key-accepted", at ? strf("byte string claiming %d rounds", v) : strf("byte string claiming %d bytes", v));
        kb.mustBeUnchanged();
    }
    // a refused import leaves a usable context behind
    if (keyed) works(c, dst.x, false, ref::Cipher(true, k2), "context after refused imports");
    hx::writeFile(f, file);
    c.eqn(WBCRYPTO_wbsm4_file2key(dst.x, (char *)f.c_str()), 1, "import", "good key file after refused ones");
    works(c, dst.x, false, K.r, "import after refused imports");
}

// ------------------------------------------------------------------ C21
SCENARIO(pad, "pad.roundtrip") {
    Rng &r = c.rng;
    size_t n = hx::sweepLen(c, 300, 5000);
    Bytes m = r.data(n);
    if (n && r.below(2)) { uint8_t k = (uint8_t)r.below(19); for (size_t i = 0; i < (k ? k : 1) && i < n; i++) if (r.below(6) || i == 0) m[n - 1 - i] = k; }
    Bytes w = ref::pkcs7(m);
    Buf src(c, "message", m), dst(c, "padded", w.size() + (r.below(2) ? 0 : r.below(20)), (int)r.below(256));
    c.eqn((long long)WBCRYPTO_padding_pkcs7_merge_length(src.p(), n), (long long)w.size(), "pad-length", strf("merge_length of %zu", n));
    src.mustBeUnchanged();
    c.eqn((long long)WBCRYPTO_padding_pkcs7_merge(src.p(), n, dst.p()), (long long)w.size(), "pad-length", strf("merge of %zu bytes", n));
    c.eq(dst.p(), w.data(), w.size(), "pad-value", strf("merge of %zu bytes", n));
    src.mustBeUnchanged(); dst.onlyPrefix(w.size());
    Buf p(c, "padded message", w), o(c, "separated", w.size(), (int)r.below(256));
    size_t sl = WBCRYPTO_padding_pkcs7_separate_length(p.p(), w.size()), s = WBCRYPTO_padding_pkcs7_separate(p.p(), w.size(), o.p());
    c.eqn((long long)sl, (long long)s, "pad-length", "separate_length against separate");
    if (!ref::ambiguousTail(m)) { c.eqn((long long)s, (long long)n, "separate-length", strf("separate after merge of %zu bytes", n)); c.eq(o.p(), m.data(), n, "separate-value", "separate"); }
    else if (s > n) c.fail("separate-length", "longer than the message"); else c.eq(o.p(), m.data(), s, "separate-value", "separate");
    p.mustBeUnchanged(); o.onlyPrefix(s);
    c.observe(hx::hashBytes(w.data(), w.size(), n));
    // arbitrary data: lengths agree, never longer, prefix kept
    size_t q = r.below(70); Bytes x = r.data(q); if (q && r.below(2)) x[q - 1] = (uint8_t)r.below(40);
    Buf xb(c, "data", x), yb(c, "data out", q, 0x11);
    size_t l1 = WBCRYPTO_padding_pkcs7_separate_length(xb.p(), q), l2 = WBCRYPTO_padding_pkcs7_separate(xb.p(), q, yb.p());
    if (l1 != l2 || l1 > q) c.fail("separate-length", "separate of %zu arbitrary bytes: %zu and %zu", q, l1, l2);
    c.eq(yb.p(), x.data(), l2, "separate-value", "separate of arbitrary bytes"); xb.mustBeUnchanged(); yb.onlyPrefix(l2);
    if (c.idx % 170 == 30) c.sample(strf("message of %zu bytes fills to %zu and back to %zu", n, w.size(), s));
}
SCENARIO(keypad, "pad.keys") {
    Rng &r = c.rng;
    size_t n = c.idx < 80 ? (size_t)c.idx : r.below(r.below(3) ? 40 : 5000);
    Bytes k = r.data(n), w = hx::normKey(k), z = k; z.resize(16, 0);
    Buf kb(c, "key", k), o(c, "expanded key", 16, (int)r.below(256)), o2(c, "zero-filled key", 16, (int)r.below(256));
    c.eqn((long long)WBCRYPTO_key_padding_pkcs7(kb.p(), n, o.p()), 16, "keypad-length", "key_padding_pkcs7");
    c.eq(o.p(), w.data(), 16, "keypad-value", strf("key_padding_pkcs7 of %zu bytes", n)); kb.mustBeUnchanged(); o.canary();
    c.eqn((long long)WBCRYPTO_key_padding_zeros(kb.p(), n, o2.p()), 16, "keypad-length", "key_padding_zeros");
    c.eq(o2.p(), z.data(), 16, "keypad-value", strf("key_padding_zeros of %zu bytes", n)); kb.mustBeUnchanged(); o2.canary();
    c.observe(hx::hashBytes(k.data(), n, n), n > 0);
}
SCENARIO(keystore, "keystore.roundtrip") {
    Rng &r = c.rng;
    UDir D(c); std::string f = D.p("ks");
    size_t n = c.idx < 70 ? (size_t)c.idx : r.below(3) ? r.below(3000) : 4090 + r.below(9000);
    if (c.idx % 40 == 39) n = sizeof(WBCRYPTO_wbaes_context);
    if (c.idx % 300 == 298) n = 65500 + r.below(200000);
    if (c.idx % 1500 == 1498) n = (16 << 20) - 40 + r.below(80);
    Bytes m = r.data(n);
    if (r.below(3) == 0) hx::writeFile(f, r.bytes(r.below(20000)));
    Buf b(c, "structure", m), g(c, "structure read", n, 0x33);
    c.eqn(WBCRYPTO_keystore_key_to_file(b.p(), n, (char *)f.c_str()), 1, "keystore-return", strf("writing %zu bytes", n));
    b.mustBeUnchanged();
    Bytes file; hx::readFile(f, file); if (file != m) c.fail("keystore-file", "the key store holds %zu bytes that are not the %zu-byte structure", file.size(), n);
    c.eqn(WBCRYPTO_keystore_file_to_key(g.p(), n, (char *)f.c_str()), 1, "keystore-return", strf("reading %zu bytes", n));
    c.eq(g.p(), m.data(), n, "keystore-value", strf("structure of %zu bytes read back", n)); g.canary();
    Bytes f2; hx::readFile(f, f2); if (f2 != m) c.fail("input-modified", "reading changed the key store");
    // short and missing files
    if (n) {
        for (int i = 0; i < 3; i++) {
            size_t cut = i == 0 ? n - 1 : r.below(n); Bytes s(m.begin(), m.begin() + (long)cut); hx::writeFile(f, s);
            Buf h(c, "structure read", n, 0x44); int fds = hx::openFds();
            c.eqn(WBCRYPTO_keystore_file_to_key(h.p(), n, (char *)f.c_str()), 0, "keystore-short", strf("file of %zu bytes read as %zu", cut, n)); h.canary();
            if (hx::openFds() != fds) c.fail("leak-fd", "short key store left open");
        }
    }
    unlink(f.c_str());
    Buf h(c, "structure read", n, 0x44);
    c.eqn(WBCRYPTO_keystore_file_to_key(h.p(), n, (char *)f.c_str()), 0, "keystore-missing", "missing key store"); h.mustBeUnchanged();
    c.eqn(WBCRYPTO_keystore_key_to_file(b.p(), n, (char *)(D.p("none") + "/x").c_str()), 0, "keystore-missing", "key store in a missing directory");
    c.observe(hx::hashBytes(m.data(), n, n), n > 0);
    // real contexts through the store
    if (c.idx % 12 == 5) {
        auto K = make(c, AES, r); Bytes im = K->image();
        c.eqn(WBCRYPTO_keystore_key_to_file(K->aes, sizeof *K->aes, (char *)f.c_str()), 1, "keystore-return", "aes context");
        WBCRYPTO_aes_context *x = WBCRYPTO_aes_context_init();
        c.eqn(WBCRYPTO_keystore_file_to_key(x, sizeof *x, (char *)f.c_str()), 1, "keystore-return", "aes context");
        Bytes p = r.bytes(16), o(16), w(16); K->r.enc(p.data(), w.data()); WBCRYPTO_aes_encrypt(p.data(), o.data(), x);
        WBCRYPTO_aes_context_free(x);
        c.eq(o.data(), w.data(), 16, "keystore-value", "aes context restored from the key store");
    }
}
// lengths beyond 2 GB (size_t interfaces)
SCENARIO(pad_huge, "pad.huge") {
    size_t n = (c.idx % 2 ? (size_t)1 << 32 : (size_t)1 << 31) + 3 + (size_t)c.rng.below(12);
    size_t w = (n + 15) / 16 * 16;
    if (w == n) { n -= 5; }
    w = (n + 15) / 16 * 16;
    auto mp = [&](size_t k) { void *p = mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (uint8_t *)p; };
    uint8_t *a = mp(n), *b = mp(w);
    if (!a || !b) { c.stat("no memory for huge buffers"); return; }
    a[0] = 1; a[n / 2] = 2; a[n - 1] = 3; a[(1u << 31) - 1] = 9; a[1ull << 31] = 8;
    c.eqn((long long)WBCRYPTO_padding_pkcs7_merge_length(a, n), (long long)w, "pad-length", strf("merge_length of %zu", n));
    c.eqn((long long)WBCRYPTO_padding_pkcs7_merge(a, n, b), (long long)w, "pad-length", strf("merge of %zu bytes", n));
    if (memcmp(a, b, n) != 0) c.fail("pad-value", "merge of %zu bytes lost data", n);
    for (size_t i = n; i < w; i++) if (b[i] != w - n) c.fail("pad-value", "fill of a %zu byte message", n);
    c.eqn((long long)WBCRYPTO_padding_pkcs7_separate_length(b, w), (long long)n, "separate-length", strf("separate_length of %zu", w));
    memset(a, 0, 4096);
    c.eqn((long long)WBCRYPTO_padding_pkcs7_separate(b, w, a), (long long)n, "separate-length", strf("separate of %zu", w));
    if (memcmp(a, b, n) != 0) c.fail("separate-value", "separate of %zu bytes lost data", w);
    munmap(a, n); munmap(b, w);
    c.observe(n);
    c.sample(strf("message of %zu bytes", n));
}
