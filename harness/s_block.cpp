// C01 SM3, C02 SM4, C03 AES, C04 white-box AES, C05 white-box SM4
#include "lib.h"
#include <sys/mman.h>
#include <openssl/evp.h>
using namespace kit;

SCENARIO(sm3_oneshot, "sm3.oneshot") {
    size_t n = hx::sweepLen(c, 700, c.idx % 97 == 0 ? 200000 : 9000);
    Bytes m = c.rng.data(n);
    Buf in(c, "msg", m), out(c, "digest", 32 + 8);
    int r = WBCRYPTO_sm3(in.p(), n, out.p());
    c.eqn(r, 1, "sm3-return", strf("one-shot SM3 of %zu bytes", n));
    Bytes w = ref::sm3(m);
    c.eq(out.p(), w.data(), 32, "sm3-digest", strf("one-shot SM3 of %zu bytes", n));
    out.onlyPrefix(32); in.mustBeUnchanged();
    c.observe(hx::hashBytes(w.data(), 32), n > 0);
    if (c.idx % 301 == 5) c.sample(strf("sm3(%zu bytes)=%s", n, hex(w).c_str()));
}

SCENARIO(sm3_chunks, "sm3.chunks") {
    struct One { Bytes m; size_t pos = 0; WBCRYPTO_sm3_context x; bool fin = false; };
    int k = 1 + (int)c.rng.below(4);
    std::vector<One> v((size_t)k);
    for (auto &o : v) {
        o.m = c.rng.data(c.idx < 260 ? (size_t)c.idx : hx::rndLen(c.rng, 3000));
        memset(&o.x, (int)c.rng.below(256), sizeof o.x);
        c.eqn(WBCRYPTO_sm3_init(&o.x), 1, "sm3-return", "sm3_init");
    }
    int style = (int)c.rng.below(5), updates = 0;
    int left = k;
    while (left) {
        One &o = v[c.rng.below(v.size())];
        if (o.fin) continue;
        if (o.pos == o.m.size() && (o.m.empty() || c.rng.below(3))) {
            Buf d(c, "digest", 32 + 4);
            c.eqn(WBCRYPTO_sm3_final(&o.x, d.p()), 1, "sm3-return", "sm3_final");
            Bytes w = ref::sm3(o.m);
            c.eq(d.p(), w.data(), 32, "sm3-digest", strf("%zu bytes in chunks (style %d, %d contexts interleaved)", o.m.size(), style, k));
            d.onlyPrefix(32);
            c.observe(hx::hashBytes(w.data(), 32, (uint64_t)style), !o.m.empty());
            o.fin = true; left--;
            // the finished context can be started again
            if (c.rng.below(4) == 0) {
                Bytes m2 = c.rng.data(c.rng.below(200));
                WBCRYPTO_sm3_init(&o.x); WBCRYPTO_sm3_update(&o.x, m2.data(), m2.size());
                uint8_t d2[32]; WBCRYPTO_sm3_final(&o.x, d2);
                c.eq(d2, ref::sm3(m2).data(), 32, "sm3-reuse", strf("context reused for %zu bytes", m2.size()));
            }
            continue;
        }
        size_t rem = o.m.size() - o.pos, n;
        switch (style) {
        case 0: n = c.rng.below(4); break;
        case 1: n = c.rng.below(130); break;
        case 2: n = 64 * c.rng.below(4) + (c.rng.below(2) ? 0 : c.rng.below(64)); break;
        case 3: n = 63 + c.rng.below(3); break;
        default: n = c.rng.below(rem + 1);
        }
        if (n > rem) n = rem;
        Buf in(c, "chunk", Bytes(o.m.begin() + (long)o.pos, o.m.begin() + (long)(o.pos + n)));
        c.eqn(WBCRYPTO_sm3_update(&o.x, in.p(), n), 1, "sm3-return", strf("sm3_update with %zu bytes", n));
        in.mustBeUnchanged();
        o.pos += n; updates++;
    }
    c.stat("update calls", updates);
    if (c.idx % 200 == 3) c.sample(strf("%d interleaved contexts, %d updates, chunk style %d", k, updates, style));
}

// messages whose bit count exceeds 32 bits
SCENARIO(sm3_long, "sm3.long") {
    static const uint64_t lim = 1ull << 29;
    uint64_t total = lim;
    int mode = (int)(c.idx % 3);            // 0: one call; 1: chunks; 2: chunks that straddle the carry
    if (c.idx % 6 == 3) total = 1ull << 32;
    total += c.idx == 0 ? 1 : c.rng.below(1 << 20);
    uint8_t *p = (uint8_t *)mmap(nullptr, mode == 0 ? total : (64u << 20) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { c.stat("long message skipped (memory)"); return; }
    size_t touch = mode == 0 ? 8 : (64u << 20);
    for (size_t i = 0; i < touch; i += 1 + c.rng.below(5000)) p[i] = (uint8_t)c.rng.u64();
    EVP_MD_CTX *e = EVP_MD_CTX_new();
    EVP_DigestInit_ex(e, EVP_sm3(), nullptr);
    WBCRYPTO_sm3_context x;
    uint8_t d[32], w[32]; unsigned wl = 32;
    int ok = 1;
    if (mode == 0) {
        ok = WBCRYPTO_sm3(p, total, d);
        EVP_DigestUpdate(e, p, total);
    } else {
        WBCRYPTO_sm3_init(&x);
        uint64_t left = total;
        while (left) {
            size_t n = (size_t)std::min<uint64_t>(left, mode == 1 ? (64u << 20) - (c.rng.below(200)) : (left > total - lim + (70u << 20) ? (64u << 20) : 1 + c.rng.below(1u << 20)));
            if (mode == 2 && total - left < lim && total - left + n >= lim && c.rng.below(2)) n = (size_t)(lim - (total - left)) ;
            if (!n) n = 1;
            ok &= WBCRYPTO_sm3_update(&x, p, n);
            EVP_DigestUpdate(e, p, n);
            left -= n;
        }
        ok &= WBCRYPTO_sm3_final(&x, d);
    }
    EVP_DigestFinal_ex(e, w, &wl);
    EVP_MD_CTX_free(e);
    munmap(p, mode == 0 ? total : (64u << 20) + 4096);
    c.eqn(ok, 1, "sm3-return", "long message");
    c.eq(d, w, 32, "sm3-long", strf("digest of a %llu byte message (mode %d)", (unsigned long long)total, mode));
    c.observe(hx::hashBytes(w, 32));
    c.stat("MB hashed in long messages", (long)(total >> 20));
    c.sample(strf("%llu bytes, mode %d", (unsigned long long)total, mode));
}

// ------------------------------------------------------------ block ciphers
static Bytes shapedKey(Case &c, long idx, size_t &kl) {
    if (idx < 128) { kl = 16; Bytes k(16, 0); k[(size_t)idx / 8] = (uint8_t)(0x80 >> (idx % 8)); return k; }
    if (idx < 128 + 65) { kl = (size_t)idx - 128; return c.rng.bytes(kl); }      // every length 0..64
    return hx::keyOf(c.rng, kl);
}
struct BlockOps {
    std::function<int(const uint8_t *, size_t)> init;
    std::function<int(const uint8_t *, uint8_t *)> enc, dec;
};
static void runBlocks(Case &c, const char *nm, BlockOps &o, bool sm4) {
    int rekeys = 1 + (int)c.rng.below(3);
    for (int rk = 0; rk < rekeys; rk++) {
        size_t kl; Bytes k = rk == 0 ? shapedKey(c, c.idx, kl) : hx::keyOf(c.rng, kl);
        ref::Cipher R(sm4, hx::normKey(k));
        Buf kb(c, "key", k);
        c.eqn(o.init(kb.p(), kl), 1, "init-return", strf("%s init_key(%zu bytes)", nm, kl));
        kb.mustBeUnchanged();
        kb.refill(0);                                   // the key must have been copied
        int nb = rk == 0 && c.idx < 20 ? 256 : 40;
        for (int b = 0; b < nb; b++) {
            Bytes p;
            if (nb == 256) { p.assign(16, (uint8_t)b); if (c.idx & 1) for (size_t i = 0; i < 16; i++) p[i] = (uint8_t)(b + 17 * i); }
            else if (b < 3) { p.assign(16, 0); p[c.rng.below(16)] = (uint8_t)(1u << c.rng.below(8)); }
            else p = c.rng.data(16);
            Bytes w(16), wd(16);
            R.enc(p.data(), w.data()); R.dec(p.data(), wd.data());
            bool inpl = c.rng.below(2);
            size_t off = c.rng.below(3) ? 0 : c.rng.below(16);
            Buf in(c, "block", 16 + off), out(c, "out", 16 + off);
            memcpy(in.p() + off, p.data(), 16); in.snap();
            uint8_t *dst = inpl ? in.p() + off : out.p() + off;
            const char *how = inpl ? "in place" : "separate";
            c.eqn(o.enc(in.p() + off, dst), 1, "enc-return", strf("%s encrypt", nm));
            c.eq(dst, w.data(), 16, "encrypt-value", strf("%s encrypt %s, key #%d of %zu bytes %s, block %s", nm, how, rk, kl, hex(k).c_str(), hex(p).c_str()));
            if (!inpl) in.mustBeUnchanged();
            c.eqn(o.dec(dst, dst), 1, "dec-return", strf("%s decrypt", nm));
            c.eq(dst, p.data(), 16, "decrypt-value", strf("%s decrypt(encrypt(x)) in place, key %s", nm, hex(k).c_str()));
            memcpy(in.p() + off, p.data(), 16); in.snap();
            c.eqn(o.dec(in.p() + off, dst), 1, "dec-return", strf("%s decrypt", nm));
            c.eq(dst, wd.data(), 16, "decrypt-value", strf("%s decrypt %s of block %s, key %s", nm, how, hex(p).c_str(), hex(k).c_str()));
            in.canary(); out.canary();
            c.observe(hx::hashBytes(w.data(), 16));
        }
        // long chain: errors in any table entry amplify
        Bytes x = c.rng.bytes(16), y = x;
        for (int i = 0; i < 60; i++) { o.enc(x.data(), x.data()); R.enc(y.data(), y.data()); }
        c.eq(x.data(), y.data(), 16, "encrypt-chain", strf("%s 60-fold encryption, key %s", nm, hex(k).c_str()));
        if (c.idx % 150 == 7) c.sample(strf("%s key[%zu]=%s E(..)=%s", nm, kl, hex(k).c_str(), hex(y).c_str()));
    }
}
SCENARIO(sm4_block, "sm4.block") {
    WBCRYPTO_sm4_context *x = WBCRYPTO_sm4_context_init();
    c.check(x != nullptr, "init", "sm4_context_init returned NULL");
    BlockOps o{[&](const uint8_t *k, size_t n) { return WBCRYPTO_sm4_init_key(x, k, n); },
               [&](const uint8_t *a, uint8_t *b) { return WBCRYPTO_sm4_encrypt(a, b, x); },
               [&](const uint8_t *a, uint8_t *b) { return WBCRYPTO_sm4_decrypt(a, b, x); }};
    runBlocks(c, "sm4", o, true);
    WBCRYPTO_sm4_context_free(x);
}
SCENARIO(aes_block, "aes.block") {
    WBCRYPTO_aes_context *x = WBCRYPTO_aes_context_init();
    c.check(x != nullptr, "init", "aes_context_init returned NULL");
    BlockOps o{[&](const uint8_t *k, size_t n) { return WBCRYPTO_aes_init_key(x, k, n); },
               [&](const uint8_t *a, uint8_t *b) { return WBCRYPTO_aes_encrypt(a, b, x); },
               [&](const uint8_t *a, uint8_t *b) { return WBCRYPTO_aes_decrypt(a, b, x); }};
    runBlocks(c, "aes", o, false);
    WBCRYPTO_aes_context_free(x);
}

// Histories: several live contexts, re-keyed in any order with equal or confusable
// keys; each must go on computing the cipher under its own latest key.
enum Dirs { ENC_ONLY, BOTH, BY_MODE };
template <class X, class Init, class Free, class Set, class Use>
static void histories(Case &c, const char *nm, bool sm4, Dirs dirs, int slots, int steps, int blocks, Init mk, Free fr, Set set, Use use) {
    struct S { X *x = nullptr; Bytes k; ref::Cipher r; bool keyed = false; int mode = 0; };
    std::vector<S> v((size_t)slots);
    size_t kl; Bytes base = hx::keyOf(c.rng, kl);
    if (c.rng.below(4) == 0) base.assign(16, (uint8_t)(c.rng.below(2) ? 0 : c.rng.below(256)));
    uint64_t trace = 0;
    std::string log;
    for (int st = 0; st < steps; st++) {
        size_t i = c.rng.below(v.size());
        S &s = v[i];
        if (s.x && c.rng.below(5) == 0) { fr(s.x); s = S(); trace = hx::mix(trace * 31 + i); log += strf(" free%zu", i); c.stat("contexts freed while others live"); continue; }
        if (!s.x) { s.mode = (int)c.rng.below(2); s.x = mk(s.mode); c.check(s.x != nullptr, "init", "context_init returned NULL"); }
        if (!s.keyed || c.rng.below(2)) {
            const Bytes &from = c.rng.below(2) ? base : v[c.rng.below(v.size())].k;
            s.k = hx::relatedKey(c.rng, from.empty() && c.rng.below(3) ? base : from);
            if (c.rng.below(3) == 0) base = s.k;
            s.r = ref::Cipher(sm4, hx::normKey(s.k));
            Buf kb(c, "key", s.k);
            c.eqn(set(s.x, kb.p(), s.k.size(), s.mode), 1, "init-return", strf("%s keying", nm));
            kb.mustBeUnchanged(); kb.refill(0);
            s.keyed = true;
            trace = hx::mix(trace * 31 + i + 7); log += strf(" key%zu=%s", i, hex(s.k).c_str());
            c.stat("keyings");
        }
        for (int j = 0; j < slots + 1; j++) {                   // the one just keyed, then the bystanders
            size_t q = j == 0 ? i : c.rng.below(v.size());
            S &t = v[q];
            if (!t.keyed) continue;
            for (int b = 0; b < blocks; b++) {
                Bytes p = c.rng.data(16), w(16), o(16);
                bool dec = dirs == BOTH ? c.rng.below(2) != 0 : dirs == BY_MODE && t.mode == 1;
                if (dec) t.r.dec(p.data(), w.data()); else t.r.enc(p.data(), w.data());
                c.eqn(use(t.x, p.data(), o.data(), dec), 1, "enc-return", nm);
                if (o != w) c.eq(o.data(), w.data(), 16, "history-value", strf("%s %s of context %zu (key %s) after:%s", nm, dec ? "decrypt" : "encrypt", q, hex(t.k).c_str(), log.c_str()));
                c.observe(hx::hashBytes(w.data(), 16, trace));
            }
        }
    }
    for (auto &s : v) if (s.x) fr(s.x);
    if (c.idx % 100 == 3) c.sample(strf("%s history:%s", nm, log.substr(0, 300).c_str()));
}
SCENARIO(sm4_history, "sm4.history") {
    histories<WBCRYPTO_sm4_context>(c, "sm4", true, BOTH, 3, 12, 2, [](int) { return WBCRYPTO_sm4_context_init(); }, WBCRYPTO_sm4_context_free,
        [](WBCRYPTO_sm4_context *x, const uint8_t *k, size_t n, int) { return WBCRYPTO_sm4_init_key(x, k, n); },
        [](WBCRYPTO_sm4_context *x, const uint8_t *i, uint8_t *o, int d) { return d ? WBCRYPTO_sm4_decrypt(i, o, x) : WBCRYPTO_sm4_encrypt(i, o, x); });
}
SCENARIO(aes_history, "aes.history") {
    histories<WBCRYPTO_aes_context>(c, "aes", false, BOTH, 3, 12, 2, [](int) { return WBCRYPTO_aes_context_init(); }, WBCRYPTO_aes_context_free,
        [](WBCRYPTO_aes_context *x, const uint8_t *k, size_t n, int) { return WBCRYPTO_aes_init_key(x, k, n); },
        [](WBCRYPTO_aes_context *x, const uint8_t *i, uint8_t *o, int d) { return d ? WBCRYPTO_aes_decrypt(i, o, x) : WBCRYPTO_aes_encrypt(i, o, x); });
}
SCENARIO(wbaes_history, "wbaes.history") {
    hx::Rng *r = &c.rng;
    histories<WBCRYPTO_wbaes_context>(c, "wbaes", false, ENC_ONLY, 2, 5, 12, [](int) { return WBCRYPTO_wbaes_context_init(); }, WBCRYPTO_wbaes_context_free,
        [r](WBCRYPTO_wbaes_context *x, const uint8_t *k, size_t n, int) { if (r->below(4)) seedLib(*r); return WBCRYPTO_wbaes_gen_table(x, k, n); },
        [](WBCRYPTO_wbaes_context *x, const uint8_t *i, uint8_t *o, int d) { return WBCRYPTO_wbaes_encrypt(i, o, x); });
}
SCENARIO(wbsm4_history, "wbsm4.history") {
    hx::Rng *r = &c.rng;
    histories<WBCRYPTO_wbsm4_context>(c, "wbsm4", true, BY_MODE, 3, 5, 12, [r](int m) { return WBCRYPTO_wbsm4_context_init(m ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE, (int)r->below(5)); }, WBCRYPTO_wbsm4_context_free,
        [r](WBCRYPTO_wbsm4_context *x, const uint8_t *k, size_t n, int) { if (r->below(4)) seedLib(*r); return WBCRYPTO_wbsm4_gen_table(x, k, n); },
        [](WBCRYPTO_wbsm4_context *x, const uint8_t *i, uint8_t *o, int d) { return d ? WBCRYPTO_wbsm4_decrypt(i, o, x) : WBCRYPTO_wbsm4_encrypt(i, o, x); });
}

// ------------------------------------------------------------ white-box ciphers
static Bytes wbBlock(Case &c, int b) {
    if (b < 256) { Bytes p(16); uint8_t o = (uint8_t)(c.idx * 37); for (size_t i = 0; i < 16; i++) p[i] = (uint8_t)(b + o * (int)i); return p; }
    return b % 8 ? c.rng.bytes(16) : c.rng.data(16);
}
static int wbBlocks(const Case &c) { return hx::isSan() ? 60 : c.idx % 6 == 0 ? 6000 : 1500; }

SCENARIO(wbaes_block, "wbaes.block") {
    WBCRYPTO_wbaes_context *x = WBCRYPTO_wbaes_context_init();
    c.check(x != nullptr, "init", "wbaes_context_init returned NULL");
    int gens = c.rng.below(4) ? 1 : 2;
    for (int g = 0; g < gens; g++) {
        size_t kl; Bytes k = shapedKey(c, g == 0 ? c.idx : 9999, kl);
        ref::Cipher R(false, hx::normKey(k));
        seedLib(c.rng);
        Buf kb(c, "key", k);
        c.eqn(WBCRYPTO_wbaes_gen_table(x, kb.p(), kl), 1, "gen-return", "wbaes_gen_table");
        kb.mustBeUnchanged(); kb.refill(0);
        Bytes snap((uint8_t *)x, (uint8_t *)(x + 1));
        Buf in(c, "block", 16), out(c, "out", 16);
        int nb = wbBlocks(c);
        for (int b = 0; b < nb; b++) {
            Bytes p = wbBlock(c, b), w(16);
            R.enc(p.data(), w.data());
            in.set(p);
            bool inpl = c.rng.below(4) == 0;
            uint8_t *dst = inpl ? in.p() : out.p();
            c.eqn(WBCRYPTO_wbaes_encrypt(in.p(), dst, x), 1, "enc-return", "wbaes_encrypt");
            if (memcmp(dst, w.data(), 16) != 0)
                c.eq(dst, w.data(), 16, "wbaes-value", strf("wbaes %s, generation %d, key[%zu]=%s block=%s", inpl ? "in place" : "separate", g, kl, hex(k).c_str(), hex(p).c_str()));
            if (!inpl) in.mustBeUnchanged();
            c.observe(hx::hashBytes(w.data(), 16));
        }
        if (memcmp(snap.data(), x, sizeof *x) != 0) c.fail("key-context-modified", "encrypting changed the wbaes tables");
        c.stat("table sets generated");
        if (c.idx % 40 == 1) c.sample(strf("key[%zu]=%s, %d blocks all equal to AES", kl, hex(k).c_str(), nb));
    }
    WBCRYPTO_wbaes_context_free(x);
}

SCENARIO(wbsm4_block, "wbsm4.block") {
    int mode = (int)(c.idx & 1) ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE;
    int dummy = (int)((c.idx / 2) % 9);
    if (c.idx % 49 == 48) dummy = 9 + (int)c.rng.below(56);
    if (c.idx % 51 == 24) { static const int big[] = {255, 256, 257, 300, 511, 512, 520}; dummy = c.rng.below(2) ? big[c.rng.below(7)] : c.rng.below(2) ? 216 + (int)c.rng.below(60) : 60 + (int)c.rng.below(200); }   // more rounds than a byte counts
    WBCRYPTO_wbsm4_context *x = WBCRYPTO_wbsm4_context_init(mode, dummy);
    c.check(x != nullptr, "init", "wbsm4_context_init returned NULL");
    int gens = c.rng.below(6) ? 1 : 2;
    for (int g = 0; g < gens; g++) {
        size_t kl; Bytes k = shapedKey(c, g == 0 ? c.idx : 9999, kl);
        ref::Cipher R(true, hx::normKey(k));
        seedLib(c.rng);
        Buf kb(c, "key", k);
        c.eqn(WBCRYPTO_wbsm4_gen_table(x, kb.p(), kl), 1, "gen-return", "wbsm4_gen_table");
        kb.mustBeUnchanged(); kb.refill(0);
        char *img = nullptr; uint32_t il = 0;
        if (WBCRYPTO_wbsm4_key2bytes(x, &img) == 1 && img) memcpy(&il, img, 4);
        Buf in(c, "block", 16), out(c, "out", 16);
        int nb = wbBlocks(c);
        for (int b = 0; b < nb; b++) {
            Bytes p = wbBlock(c, b), w(16);
            if (mode == WBCRYPTO_ENCRYPT_MODE) R.enc(p.data(), w.data()); else R.dec(p.data(), w.data());
            in.set(p);
            bool inpl = c.rng.below(4) == 0;
            uint8_t *dst = inpl ? in.p() : out.p();
            int r = mode == WBCRYPTO_ENCRYPT_MODE ? WBCRYPTO_wbsm4_encrypt(in.p(), dst, x) : WBCRYPTO_wbsm4_decrypt(in.p(), dst, x);
            c.eqn(r, 1, "enc-return", "wbsm4_encrypt/decrypt");
            if (memcmp(dst, w.data(), 16) != 0)
                c.eq(dst, w.data(), 16, "wbsm4-value", strf("wbsm4 %s with %d dummy rounds, generation %d, key[%zu]=%s block=%s",
                     mode ? "encryption" : "decryption", dummy, g, kl, hex(k).c_str(), hex(p).c_str()));
            if (!inpl) in.mustBeUnchanged();
            c.observe(hx::hashBytes(w.data(), 16));
        }
        if (img) {
            char *im2 = nullptr;
            if (WBCRYPTO_wbsm4_key2bytes(x, &im2) != 1 || memcmp(img, im2, il) != 0) c.fail("key-context-modified", "running the cipher changed the wbsm4 tables");
            free(im2); free(img);
        }
        c.stat(strf("table sets, %s, %s dummy rounds", mode ? "enc" : "dec", dummy > 8 ? ">8" : std::to_string(dummy).c_str()).c_str());
        if (c.idx % 40 == 1) c.sample(strf("mode %d dummy %d key[%zu]=%s, %d blocks equal to SM4", mode, dummy, kl, hex(k).c_str(), nb));
    }
    WBCRYPTO_wbsm4_context_free(x);
}
