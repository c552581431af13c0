// C06 self-equivalence white-box SM4 (linked only where needed: its tables take long to compile)
#include "lib.h"
extern "C" {
#include <wbcrypto/se_wbsm4.h>
}
using namespace kit;
SCENARIO(sewbsm4_block, "sewbsm4.block") {
    int mode = (int)(c.idx & 1) ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE;
    WBCRYPTO_se_wbsm4_context *x = WBCRYPTO_se_wbsm4_context_init(mode);
    c.check(x != nullptr, "init", "se_wbsm4_context_init returned NULL");
    int gens = c.rng.below(4) ? 1 : 2;
    for (int g = 0; g < gens; g++) {
        size_t kl; Bytes k;
        if (g == 0 && c.idx < 128) { kl = 16; k.assign(16, 0); k[(size_t)c.idx / 8] = (uint8_t)(0x80 >> (c.idx % 8)); }
        else k = hx::keyOf(c.rng, kl);
        ref::Cipher R(true, hx::normKey(k));
        seedLib(c.rng);
        Buf kb(c, "key", k);
        c.eqn(WBCRYPTO_se_wbsm4_gen_table(x, kb.p(), kl), 1, "gen-return", "se_wbsm4_gen_table");
        kb.mustBeUnchanged(); kb.refill(0);
        Bytes snap((uint8_t *)x, (uint8_t *)(x + 1));
        Buf in(c, "block", 16), out(c, "out", 16);
        int nb = hx::isSan() ? 8 : 300;
        for (int b = 0; b < nb; b++) {
            Bytes p = b % 4 ? c.rng.bytes(16) : c.rng.data(16), w(16);
            if (mode == WBCRYPTO_ENCRYPT_MODE) R.enc(p.data(), w.data()); else R.dec(p.data(), w.data());
            in.set(p);
            bool inpl = c.rng.below(4) == 0;
            uint8_t *dst = inpl ? in.p() : out.p();
            int r = mode == WBCRYPTO_ENCRYPT_MODE ? WBCRYPTO_se_wbsm4_encrypt(in.p(), dst, x) : WBCRYPTO_se_wbsm4_decrypt(in.p(), dst, x);
            c.eqn(r, 1, "enc-return", "se_wbsm4_encrypt/decrypt");
            if (memcmp(dst, w.data(), 16) != 0)
                c.eq(dst, w.data(), 16, "sewbsm4-value", strf("se_wbsm4 %s, generation %d, key[%zu]=%s block=%s", mode ? "encryption" : "decryption", g, kl, hex(k).c_str(), hex(p).c_str()));
            if (!inpl) in.mustBeUnchanged();
            c.observe(hx::hashBytes(w.data(), 16));
        }
        if (memcmp(snap.data(), x, sizeof *x) != 0) c.fail("key-context-modified", "running the cipher changed the se_wbsm4 tables");
        c.stat("table sets generated");
        if (c.idx % 40 == 1) c.sample(strf("mode %d key[%zu]=%s", mode, kl, hex(k).c_str()));
    }
    WBCRYPTO_se_wbsm4_context_free(x);
}

// two contexts alive at once, generated for equal or confusable keys, regenerated, freed
SCENARIO(sewbsm4_history, "sewbsm4.history") {
    struct S { WBCRYPTO_se_wbsm4_context *x = nullptr; Bytes k; ref::Cipher r; int mode = 0; } v[2];
    size_t kl; Bytes base = hx::keyOf(c.rng, kl);
    std::string log;
    for (int st = 0; st < 8; st++) {
        int q = (int)c.rng.below(2); S &s = v[q];
        if (s.x && c.rng.below(4) == 0) { WBCRYPTO_se_wbsm4_context_free(s.x); s.x = nullptr; log += strf(" free%d", q); continue; }
        if (!s.x) { s.mode = (int)c.rng.below(2) ? WBCRYPTO_DECRYPT_MODE : WBCRYPTO_ENCRYPT_MODE; s.x = WBCRYPTO_se_wbsm4_context_init(s.mode); c.check(s.x != nullptr, "init", "se_wbsm4_context_init returned NULL"); }
        s.k = hx::relatedKey(c.rng, c.rng.below(2) ? base : v[1 - q].k); s.r = ref::Cipher(true, hx::normKey(s.k));
        if (c.rng.below(4)) seedLib(c.rng);
        Buf kb(c, "key", s.k);
        c.eqn(WBCRYPTO_se_wbsm4_gen_table(s.x, kb.p(), s.k.size()), 1, "gen-return", "se_wbsm4_gen_table");
        kb.mustBeUnchanged(); kb.refill(0);
        log += strf(" gen%d=%s", q, hex(s.k).c_str()); c.stat("table sets generated");
        for (int j = 0; j < 2; j++) if (v[j].x) for (int b = 0; b < 6; b++) {
            Bytes p = c.rng.data(16), w(16), o(16);
            bool e = v[j].mode == WBCRYPTO_ENCRYPT_MODE;
            if (e) v[j].r.enc(p.data(), w.data()); else v[j].r.dec(p.data(), w.data());
            c.eqn(e ? WBCRYPTO_se_wbsm4_encrypt(p.data(), o.data(), v[j].x) : WBCRYPTO_se_wbsm4_decrypt(p.data(), o.data(), v[j].x), 1, "enc-return", "se_wbsm4");
            if (o != w) c.eq(o.data(), w.data(), 16, "history-value", strf("se_wbsm4 %s of context %d (key %s) after:%s", e ? "encrypt" : "decrypt", j, hex(v[j].k).c_str(), log.c_str()));
            c.observe(hx::hashBytes(w.data(), 16));
        }
    }
    for (auto &s : v) if (s.x) WBCRYPTO_se_wbsm4_context_free(s.x);
}
