// C23 (and the FPE properties): the stack a call needs does not grow with the caller's data.
// A database or worker thread has a small stack; a long value must not run over its end.
#include "lib.h"
using namespace kit;

namespace {
const size_t SLACK = 20 << 10;             // what a call may use more on the long input
struct Meas { size_t lo = 0, hi = 0; };
void judge(Case &c, const Meas &m, size_t n, const std::string &what) {
    if (m.hi > m.lo + SLACK) c.fail("stack-growth", "%s: %zu bytes of stack for a value of %zu bytes, %zu for a short one", what.c_str(), m.hi, n, m.lo);
    c.observe(hx::hashBytes(what.data(), what.size(), n)); c.stat("long values measured");
    if (c.idx % 8 == 0) c.sample(what + strf(" of %zu bytes: %zu bytes of stack, %zu for a short value", n, m.hi, m.lo));
}
std::vector<char> z(const std::string &s) { std::vector<char> v(s.begin(), s.end()); v.push_back(0); return v; }
}
// every FPE operation, forth and back
SCENARIO(stack_fpe, "stack.fpe") {
    auto K = make(c, c.idx & 4 ? SM4 : AES, Rng(c.rng.u64()));
    int alg = (int)(c.idx % 4);
    static const char *const nm[] = {"FF1", "FF3", "FF1-CMAC", "FF3-GMAC"};
    unsigned radix = c.rng.below(3) ? 10 : 2 + (unsigned)c.rng.below(35);
    size_t n = (c.thorough ? 60000 : 26000) + c.rng.below(4000);
    Bytes tw = c.rng.data(8);
    for (int dec = 0; dec < 2; dec++) {
        Meas m;
        for (int lg = 0; lg < 2; lg++) {
            WBCRYPTO_fpe_context *x = alg < 2 ? K->fpe((const char *)tw.data(), tw.size(), radix) : nullptr;
            WBCRYPTO_fpe_mac_context *y = alg < 2 ? nullptr : K->fpemac((const char *)tw.data(), tw.size(), radix);
            c.check(x || y, "fpe-init", "fpe_init failed");
            std::vector<char> in = z(digits(c.rng, radix, lg ? n : 24)), out(in.size(), 1);
            int rc = -1;
            size_t u = hx::stackUse([&] {
                switch (alg * 2 + dec) {
                case 0: rc = WBCRYPTO_ff1_encrypt(x, in.data(), out.data()); break;
                case 1: rc = WBCRYPTO_ff1_decrypt(x, in.data(), out.data()); break;
                case 2: rc = WBCRYPTO_ff3_encrypt(x, in.data(), out.data()); break;
                case 3: rc = WBCRYPTO_ff3_decrypt(x, in.data(), out.data()); break;
                case 4: rc = WBCRYPTO_ff1_cmac_encrypt(y, in.data(), out.data()); break;
                case 5: rc = WBCRYPTO_ff1_cmac_decrypt(y, in.data(), out.data()); break;
                case 6: rc = WBCRYPTO_ff3_gmac_encrypt(y, in.data(), out.data()); break;
                case 7: rc = WBCRYPTO_ff3_gmac_decrypt(y, in.data(), out.data()); break;
                }
            });
            (lg ? m.hi : m.lo) = u;
            // FF3 may refuse what is beyond its longest string
            if (rc != 1 && !(rc == 0 && lg && (alg & 1))) c.fail("fpe-return", "%s of %zu digits returned %d", nm[alg], in.size() - 1, rc);
            if (x) WBCRYPTO_fpe_free(x);
            if (y) WBCRYPTO_fpe_mac_free(y);
        }
        judge(c, m, n, strf("%s %s, radix %u", nm[alg], dec ? "decryption" : "encryption", radix));
    }
}
SCENARIO(stack_app, "stack.app") {
    WBCRYPTO_fpe_app_context a;
    uint8_t key[16]; for (auto &b : key) b = (uint8_t)c.rng.u64();
    bool ff3 = c.idx & 1, dec = c.idx & 2; int fn = (int)(c.idx / 4 % 3); bool sm = c.idx / 12 % 2;
    c.check(WBCRYPTO_fpe_app_init(&a, key, 16, (char *)"aes", (char *)(ff3 ? "ff3" : "ff1")) == 1, "app-init", "fpe_app_init failed");
    Meas m;
    size_t n = 0;
    for (int lg = 0; lg < 2; lg++) {
        std::string v, s;
        if (fn < 2) {
            v = digits(c.rng, 10, lg ? (c.thorough ? 50000 : 26000) : 20);
            // most of the value is kept: the kept part is the tweak
            for (size_t i = 0; i < v.size(); i++) s += i % 4 ? '0' : '*';
        } else {
            size_t k = lg ? (c.thorough ? 12000 : 7000) : 5;
            for (size_t i = 0; i < k; i++) { unsigned cp = 0x4E00 + (unsigned)c.rng.below(20736); char b[4] = {(char)(0xe0 | cp >> 12), (char)(0x80 | (cp >> 6 & 63)), (char)(0x80 | (cp & 63)), 0}; v += b; s += i % 4 ? b : "*"; }
        }
        if (!sm) s = "";
        n = v.size();
        std::vector<char> in = z(v), out(in.size(), 0), sa = z(s);
        int rc = -1;
        typedef int (*F)(WBCRYPTO_fpe_app_context *, char *, char *, char *);
        static const F f[6] = {WBCRYPTO_fpe_encrypt_phone_with_sample, WBCRYPTO_fpe_decrypt_phone_with_sample, WBCRYPTO_fpe_encrypt_idcard_with_sample, WBCRYPTO_fpe_decrypt_idcard_with_sample, WBCRYPTO_fpe_encrypt_cn_utf8_with_sample, WBCRYPTO_fpe_decrypt_cn_utf8_with_sample};
        (lg ? m.hi : m.lo) = hx::stackUse([&] { rc = f[fn * 2 + dec](&a, in.data(), out.data(), sa.data()); });
        if (rc != 1 && !(rc == 0 && lg)) c.fail("app-return", "a value of %zu bytes returned %d", v.size(), rc);
    }
    WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)a.cipher_ctx);
    static const char *const fnm[] = {"phone", "idcard", "cn_utf8"};
    judge(c, m, n, strf("%s %s%s, %s", fnm[fn], dec ? "decryption" : "encryption", sm ? " with sample" : "", ff3 ? "FF3" : "FF1"));
}
// the modes of operation
SCENARIO(stack_modes, "stack.modes") {
    auto K = make(c, c.idx & 1 ? SM4 : AES, Rng(c.rng.u64()));
    int op = (int)(c.idx / 2 % 5);
    static const char *const nm[] = {"CBC encryption", "CBC decryption", "GCM", "GCM with a long IV and AAD", "parallel GCM"};
    Meas m; size_t n = 0;
    for (int lg = 0; lg < 2; lg++) {
        n = lg ? (1u << 20) + c.rng.below(100) : 64;
        Bytes in = c.rng.bytes(n), iv = c.rng.bytes(op == 3 ? n : 12), out(n + 16), tag(16);
        uint8_t v16[16] = {0};
        size_t use = 0;
        if (op == 1) { in.resize(n / 16 * 16); Bytes p(in.begin(), in.end() - 1), o(in.size()); uint8_t v[16] = {0}; K->cbcEnc(p.data(), p.size(), o.data(), o.size(), &use, v); in = o; }
        int rc = 1;
        size_t u = hx::stackUse([&] {
            if (op == 0) { rc = K->cbcEnc(in.data(), in.size(), out.data(), out.size(), &use, v16); return; }
            if (op == 1) { rc = K->cbcDec(in.data(), in.size(), out.data(), out.size(), &use, v16); return; }
            WBCRYPTO_gcm_context *g = K->gcm();
            if (!g) { rc = 0; return; }
            rc = WBCRYPTO_gcm_setiv(g, iv.data(), iv.size());
            if (op == 3 && rc == 1) rc = WBCRYPTO_gcm_aad(g, in.data(), in.size());
            if (rc == 1) rc = op == 4 ? WBCRYPTO_gcm_parallel_encrypt(g, in.data(), in.size(), out.data(), out.size()) : WBCRYPTO_gcm_encrypt(g, in.data(), in.size(), out.data(), out.size());
            if (rc == 1) rc = WBCRYPTO_gcm_finish(g, tag.data(), 16);
            WBCRYPTO_gcm_free(g);
        });
        (lg ? m.hi : m.lo) = u;
        if (rc != 1) c.fail("mode-return", "%s of %zu bytes returned %d", nm[op], n, rc);
    }
    judge(c, m, n, nm[op]);
}
