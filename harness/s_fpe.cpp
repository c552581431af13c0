#include <cmath>
#include <algorithm>
// C15 FF1, C16 FF3, C17 FF1-CMAC / FF3-GMAC, C18 phone/ID card, C19 Chinese text
#include "lib.h"
using namespace kit;

static long slotOf(Case &c) { return c.idx / 24; }
static Bytes cstr(const std::string &s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }
static Bytes tweakOf(Case &c, bool ff3) {
    if (c.idx % 61 == 7) return c.rng.data(200 + c.rng.below(500));        // length needs a second byte
    if (c.idx % 997 == 5) return c.rng.data(65530 + c.rng.below(20));
    switch (c.rng.below(6)) {
    case 0: return Bytes();
    case 1: return c.rng.data(c.rng.below(8));
    case 2: return c.rng.data(c.rng.below(2) ? 16 * c.rng.below(5) : c.rng.below(100));
    case 3: return ff3 ? c.rng.data(9 + c.rng.below(30)) : c.rng.data(c.rng.below(40));
    default: return c.rng.data(8);
    }
}
static Bytes tw8(Bytes t) { t.resize(8, 0); return t; }
typedef int (*FpeFn)(WBCRYPTO_fpe_context *, const char *, char *);
typedef int (*MacFn)(WBCRYPTO_fpe_mac_context *, const char *, char *);

// one call on exactly sized strings
template <class F, class X> static int call(Case &c, F f, X *ctx, const std::string &in, std::string &out, const std::string &what, bool wantOk) {
    Buf ib(c, "fpe input", cstr(in)), ob(c, "fpe output", in.size() + 1, 0x5B);
    int rc = f(ctx, ib.c(), ob.c());
    ib.mustBeUnchanged(); ob.canary();
    if (wantOk && rc != 1) c.fail("fpe-return", "%s: returned %d", what.c_str(), rc);
    if (!wantOk && rc != 0) c.fail("fpe-refuse", "%s: returned %d instead of 0", what.c_str(), rc);
    if (rc == 1) {
        if (ob.p()[in.size()] != 0) c.fail("fpe-terminator", "%s: output is not NUL-terminated at its length", what.c_str());
        out.assign(ob.c(), in.size());
    } else if (!ob.unchanged()) c.fail("refused-write", "%s: refused call wrote output", what.c_str());
    return rc;
}
static size_t ffLen(Case &c, bool ff3, unsigned radix) {
    size_t mx = ff3 ? ref::ff3max(radix) : 70;
    if (!ff3 && c.idx % 31 == 30) return 71 + c.rng.below(500);
    size_t n;
    switch (c.rng.below(5)) {
    case 0: n = 2 + c.rng.below(4); break;
    case 1: n = mx - c.rng.below(3); break;
    case 2: n = 6 + c.rng.below(20); break;
    default: n = 2 + c.rng.below(mx - 1);
    }
    return n > mx ? mx : n < 2 ? 2 : n;
}
static void ffx(Case &c, bool ff3) {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    unsigned radix = c.idx < 70 ? 2 + (unsigned)c.idx % 35 : c.rng.below(3) ? 2 + (unsigned)c.rng.below(35) : 10;
    Bytes tw = tweakOf(c, ff3);
    Buf tb(c, "tweak", tw);
    WBCRYPTO_fpe_context *x = K.fpe(tw.empty() && c.rng.below(2) ? nullptr : (const char *)tb.p(), tw.size(), radix);
    if (!x) c.fail("fpe-init", "fpe_init refused radix %u", radix);
    tb.mustBeUnchanged();
    tb.refill(0x3C);                        // the context owns a copy of the tweak
    const char *nm = ff3 ? "FF3" : "FF1";
    FpeFn enc = ff3 ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff1_encrypt, dec = ff3 ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff1_decrypt;
    int rounds = 2 + (int)c.rng.below(4);
    for (int i = 0; i < rounds; i++) {
        size_t n = ffLen(c, ff3, radix);
        std::string m = digits(c.rng, radix, n), w = ff3 ? ref::ff3(K.r, tw8(tw), radix, m) : ref::ff1(K.r, tw, radix, m), g, b;
        std::string what = strf("%s-%s radix %u, %zu digits, tweak %zu bytes", kname[kd], nm, radix, n, tw.size());
        call(c, enc, x, m, g, what + " encrypt " + m.substr(0, 60), true);
        c.eq(g.data(), w.data(), n, "fpe-value", what + ": encrypt " + m.substr(0, 80) + " -> " + g.substr(0, 80) + " want " + w.substr(0, 80));
        call(c, dec, x, w, b, what + " decrypt", true);
        c.eq(b.data(), m.data(), n, "fpe-inverse", what + ": decrypt");
        // decryption of an arbitrary string, too
        std::string a = digits(c.rng, radix, n), d = ff3 ? ref::ff3(K.r, tw8(tw), radix, a, true) : ref::ff1(K.r, tw, radix, a, true);
        call(c, dec, x, a, b, what + " decrypt", true);
        c.eq(b.data(), d.data(), n, "fpe-value", what + ": decrypt of an arbitrary string");
        c.observe(hx::hashBytes(w.data(), n, hx::mix(radix + n * 64)));
        if (c.idx % 90 == 44) c.sample(what + ": " + m.substr(0, 50) + " -> " + w.substr(0, 50));
        if (c.rng.below(3) == 0) {          // refused inputs, then the context must still work
            std::string bad = m;
            size_t at = c.rng.below(n);
            unsigned pick = (unsigned)c.rng.below(6);
            char ch = pick == 0 && radix < 36 ? (radix < 10 ? '0' + radix : 'a' + radix - 10) : pick == 1 ? (char)('A' + c.rng.below(26)) : pick == 2 ? (char)(0x80 + c.rng.below(128)) : pick == 3 ? "/:`{"[c.rng.below(4)] : pick == 4 ? (char)(1 + c.rng.below(47)) : '-';
            bad[at] = ch;
            std::string o;
            call(c, c.rng.below(2) ? enc : dec, x, bad, o, what + strf(" with character 0x%02x", (uint8_t)ch), false);
            if (!ff3) call(c, c.rng.below(2) ? enc : dec, x, m.substr(0, c.rng.below(2)), o, what + " of a too short string", false);
            else call(c, c.rng.below(2) ? enc : dec, x, "", o, what + " of an empty string", false);
            c.stat("refusals observed");
        }
    }
    WBCRYPTO_fpe_free(x);
    static const unsigned badr[] = {0, 1, 37, 38, 62, 64, 256, 65536, 0x80000000u, 0xffffffffu};
    unsigned br = badr[c.rng.below(10)];
    if (WBCRYPTO_fpe_context *y = K.fpe((const char *)tb.p(), tw.size(), br)) { WBCRYPTO_fpe_free(y); c.fail("fpe-radix", "radix %u was accepted", br); }
    if (c.idx % 8 == 0) K.unchanged(c);
    c.stat(strf("contexts %s", kname[kd]).c_str());
}
SCENARIO(fpe_ff1, "fpe.ff1") { ffx(c, false); }
SCENARIO(fpe_ff3, "fpe.ff3") { ffx(c, true); }

// whole small domains: encryption is a permutation and decryption its inverse
static void bijection(Case &c, bool ff3) {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    unsigned radix; size_t n, N;
    do {
        radix = 2 + (unsigned)(c.rng.below(3) ? c.rng.below(9) : c.rng.below(35)); n = 2 + c.rng.below(9);
        double d = pow(radix, (double)n); N = d < 2000 ? (size_t)(d + 0.5) : 0;
    } while (!N);
    Bytes tw = tweakOf(c, ff3);
    Buf tb(c, "tweak", tw);
    WBCRYPTO_fpe_context *x = K.fpe((const char *)tb.p(), tw.size(), radix);
    c.check(x != nullptr, "fpe-init", "fpe_init failed");
    FpeFn enc = ff3 ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff1_encrypt, dec = ff3 ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff1_decrypt;
    std::vector<char> seen(N);
    std::vector<char> in(n + 1), out(n + 1), back(n + 1);
    for (size_t v = 0; v < N; v++) {
        size_t q = v;
        for (size_t i = n; i-- > 0;) { unsigned d = q % radix; q /= radix; in[i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); }
        if (enc(x, in.data(), out.data()) != 1 || dec(x, out.data(), back.data()) != 1) c.fail("fpe-return", "radix %u: %s refused", radix, in.data());
        size_t r = 0; bool ok = strlen(out.data()) == n;
        for (size_t i = 0; i < n && ok; i++) { int d = out[i] >= '0' && out[i] <= '9' ? out[i] - '0' : out[i] >= 'a' && out[i] <= 'z' ? out[i] - 'a' + 10 : 99; if ((unsigned)d >= radix) ok = false; else r = r * radix + (size_t)d; }
        if (!ok) c.fail("fpe-alphabet", "radix %u: %s encrypts to '%s'", radix, in.data(), out.data());
        if (seen[r]++) c.fail("fpe-not-bijective", "radix %u, %zu digits: '%s' is the image of two strings", radix, n, out.data());
        if (strcmp(back.data(), in.data())) c.fail("fpe-inverse", "radix %u: %s -> %s -> %s", radix, in.data(), out.data(), back.data());
    }
    WBCRYPTO_fpe_free(x);
    c.stat("strings enumerated", (long)N); c.stat("whole domains");
    c.observe(hx::hashBytes(tw.data(), tw.size(), hx::mix(radix * 100 + n)));
    if (c.idx % 20 == 7) c.sample(strf("%s-%s: all %zu strings of %zu radix-%u digits permuted", kname[kd], ff3 ? "FF3" : "FF1", N, n, radix));
}
SCENARIO(fpe_bij1, "fpe.ff1domain") { bijection(c, false); }
SCENARIO(fpe_bij3, "fpe.ff3domain") { bijection(c, true); }

// ------------------------------------------------------------------ C17
struct MacRes { std::string out; Bytes tag; };
static MacRes macRun(Case &c, const Key &K, bool ff3, bool dec, WBCRYPTO_fpe_mac_context *x, const std::string &m, const std::string &what) {
    MacRes r;
    MacFn f = ff3 ? (dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt) : (dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt);
    call(c, f, x, m, r.out, what, true);
    Buf t(c, "tag", 16, 0x99);
    size_t len = 777;
    int rc = ff3 ? WBCRYPTO_ff3_gmac_finish(x, t.c(), &len) : WBCRYPTO_ff1_cmac_finish(x, t.c(), &len);
    c.eqn(rc, 1, "mac-finish", what + ": finish");
    c.eqn((long long)len, 16, "mac-length", what + ": tag length");
    t.canary();
    r.tag = t.bytes();
    return r;
}
static void fpemac(Case &c, bool ff3) {
    Kind kd = pickKind(c);
    const Key &K = key(c, kd, slotOf(c));
    unsigned radix = c.idx < 70 ? 2 + (unsigned)c.idx % 35 : 2 + (unsigned)c.rng.below(35);
    Bytes tw = tweakOf(c, ff3);
    size_t n = ffLen(c, ff3, radix);
    std::string m = digits(c.rng, radix, n), w = ff3 ? ref::ff3(K.r, tw8(tw), radix, m) : ref::ff1(K.r, tw, radix, m);
    std::string what = strf("%s %s radix %u, %zu digits, tweak %zu bytes", kname[kd], ff3 ? "FF3-GMAC" : "FF1-CMAC", radix, n, tw.size());
    auto open = [&](const Key &k, const Bytes &t) {
        Buf tb(c, "tweak", t);
        WBCRYPTO_fpe_mac_context *x = k.fpemac((const char *)tb.p(), t.size(), radix);
        if (!x) c.fail("fpe-init", "fpe_mac_init refused radix %u", radix);
        return x;
    };
    WBCRYPTO_fpe_mac_context *x = open(K, tw);
    MacRes e = macRun(c, K, ff3, false, x, m, what);
    c.eq(e.out.data(), w.data(), n, "fpe-value", what + ": encrypt");
    MacRes d = macRun(c, K, ff3, true, x, w, what);
    c.eq(d.out.data(), m.data(), n, "fpe-inverse", what + ": decrypt");
    c.eq(d.tag.data(), e.tag.data(), 16, "mac-agree", what + ": tag after decrypting");
    // other use in between, another context, another repetition: the tag is a function of key, tweak and data
    for (int i = 0; i < 2; i++) macRun(c, K, ff3, c.rng.below(2), x, digits(c.rng, radix, ffLen(c, ff3, radix)), what);
    MacRes e2 = macRun(c, K, ff3, false, x, m, what);
    if (e2.tag != e.tag) c.fail("mac-history", "%s: the tag depends on earlier use of the context", what.c_str());
    WBCRYPTO_fpe_mac_context *y = open(K, tw);
    MacRes d2 = macRun(c, K, ff3, true, y, w, what);
    if (d2.tag != e.tag) c.fail("mac-agree", "%s: a fresh receiver context computes another tag", what.c_str());
    c.observe(hx::hashBytes(e.tag.data(), 16, n));
    // the stored tag survives a refused call or is recomputed identically
    std::string o; call(c, ff3 ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff1_cmac_encrypt, y, m.substr(0, n - 1) + "!", o, what + " with a bad character", false);
    // sensitivity
    std::string m2 = m; size_t at = c.rng.below(n); char rep;
    do { rep = digits(c.rng, radix, 1)[0]; } while (rep == m[at] && c.rng.below(1000));
    m2[at] = rep;
    if (m2 != m) {
        MacRes q = macRun(c, K, ff3, false, y, m2, what);
        if (q.tag == e.tag) c.fail("mac-insensitive", "%s: plaintexts %s and %s have the same tag", what.c_str(), m.substr(0, 60).c_str(), m2.substr(0, 60).c_str());
        std::string w2 = w; char r2; size_t p2 = c.rng.below(n);
        do { r2 = digits(c.rng, radix, 1)[0]; } while (r2 == w[p2] && c.rng.below(1000));
        w2[p2] = r2;
        if (w2 != w) { MacRes z = macRun(c, K, ff3, true, y, w2, what); if (z.tag == e.tag) c.fail("mac-insensitive", "%s: a changed ciphertext gives the same tag", what.c_str()); }
    }
    Bytes t2 = tw; if (t2.size() < 8) t2.resize(8, 0); t2[c.rng.below(8)] ^= (uint8_t)(1u << c.rng.below(8));
    WBCRYPTO_fpe_mac_context *z = open(K, t2);
    MacRes q = macRun(c, K, ff3, false, z, m, what);
    if (q.tag == e.tag) c.fail("mac-insensitive", "%s: another tweak gives the same tag", what.c_str());
    std::unique_ptr<Key> K2 = make(c, K.kind == SM4 || K.kind == WBSM4 ? SM4 : AES, Rng(c.rng.u64()));
    if (K2->norm != K.norm) {
        WBCRYPTO_fpe_mac_context *v = open(*K2, tw);
        MacRes s = macRun(c, *K2, ff3, false, v, m, what);
        if (s.tag == e.tag) c.fail("mac-insensitive", "%s: another key gives the same tag", what.c_str());
        WBCRYPTO_fpe_mac_free(v);
    }
    // cipher implementation does not matter: plain and white-box give the same tag
    if (kd == WBAES || kd == WBSM4) {
        WBCRYPTO_fpe_mac_context *v = nullptr;
        WBCRYPTO_aes_context *a = nullptr; WBCRYPTO_sm4_context *s = nullptr;
        if (kd == WBAES) { a = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(a, K.norm.data(), 16); v = WBCRYPTO_aes_fpe_mac_init(a, (const char *)tw.data(), tw.size(), radix); }
        else { s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, K.norm.data(), 16); v = WBCRYPTO_sm4_fpe_mac_init(s, (const char *)tw.data(), tw.size(), radix); }
        MacRes t = macRun(c, K, ff3, false, v, m, what);
        if (t.tag != e.tag) c.fail("mac-cipher", "%s: tag differs from the one of the plain cipher", what.c_str());
        WBCRYPTO_fpe_mac_free(v);
        if (a) WBCRYPTO_aes_context_free(a);
        if (s) WBCRYPTO_sm4_context_free(s);
    }
    WBCRYPTO_fpe_mac_free(x); WBCRYPTO_fpe_mac_free(y); WBCRYPTO_fpe_mac_free(z);
    unsigned br = c.rng.below(2) ? (unsigned)c.rng.below(2) : 37 + (unsigned)c.rng.below(300);
    if (WBCRYPTO_fpe_mac_context *b = K.fpemac((const char *)tw.data(), tw.size(), br)) { WBCRYPTO_fpe_mac_free(b); c.fail("fpe-radix", "radix %u was accepted", br); }
    c.stat("tags compared", 8);
    if (c.idx % 70 == 9) c.sample(what + ": tag " + hex(e.tag));
}
SCENARIO(fpe_cmac, "fpe.cmac") { fpemac(c, false); }
SCENARIO(fpe_gmac, "fpe.gmac") { fpemac(c, true); }

// Several contexts (FF1, FF3, with and without MAC; own radix, tweak, key) used in turn,
// tags fetched late: each must behave as if it were alone.
SCENARIO(fpe_interleave, "fpe.interleave") {
    struct S { const Key *K; unsigned radix; Bytes tw; bool mac; WBCRYPTO_fpe_context *x = nullptr; WBCRYPTO_fpe_mac_context *y = nullptr; bool ff3last = false; Bytes tag; bool pending = false; };
    std::vector<std::unique_ptr<Key>> own;
    for (int i = 0; i < 2; i++) own.push_back(make(c, c.rng.below(2) ? AES : SM4, Rng(c.rng.u64())));
    std::vector<S> v(2 + c.rng.below(3));
    Bytes tw0 = tweakOf(c, false);
    auto open = [&](S &s) {
        Buf tb(c, "tweak", s.tw);
        if (s.mac) s.y = s.K->fpemac((const char *)tb.p(), s.tw.size(), s.radix); else s.x = s.K->fpe((const char *)tb.p(), s.tw.size(), s.radix);
        if (!s.x && !s.y) c.fail("fpe-init", "fpe_init refused radix %u", s.radix);
        tb.refill(0x3C);
    };
    auto shut = [&](S &s) { if (s.x) WBCRYPTO_fpe_free(s.x); if (s.y) WBCRYPTO_fpe_mac_free(s.y); s.x = nullptr; s.y = nullptr; s.pending = false; };
    auto fresh = [&](S &s) { s.K = own[c.rng.below(own.size())].get(); s.radix = 2 + (unsigned)c.rng.below(35); s.tw = c.rng.below(2) ? tw0 : tweakOf(c, c.rng.below(2)); s.mac = c.rng.below(2); open(s); };
    for (auto &s : v) fresh(s);
    uint64_t order = 0; std::string log;
    for (int st = 0; st < 14; st++) {
        size_t q = c.rng.below(v.size()); S &s = v[q];
        order = hx::mix(order * 16 + q);
        if (c.rng.below(8) == 0) { shut(s); fresh(s); log += strf(" reopen%zu", q); continue; }
        if (s.pending && c.rng.below(2)) {
            Buf t(c, "tag", 16); size_t len = 0;
            c.eqn(s.ff3last ? WBCRYPTO_ff3_gmac_finish(s.y, t.c(), &len) : WBCRYPTO_ff1_cmac_finish(s.y, t.c(), &len), 1, "mac-finish", "finish");
            c.eq(t.p(), s.tag.data(), 16, "mac-interleaved", "tag fetched after other contexts were used:" + log);
            s.pending = false; log += strf(" finish%zu", q); c.observe(hx::hashBytes(t.p(), 16, order)); continue;
        }
        bool ff3 = c.rng.below(2), dec = c.rng.below(2);
        size_t n = ffLen(c, ff3, s.radix); if (n > 80) n = 80;
        std::string m = digits(c.rng, s.radix, n), w = ff3 ? ref::ff3(s.K->r, tw8(s.tw), s.radix, m, dec) : ref::ff1(s.K->r, s.tw, s.radix, m, dec), g;
        log += strf(" %s%s%zu(r%u)", ff3 ? "ff3" : "ff1", dec ? "d" : "e", q, s.radix);
        if (!s.mac) call(c, ff3 ? (dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt) : (dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt), s.x, m, g, log, true);
        else {
            S solo = s; solo.x = nullptr; solo.y = nullptr; open(solo);
            MacRes r = macRun(c, *s.K, ff3, dec, solo.y, m, log);
            shut(solo);
            call(c, ff3 ? (dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt) : (dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt), s.y, m, g, log, true);
            s.tag = r.tag; s.pending = true; s.ff3last = ff3;
        }
        c.eq(g.data(), w.data(), n, "fpe-interleaved", "context used in turn with others:" + log);
        c.observe(hx::hashBytes(w.data(), n, order)); c.stat("interleaved operations");
    }
    for (auto &s : v) shut(s);
    if (c.idx % 90 == 11) c.sample(log.substr(0, 300));
}

// strings so long that their lengths need a third byte in the FF1 round input
static void ff1big(Case &c, unsigned radix, size_t n, const Bytes &tw, bool mac) {
    auto K = make(c, c.idx % 2 ? SM4 : AES, Rng(c.rng.u64()));
    std::string m = digits(c.rng, radix, n), w = ref::ff1(K->r, tw, radix, m), g, b, what = strf("%s radix %u, %zu digits, tweak %zu bytes", mac ? "FF1-CMAC" : "FF1", radix, n, tw.size());
    if (mac) {
        WBCRYPTO_fpe_mac_context *x = K->fpemac((const char *)tw.data(), tw.size(), radix);
        c.check(x != nullptr, "fpe-init", "fpe_mac_init failed");
        MacRes e = macRun(c, *K, false, false, x, m, what), d = macRun(c, *K, false, true, x, w, what);
        g = e.out; b = d.out;
        if (e.tag != d.tag) c.fail("mac-agree", "%s: tag after decrypting", what.c_str());
        WBCRYPTO_fpe_mac_free(x);
    } else {
        WBCRYPTO_fpe_context *x = K->fpe((const char *)tw.data(), tw.size(), radix);
        c.check(x != nullptr, "fpe-init", "fpe_init failed");
        call(c, WBCRYPTO_ff1_encrypt, x, m, g, what, true);
        call(c, WBCRYPTO_ff1_decrypt, x, w, b, what, true);
        WBCRYPTO_fpe_free(x);
    }
    if (g != w) c.fail("fpe-value", "%s: encryption differs from SP 800-38G", what.c_str());
    if (b != m) c.fail("fpe-inverse", "%s: decryption does not invert", what.c_str());
    c.observe(hx::hashBytes(w.data(), n)); if (c.idx < 3) c.sample(what);
}
static void ff1long(Case &c, bool mac) {
    unsigned radix = c.idx == 0 ? 10 : c.idx == 1 ? 2 : 2 + (unsigned)c.rng.below(35);
    size_t n = c.idx == 0 ? 65536 + c.rng.below(100) : c.idx == 1 ? 131072 + c.rng.below(100) : 600 + c.rng.below(c.thorough ? 140000 : 8000);
    ff1big(c, radix, n, c.rng.data(c.rng.below(40)), mac);
}
SCENARIO(fpe_ff1long, "fpe.ff1long") { ff1long(c, false); }
SCENARIO(fpe_cmaclong, "fpe.cmaclong") { ff1long(c, true); }
// lengths at which radix^v lies closest to a whole number of bytes (rounding in b = ceil(ceil(v log2 radix) / 8))
static void ff1edge(Case &c, bool mac) {
    struct E { double d; unsigned radix, v; };
    static std::vector<E> es[2];
    if (es[0].empty()) {
        for (unsigned radix = 3; radix <= 36; radix++)
            for (unsigned v = 3; v <= 6000; v++) {
                if (!(radix & (radix - 1))) continue;
                long double x = v * log2l(radix) / 8, d = x - roundl(x);
                es[d < 0].push_back({(double)(fabsl(d) / v), radix, v});
            }
        for (auto &e : es) std::sort(e.begin(), e.end(), [](const E &a, const E &b) { return a.d < b.d; });
    }
    const E &e = es[c.idx % 2][(size_t)(c.idx / 4)];
    ff1big(c, e.radix, 2 * e.v - (c.idx / 2) % 2, c.rng.data(c.rng.below(40)), mac);
}
SCENARIO(fpe_ff1edge, "fpe.ff1edge") { ff1edge(c, false); }
SCENARIO(fpe_cmacedge, "fpe.cmacedge") { ff1edge(c, true); }
// tweaks of thousands of bytes, both sides of the length bytes of the P block
static void ff1tweak(Case &c, bool mac) {
    static const size_t L[] = {255, 256, 257, 4095, 65535, 65536, 65537, 131073, (1 << 20) - 3, (1 << 24) + 5};
    size_t tl = c.idx % 12 < 10 ? L[c.idx % 12] : 200 + c.rng.below(20000);
    ff1big(c, 2 + (unsigned)c.rng.below(35), 8 + c.rng.below(30), c.rng.data(tl), mac);
}
SCENARIO(fpe_ff1tweak, "fpe.ff1tweak") { ff1tweak(c, false); }
SCENARIO(fpe_cmactweak, "fpe.cmactweak") { ff1tweak(c, true); }

// ------------------------------------------------------------------ application layer
static const char *const cnames[] = {"aes", "sm4", "wbaes", "wbsm4", "unknown-cipher"};
static const char *const fnames[] = {"ff1", "ff3", "ff2"};
struct App {
    WBCRYPTO_fpe_app_context a; ref::Cipher r; Bytes norm; std::string cipher, ffx; bool ff3;
    ~App() {
        if (!a.cipher_ctx) return;
        if (cipher == "sm4") WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)a.cipher_ctx);
        else if (cipher == "wbsm4") WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)a.cipher_ctx);
        else if (cipher == "wbaes") WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)a.cipher_ctx);
        else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)a.cipher_ctx);
    }
    std::string e(const Bytes &tw, unsigned radix, const std::string &x, bool dec) const { return ff3 ? ref::ff3(r, tw8(tw), radix, x, dec) : ref::ff1(r, tw, radix, x, dec); }
};
// white-box application contexts are kept for a few cases (their keying is slow)
static App &app(Case &c) {
    static App pool[15]; static long slot[15]; static uint64_t sd[15]; static bool init = false;
    if (!init) { memset(slot, -1, sizeof slot); for (auto &p : pool) p.a.cipher_ctx = nullptr; init = true; }
    int ci = (int)c.rng.below(16); ci = ci < 5 ? 0 : ci < 10 ? 1 : ci < 12 ? 2 : ci < 14 ? 3 : 4;
    int fi = (int)c.rng.below(5); fi = fi < 2 ? 0 : fi < 4 ? 1 : 2;
    int k = ci * 3 + fi;
    bool wb = ci == 2 || ci == 3;
    long sl = c.idx / 48;
    if (wb && slot[k] == sl && sd[k] == c.seed) return pool[k];
    App &p = pool[k];
    p.~App(); new (&p) App();
    Rng r(wb ? hx::mix(c.seed * 31337 + (uint64_t)sl * 16 + (uint64_t)k) : c.rng.u64());
    size_t kl; Bytes key = hx::keyOf(r, kl);
    p.norm = hx::normKey(key); p.cipher = cnames[ci]; p.ffx = fnames[fi]; p.ff3 = fi != 0;
    p.r = ref::Cipher(ci == 1 || ci == 3, p.norm);
    memset(&p.a, 0xEE, sizeof p.a);
    Buf kb(c, "key", key);
    seedLib(r);
    slot[k] = -1;
    int rc = WBCRYPTO_fpe_app_init(&p.a, kb.p(), kl, (char *)cnames[ci], (char *)fnames[fi]);
    if (rc != 1) { p.a.cipher_ctx = nullptr; c.fail("app-init", "fpe_app_init(%s,%s) returned %d", cnames[ci], fnames[fi], rc); }
    kb.mustBeUnchanged();
    slot[k] = sl; sd[k] = c.seed;
    return p;
}
typedef int (*App3)(WBCRYPTO_fpe_app_context *, char *, char *);
typedef int (*App4)(WBCRYPTO_fpe_app_context *, char *, char *, char *);
struct AppFns { const char *nm; App3 e, d; App4 es, ds; };
static const AppFns fnPhone = {"phone", WBCRYPTO_fpe_encrypt_phone, WBCRYPTO_fpe_decrypt_phone, WBCRYPTO_fpe_encrypt_phone_with_sample, WBCRYPTO_fpe_decrypt_phone_with_sample};
static const AppFns fnId = {"idcard", WBCRYPTO_fpe_encrypt_idcard, WBCRYPTO_fpe_decrypt_idcard, WBCRYPTO_fpe_encrypt_idcard_with_sample, WBCRYPTO_fpe_decrypt_idcard_with_sample};
static const AppFns fnCn = {"cn_utf8", WBCRYPTO_fpe_encrypt_cn_utf8, WBCRYPTO_fpe_decrypt_cn_utf8, WBCRYPTO_fpe_encrypt_cn_utf8_with_sample, WBCRYPTO_fpe_decrypt_cn_utf8_with_sample};

static int appCall(Case &c, App &A, const AppFns &F, bool dec, const std::string &v, const std::string *sample, std::string &out, const std::string &what) {
    Buf vb(c, "value", cstr(v)), sb(c, "sample", cstr(sample ? *sample : "")), ob(c, "app output", v.size() + 1, 0x5B);
    int rc = sample ? (dec ? F.ds : F.es)(&A.a, vb.c(), ob.c(), sb.c()) : (dec ? F.d : F.e)(&A.a, vb.c(), ob.c());
    vb.mustBeUnchanged(); sb.mustBeUnchanged(); ob.canary();
    if (rc != 0 && rc != 1) c.fail("app-return", "%s returned %d", what.c_str(), rc);
    if (rc == 0 && !ob.unchanged()) c.fail("refused-write", "%s: refused call wrote output", what.c_str());
    if (rc == 1 && ob.p()[v.size()] != 0x5B && ob.p()[v.size()] != 0) c.fail("write-beyond-declared", "%s: wrote behind the value", what.c_str());
    out.assign(ob.c(), v.size());
    return rc;
}
// digits: oracle of the documented construction
static bool digitModel(App &A, bool id, const std::string &v, const std::string *sample, bool dec, std::string &out) {
    bool hasS = sample && !sample->empty();
    if (hasS && sample->size() != v.size()) return false;
    size_t len = v.size();
    if (id && len && v[len - 1] == 'X') len--;
    std::string in, tw;
    for (size_t i = 0; i < len; i++) if (hasS && (*sample)[i] != '*') tw += v[i]; else in += v[i];
    for (char ch : in) if (ch < '0' || ch > '9') return false;
    if (in.size() < (A.ff3 ? 1u : 2u)) return false;
    std::string r = A.e(cstr(tw), 10, in, dec);
    out = v;
    size_t j = 0;
    for (size_t i = 0; i < len; i++) if (!(hasS && (*sample)[i] != '*')) out[i] = r[j++];
    return true;
}
// what a sample may show at a kept position: a digit or any other character except '*'
static char keptChar(Rng &r) { if (r.below(2)) return (char)('0' + r.below(10)); char k; do k = (char)(1 + r.below(255)); while (k == '*'); return k; }
static void digitsCase(Case &c, bool id) {
    App &A = app(c);
    const AppFns &F = id ? fnId : fnPhone;
    for (int rep = 0; rep < 4; rep++) {
        size_t n = c.rng.below(3) ? (id ? 18 : 11) : !A.ff3 && c.rng.below(40) == 0 ? 200 + c.rng.below(1800) : 2 + c.rng.below(A.ff3 ? 54 : 80);
        std::string v = digits(c.rng, 10, n);
        if (id && c.rng.below(3) == 0) v[n - 1] = 'X';
        if (id && n == 2 && v[1] == 'X') v = "6" + v;
        n = v.size();
        std::string sample; bool useS = c.rng.below(3) != 0;
        if (useS) {
            int shape = (int)c.rng.below(5);
            for (size_t i = 0; i < n; i++) {
                bool star = shape == 0 ? true : shape == 1 ? (i >= 3 && i < n - 4 + (n < 9 ? 4 : 0)) : shape == 2 ? c.rng.below(2) : shape == 3 ? i < n / 2 : c.rng.below(4) != 0;
                sample += star ? '*' : c.rng.below(2) ? v[i] : keptChar(c.rng);
            }
        }
        std::string what = strf("%s/%s %s '%s' sample '%s'", A.cipher.c_str(), A.ffx.c_str(), F.nm, v.c_str(), useS ? sample.c_str() : "(none)"), w, g, b;
        size_t free_ = 0, dig = n - (id && v[n - 1] == 'X');
        for (size_t i = 0; i < dig; i++) free_ += !useS || sample[i] == '*';
        if (A.ff3 && free_ == 1) continue;                      // one free digit under FF3: outside SP 800-38G
        if (A.ff3 && free_ > ref::ff3max(10)) continue;
        bool ok = digitModel(A, id, v, useS ? &sample : nullptr, false, w);
        int rc = appCall(c, A, F, false, v, useS ? &sample : nullptr, g, what + " encrypt");
        c.eqn(rc, ok, "app-return", what + ": encrypt");
        c.observe(hx::hashBytes(v.data(), n, hx::hashBytes(sample.data(), sample.size(), hx::hashBytes(A.norm.data(), 16))), ok);
        if (!ok) { c.stat("refusals observed"); continue; }
        for (size_t i = 0; i < n; i++) {
            if (i < dig && (g[i] < '0' || g[i] > '9')) c.fail("app-format", "%s -> '%s': not a digit at %zu", what.c_str(), g.c_str(), i);
            if ((i >= dig || (useS && sample[i] != '*')) && g[i] != v[i]) c.fail("app-sample", "%s -> '%s': position %zu must be kept", what.c_str(), g.c_str(), i);
        }
        c.eq(g.data(), w.data(), n, "app-value", what + " -> '" + g + "' want '" + w + "'");
        rc = appCall(c, A, F, true, g, useS ? &sample : nullptr, b, what + " decrypt");
        c.eqn(rc, 1, "app-return", what + ": decrypt");
        c.eq(b.data(), v.data(), n, "app-inverse", what + " -> '" + g + "' -> '" + b + "'");
        if (useS && free_ == dig) {                              // an all-'*' sample is like no sample
            std::string h; appCall(c, A, F, false, v, nullptr, h, what);
            if (h != g) c.fail("app-value", "%s: an all-star sample changes the result", what.c_str());
        }
        if (c.idx % 60 == 7) c.sample(what + " -> '" + g + "'");
        // refusals
        std::string bad = v, o; const std::string *bs = useS ? &sample : nullptr; std::string s2;
        int kind = (int)c.rng.below(4);
        if (kind == 0 && free_) { size_t at; do at = c.rng.below(dig); while (useS && sample[at] != '*'); bad[at] = "ax- /:X"[c.rng.below(7)]; if (id && at == n - 1 && bad[at] == 'X') bad[at] = 'x'; }
        else if (kind == 1) { s2 = std::string(n + (c.rng.below(2) ? 1 : -1), '*'); bs = &s2; }
        else if (kind == 2) { s2 = v; if (id) {} bs = &s2; }      // nothing free
        else { bad = ""; bs = nullptr; }
        std::string dummy; bool dec = c.rng.below(2);
        if (!digitModel(A, id, bad, bs, dec, dummy)) {
            rc = appCall(c, A, F, dec, bad, bs, o, strf("%s with value '%s' sample '%s'", F.nm, bad.c_str(), bs ? bs->c_str() : ""));
            c.eqn(rc, 0, "app-refuse", strf("%s/%s %s of '%s' with sample '%s'", A.cipher.c_str(), A.ffx.c_str(), F.nm, bad.c_str(), bs ? bs->c_str() : "(none)"));
            c.stat("refusals observed");
        }
    }
    c.stat(("contexts " + A.cipher + "/" + A.ffx).c_str());
}
SCENARIO(app_phone, "app.phone") { digitsCase(c, false); }
SCENARIO(app_idcard, "app.idcard") { digitsCase(c, true); }

static std::string u8(unsigned cp) { char b[4] = {(char)(0xe0 | cp >> 12), (char)(0x80 | (cp >> 6 & 63)), (char)(0x80 | (cp & 63)), 0}; return b; }
static unsigned cpOf(const std::string &s, size_t i) { return ((unsigned)(uint8_t)s[3 * i] & 15) << 12 | ((unsigned)(uint8_t)s[3 * i + 1] & 63) << 6 | ((unsigned)(uint8_t)s[3 * i + 2] & 63); }
static std::string duo(unsigned cp) { unsigned v = cp - 0x4E00; std::string s; for (int i = 0; i < 4; i++) { unsigned d = v % 12; v /= 12; s += (char)(d < 10 ? '0' + d : 'a' + d - 10); } return s; }
SCENARIO(app_cn, "app.cn") {
    App &A = app(c);
    for (int rep = 0; rep < 3; rep++) {
        size_t mx = A.ff3 ? ref::ff3max(12) / 4 : 40;
        size_t n = c.rng.below(3) ? 1 + c.rng.below(5) : !A.ff3 && c.rng.below(40) == 0 ? 60 + c.rng.below(1500) : 1 + c.rng.below(mx);
        std::string v, sample, in, tw; std::vector<bool> fr(n, true);
        bool useS = c.rng.below(2); unsigned keep = n < 60 ? 3 : 1 + (unsigned)c.rng.below(6);
        std::vector<unsigned> cps(n);
        for (size_t i = 0; i < n; i++) {
            unsigned cp = c.rng.below(8) == 0 ? (c.rng.below(2) ? 0x4E00 + (unsigned)c.rng.below(3) : 0x9EFF - (unsigned)c.rng.below(3)) : 0x4E00 + (unsigned)c.rng.below(20736);
            cps[i] = cp; v += u8(cp);
            if (useS) { fr[i] = c.rng.below(keep) != 0; sample += fr[i] ? "*" : c.rng.below(2) ? u8(cp) : c.rng.below(3) ? u8(0x4E00 + (unsigned)c.rng.below(20000)) : u8(0x3000 + (unsigned)c.rng.below(64)); }
            (fr[i] ? in : tw) += duo(cp);
        }
        std::string what = strf("%s/%s cn '%s' sample '%s'", A.cipher.c_str(), A.ffx.c_str(), v.c_str(), useS ? sample.c_str() : "(none)"), g, b;
        bool ok = !in.empty();
        int rc = appCall(c, A, fnCn, false, v, useS ? &sample : nullptr, g, what + " encrypt");
        c.eqn(rc, ok, "app-return", what + ": encrypt");
        c.observe(hx::hashBytes(v.data(), v.size(), hx::hashBytes(sample.data(), sample.size(), hx::hashBytes(A.norm.data(), 16))), ok);
        if (!ok) { c.stat("refusals observed"); continue; }
        std::string e = A.e(cstr(tw), 12, in, false);
        size_t j = 0;
        for (size_t i = 0; i < n; i++) {
            if (((uint8_t)g[3 * i] & 0xf0) != 0xe0 || ((uint8_t)g[3 * i + 1] & 0xc0) != 0x80 || ((uint8_t)g[3 * i + 2] & 0xc0) != 0x80) c.fail("app-format", "%s: character %zu is not valid UTF-8: %s", what.c_str(), i, hex(g.data(), g.size()).c_str());
            unsigned cp = cpOf(g, i);
            if (cp < 0x4E00 || cp > 0x9EFF) c.fail("app-format", "%s: character %zu U+%04X is outside the supported range", what.c_str(), i, cp);
            if (!fr[i] && cp != cps[i]) c.fail("app-sample", "%s: character %zu must be kept", what.c_str(), i);
            if (fr[i]) { if (duo(cp) != e.substr(4 * j, 4)) c.fail("app-value", "%s: character %zu is U+%04X, not the FF1/FF3 image of the free characters", what.c_str(), i, cp); j++; }
        }
        rc = appCall(c, A, fnCn, true, g, useS ? &sample : nullptr, b, what + " decrypt");
        c.eqn(rc, 1, "app-return", what + ": decrypt");
        c.eq(b.data(), v.data(), v.size(), "app-inverse", what);
        if (c.idx % 60 == 7) c.sample(what + " -> '" + g + "'");
        // refusals: other characters, broken UTF-8, samples that do not fit
        std::string bad = v, bs = sample, o;
        switch (c.rng.below(6)) {
        case 0: bad.replace(3 * c.rng.below(n), 3, u8(c.rng.below(2) ? 0x9F00 + (unsigned)c.rng.below(256) : 0x4DFF - (unsigned)c.rng.below(300))); break;
        case 1: bad += "a"; break;
        case 2: bad.replace(3 * c.rng.below(n), 3, "abc"); break;
        case 3: bad.pop_back(); break;
        case 4: bs = std::string(n + 1, '*'); break;
        default: bad = ""; bs = "";
        }
        if (bad == v && bs == sample) continue;
        bool dec = c.rng.below(2);
        rc = appCall(c, A, fnCn, dec, bad, bs.empty() ? nullptr : &bs, o, "cn refuse");
        c.eqn(rc, 0, "app-refuse", strf("cn '%s' (%s) sample '%s'", bad.c_str(), hex(bad.data(), bad.size()).c_str(), bs.c_str()));
        c.stat("refusals observed");
    }
    c.stat(("contexts " + A.cipher + "/" + A.ffx).c_str());
}
// every supported character
SCENARIO(app_cnall, "app.cnall") {
    App &A = app(c);
    for (unsigned k = 0; k < 256; k++) {
        unsigned cp = 0x4E00 + (unsigned)((c.idx * 256 + k) % 20736);
        std::string v = u8(cp), g, b;
        if (appCall(c, A, fnCn, false, v, nullptr, g, "cn") != 1) c.fail("app-return", "U+%04X refused", cp);
        unsigned q = cpOf(g, 0);
        if (q < 0x4E00 || q > 0x9EFF || u8(q) != g) c.fail("app-format", "U+%04X encrypts to %s", cp, hex(g.data(), 3).c_str());
        if (appCall(c, A, fnCn, true, g, nullptr, b, "cn") != 1 || b != v) c.fail("app-inverse", "U+%04X -> U+%04X -> %s", cp, q, hex(b.data(), 3).c_str());
        c.observe(hx::mix(cp * 64 + (A.ff3 ? 1 : 0)));
    }
    c.stat("characters", 256);
}
