// Histories in which the *cipher* contexts change under the modes: keyed again in
// place, freed and allocated again (so that addresses come back), used by several modes
// in turn.  Every mode context is opened after the last keying; what it computes is a
// function of (cipher, key, inputs) only.
#include "lib.h"
#include <map>
using namespace kit;

namespace {
struct Slot {
    bool sm4 = false; void *p = nullptr; Bytes norm; ref::Cipher r; int id = 0;
    void shut() { if (p) { if (sm4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)p); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)p); } p = nullptr; }
    ~Slot() { shut(); }
    void open(bool s) { shut(); sm4 = s; p = s ? (void *)WBCRYPTO_sm4_context_init() : (void *)WBCRYPTO_aes_context_init(); }
    void rekey(const Bytes &k) {
        if (sm4) WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)p, k.data(), k.size()); else WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)p, k.data(), k.size());
        norm = hx::normKey(k); r = ref::Cipher(sm4, norm);
    }
};
struct Seen { Bytes tag; std::string how, eff; };

void macOp(Case &c, Slot &s, bool ff3, const std::vector<Bytes> &tws, const std::vector<std::string> &msgs, unsigned radix, std::map<std::string, Seen> &seen, const std::string &log) {
    const Bytes &tw = tws[c.rng.below(tws.size())];
    const std::string &m = msgs[c.rng.below(msgs.size())];
    bool dec = c.rng.below(2);
    Bytes t8 = tw; t8.resize(8, 0);
    std::string w = ff3 ? ref::ff3(s.r, t8, radix, m) : ref::ff1(s.r, tw, radix, m);
    std::string in = dec ? w : m, want = dec ? m : w;
    WBCRYPTO_fpe_mac_context *x = s.sm4 ? WBCRYPTO_sm4_fpe_mac_init((WBCRYPTO_sm4_context *)s.p, (const char *)tw.data(), tw.size(), radix)
                                        : WBCRYPTO_aes_fpe_mac_init((WBCRYPTO_aes_context *)s.p, (const char *)tw.data(), tw.size(), radix);
    if (!x) c.fail("fpe-init", "fpe_mac_init refused radix %u", radix);
    std::vector<char> out(in.size() + 1, 'z');
    int rc = (ff3 ? (dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt) : (dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt))(x, in.c_str(), out.data());
    c.eqn(rc, 1, "fpe-return", "after" + log);
    c.eq(out.data(), want.data(), want.size(), "fpe-value", "after" + log);
    Buf t(c, "tag", 16); size_t len = 0;
    c.eqn(ff3 ? WBCRYPTO_ff3_gmac_finish(x, t.c(), &len) : WBCRYPTO_ff1_cmac_finish(x, t.c(), &len), 1, "mac-finish", "after" + log);
    WBCRYPTO_fpe_mac_free(x);
    // FF3 itself uses eight bytes of the tweak: two tweaks that agree there are not told apart by the sensitivity rule
    std::string k = strf("%d|%s|%s|%s", s.sm4, hex(s.norm, 16).c_str(), hex(tw, 200).c_str(), m.c_str());
    std::string eff = strf("%d|%s|%s|%s", s.sm4, hex(s.norm, 16).c_str(), hex(ff3 ? t8 : tw, 200).c_str(), m.c_str());
    auto it = seen.find(k);
    if (it == seen.end()) {
        for (auto &o : seen)
            if (o.second.tag == t.bytes() && o.second.eff != eff) c.fail("mac-insensitive", "%s: two different (key, tweak, text) have the same tag: %s and %s after%s", ff3 ? "FF3-GMAC" : "FF1-CMAC", o.first.c_str(), k.c_str(), log.c_str());
        seen[k] = {t.bytes(), dec ? "decrypting" : "encrypting", eff};
    } else if (it->second.tag != t.bytes())
        c.fail("mac-history", "%s of %s: tag %s when %s, earlier %s when %s; history%s", ff3 ? "FF3-GMAC" : "FF1-CMAC", k.c_str(), hex(t.bytes()).c_str(), dec ? "decrypting" : "encrypting", hex(it->second.tag).c_str(), it->second.how.c_str(), log.c_str());
    else c.stat("tags seen again after other histories");
    c.observe(hx::hashBytes(t.p(), 16, hx::hashBytes(k.data(), k.size())));
}
void ffOp(Case &c, Slot &s, bool ff3, const std::vector<Bytes> &tws, const std::vector<std::string> &msgs, unsigned radix, const std::string &log) {
    const Bytes &tw = tws[c.rng.below(tws.size())];
    const std::string &m = msgs[c.rng.below(msgs.size())];
    bool dec = c.rng.below(2);
    Bytes t8 = tw; t8.resize(8, 0);
    std::string w = ff3 ? ref::ff3(s.r, t8, radix, m, dec) : ref::ff1(s.r, tw, radix, m, dec);
    WBCRYPTO_fpe_context *x = s.sm4 ? WBCRYPTO_sm4_fpe_init((WBCRYPTO_sm4_context *)s.p, (const char *)tw.data(), tw.size(), radix) : WBCRYPTO_aes_fpe_init((WBCRYPTO_aes_context *)s.p, (const char *)tw.data(), tw.size(), radix);
    if (!x) c.fail("fpe-init", "fpe_init refused radix %u", radix);
    std::vector<char> out(m.size() + 1, 'z');
    int rc = (ff3 ? (dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt) : (dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt))(x, m.c_str(), out.data());
    c.eqn(rc, 1, "fpe-return", "after" + log);
    c.eq(out.data(), w.data(), w.size(), "fpe-value", "after" + log);
    WBCRYPTO_fpe_free(x);
    c.observe(hx::hashBytes(w.data(), w.size(), hx::hashBytes(s.norm.data(), 16)));
}
void cbcOp(Case &c, Slot &s, const std::vector<Bytes> &datas, const std::vector<Bytes> &ivs, const std::string &log) {
    const Bytes &d = datas[c.rng.below(datas.size())];
    Bytes iv = ivs[c.rng.below(ivs.size())]; iv.resize(16, 7);
    Bytes p = ref::pkcs7(d), w = ref::cbcEnc(s.r, iv, p), o(p.size() + 16, 0), ivb = iv;
    size_t use = 0;
    int rc = s.sm4 ? WBCRYPTO_sm4_cbc_encrypt(d.data(), d.size(), o.data(), o.size(), &use, (WBCRYPTO_sm4_context *)s.p, ivb.data()) : WBCRYPTO_aes_cbc_encrypt(d.data(), d.size(), o.data(), o.size(), &use, (WBCRYPTO_aes_context *)s.p, ivb.data());
    c.eqn(rc, 1, "cbc-return", "after" + log);
    c.eq(o.data(), w.data(), w.size(), "cbc-value", "after" + log);
    Bytes b(w.size() + 16, 0); ivb = iv;
    rc = s.sm4 ? WBCRYPTO_sm4_cbc_decrypt(w.data(), w.size(), b.data(), b.size(), &use, (WBCRYPTO_sm4_context *)s.p, ivb.data()) : WBCRYPTO_aes_cbc_decrypt(w.data(), w.size(), b.data(), b.size(), &use, (WBCRYPTO_aes_context *)s.p, ivb.data());
    c.eqn(rc, 1, "cbc-return", "after" + log);
    if (!w.empty() && !ref::ambiguousTail(d)) c.eq(b.data(), d.data(), d.size(), "cbc-inverse", "after" + log);
    c.observe(hx::hashBytes(w.data(), w.size()));
}
void gcmOp(Case &c, Slot &s, bool par, const std::vector<Bytes> &datas, const std::vector<Bytes> &ivs, const std::string &log) {
    const Bytes &d = datas[c.rng.below(datas.size())], &iv = ivs[c.rng.below(ivs.size())], &aad = datas[c.rng.below(datas.size())];
    bool dec = c.rng.below(2);
    ref::Gcm g(s.r, iv);
    Bytes ct = g.ctr(d), tag = g.tag(aad, ct), o(d.size() + 1, 0), t(16, 0);
    const Bytes &in = dec ? ct : d, &want = dec ? d : ct;
    WBCRYPTO_gcm_context *x = s.sm4 ? WBCRYPTO_sm4_gcm_init((WBCRYPTO_sm4_context *)s.p) : WBCRYPTO_aes_gcm_init((WBCRYPTO_aes_context *)s.p);
    if (!x) c.fail("gcm-init", "gcm_init failed");
    int ok = WBCRYPTO_gcm_setiv(x, iv.data(), iv.size()) == 1 && WBCRYPTO_gcm_aad(x, aad.data(), aad.size()) == 1;
    ok = ok && (par ? (dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt) : (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt))(x, in.data(), in.size(), o.data(), in.size()) == 1;
    ok = ok && WBCRYPTO_gcm_finish(x, t.data(), 16) == 1;
    WBCRYPTO_gcm_free(x);
    if (!ok) c.fail("gcm-return", "a call failed after%s", log.c_str());
    c.eq(o.data(), want.data(), want.size(), "gcm-data", "after" + log);
    c.eq(t.data(), tag.data(), 16, "gcm-tag", "after" + log);
    c.observe(hx::hashBytes(tag.data(), 16));
}
enum Op { MAC1, MAC3, FF1, FF3, CBC, GCM, GCMPAR };
void history(Case &c, std::vector<Op> ops, int steps = 26) {
    std::vector<Bytes> keys, tws, datas, ivs; std::vector<std::string> msgs;
    size_t kl;
    keys.push_back(hx::keyOf(c.rng, kl));
    for (int i = 0; i < 3; i++) keys.push_back(hx::relatedKey(c.rng, keys[c.rng.below(keys.size())]));
    unsigned radix = c.rng.below(2) ? 10 : 2 + (unsigned)c.rng.below(35);
    tws.push_back(c.rng.data(c.rng.below(20)));
    Bytes t = tws[0]; if (t.empty()) t.resize(3, 1); t[c.rng.below(t.size())] ^= (uint8_t)(1 << c.rng.below(8)); tws.push_back(t);
    tws.push_back(c.rng.bytes(8));
    size_t n = 4 + c.rng.below(15);
    msgs.push_back(digits(c.rng, radix, n));
    std::string m = msgs[0]; for (int i = 0; i < 40 && m == msgs[0]; i++) m[c.rng.below(n)] = digits(c.rng, radix, 1)[0];
    msgs.push_back(m); msgs.push_back(digits(c.rng, radix, 4 + c.rng.below(15)));
    for (int i = 0; i < 3; i++) datas.push_back(c.rng.data(i == 0 ? 16 * (1 + c.rng.below(4)) : c.rng.below(100)));
    ivs.push_back(c.rng.bytes(12)); t = ivs[0]; t[c.rng.below(12)] ^= 1; ivs.push_back(t); ivs.push_back(c.rng.bytes(1 + c.rng.below(30)));
    std::vector<Slot> v(2 + c.rng.below(2));
    std::string log; std::map<std::string, Seen> seen1, seen3;
    bool one = c.rng.below(2), s4 = c.rng.below(2);             // one cipher only: addresses come back sooner
    auto rekey = [&](size_t q) { size_t k = c.rng.below(keys.size()); v[q].rekey(keys[k]); log += strf(" key%zu:%zu", q, k); };
    for (size_t q = 0; q < v.size(); q++) { v[q].open(one ? s4 : c.rng.below(2)); rekey(q); }
    for (int i = 0; i < steps; i++) {
        size_t q = c.rng.below(v.size());
        switch (c.rng.below(7)) {
        case 0: rekey(q); c.stat("contexts keyed again in place"); continue;
        case 1: { size_t z = c.rng.below(v.size()); v[q].shut(); if (z != q && c.rng.below(2)) { v[z].shut(); v[z].open(one ? s4 : c.rng.below(2)); rekey(z); }
                  v[q].open(one ? s4 : c.rng.below(2)); log += strf(" new%zu", q); rekey(q); c.stat("contexts freed and allocated again"); continue; }
        }
        Op o = ops[c.rng.below(ops.size())];
        log += strf(" %s%zu", (const char *[]){"cmac", "gmac", "ff1-", "ff3-", "cbc", "gcm", "gcmpar"}[o], q);
        switch (o) {
        case MAC1: macOp(c, v[q], false, tws, msgs, radix, seen1, log); break;
        case MAC3: macOp(c, v[q], true, tws, msgs, radix, seen3, log); break;
        case FF1: ffOp(c, v[q], false, tws, msgs, radix, log); break;
        case FF3: ffOp(c, v[q], true, tws, msgs, radix, log); break;
        case CBC: cbcOp(c, v[q], datas, ivs, log); break;
        case GCM: gcmOp(c, v[q], false, datas, ivs, log); break;
        case GCMPAR: gcmOp(c, v[q], true, datas, ivs, log); break;
        }
        c.stat("operations in re-keying histories");
    }
    if (c.idx % 90 == 11) c.sample(log.substr(0, 300));
}
}
SCENARIO(rk_cbc, "rekey.cbc") { history(c, {CBC, CBC, CBC, GCM, FF1}); }
SCENARIO(rk_gcm, "rekey.gcm") { history(c, {GCM, GCM, GCM, CBC, MAC3}); }
SCENARIO(rk_par, "rekey.gcmpar") { history(c, {GCMPAR, GCMPAR, GCM}, 14); }
SCENARIO(rk_ff1, "rekey.ff1") { history(c, {FF1, FF1, FF1, FF3, MAC1}); }
SCENARIO(rk_ff3, "rekey.ff3") { history(c, {FF3, FF3, FF3, FF1, MAC3}); }
SCENARIO(rk_mac, "rekey.mac") { history(c, {MAC1, MAC3, MAC1, MAC3, FF1, GCM}, 40); }
