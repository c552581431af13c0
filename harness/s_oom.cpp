// An allocation that fails: every call must report it, leak nothing and leave its objects usable.
#include "oom.h"
#include <unistd.h>
#include <fcntl.h>
extern "C" {
#include <wbcrypto/se_wbsm4.h>
}
using namespace kit;
using oom::Call;
namespace {
std::string fn(const char *n) { return hx::scratch() + "/" + n; }
}
namespace {
// one call of the kind the case number asks for, handed to the judge
void calls(Case &c, void (*judge)(Case &, const Call &), size_t longest) {
    Rng &r = c.rng;
    Rng lib = r;
    Call k;
    int kind = (int)(c.idx % 24);
    Bytes key = r.bytes(1 + r.below(40)), in = r.bytes(16), iv = ivOf(r), aad = r.bytes(r.below(40)), m = r.data(r.below(longest));
    auto seed = [&]() { Rng q = lib; seedLib(q); };
    int mode = r.below(2) ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE, dummy = (int)r.below(3);
    bool dec = r.below(2);
    Kind ck = pickKind(c);
    long slot = c.idx / 24;
    switch (kind) {
    case 0: k.what = "aes_context_init"; k.op = [&](Bytes &) { auto x = WBCRYPTO_aes_context_init(); if (x) WBCRYPTO_aes_context_free(x); return x != nullptr; }; break;
    case 1: k.what = "sm4_context_init"; k.op = [&](Bytes &) { auto x = WBCRYPTO_sm4_context_init(); if (x) WBCRYPTO_sm4_context_free(x); return x != nullptr; }; break;
    case 2: {
        bool se = r.below(2);
        k.what = se ? "se_wbsm4_context_init" : "wbaes_context_init";
        k.op = [&, se](Bytes &) { if (se) { auto x = WBCRYPTO_se_wbsm4_context_init(mode); if (x) WBCRYPTO_se_wbsm4_context_free(x); return x != nullptr; } auto x = WBCRYPTO_wbaes_context_init(); if (x) WBCRYPTO_wbaes_context_free(x); return x != nullptr; };
        break;
    }
    case 3: k.what = strf("wbsm4_context_init with %d dummy rounds", dummy); k.op = [&](Bytes &) { auto x = WBCRYPTO_wbsm4_context_init(mode, dummy); if (x) WBCRYPTO_wbsm4_context_free(x); return x != nullptr; }; break;
    case 4: {
        k.what = "wbgcm_mask_init_table";
        k.op = [&](Bytes &) {
            auto x = WBCRYPTO_wbaes_wbgcm_mask_init_table();
            if (!x) return 0;
            for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) free(x->GBOX_TypeIII[i][j]); free(x->GBOX_TypeIII[i]); }       // the library has no function for this
            free(x->GBOX_TypeIII); free(x);
            return 1;
        };
        break;
    }
    case 5: {
        auto x = WBCRYPTO_sm4_context_init(); std::shared_ptr<void> own((void *)x, [](void *p) { WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)p); });
        k.what = "sm4_init_key"; k.op = [&, own, x](Bytes &o) { int rc = WBCRYPTO_sm4_init_key(x, key.data(), key.size()); o.resize(16); if (rc) WBCRYPTO_sm4_encrypt(in.data(), o.data(), x); return rc; };
        break;
    }
    case 6: {
        auto x = WBCRYPTO_wbsm4_context_init(mode, dummy); std::shared_ptr<void> own((void *)x, [](void *p) { WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)p); });
        k.what = strf("wbsm4_gen_table with %d dummy rounds", dummy); k.op = [&, own, x](Bytes &o) { seed(); int rc = WBCRYPTO_wbsm4_gen_table(x, key.data(), key.size()); o.resize(16); if (rc) WBCRYPTO_wbsm4_encrypt(in.data(), o.data(), x); return rc; };
        break;
    }
    case 7: {
        auto x = WBCRYPTO_se_wbsm4_context_init(mode); std::shared_ptr<void> own((void *)x, [](void *p) { WBCRYPTO_se_wbsm4_context_free((WBCRYPTO_se_wbsm4_context *)p); });
        k.what = "se_wbsm4_gen_table"; k.op = [&, own, x](Bytes &o) { seed(); int rc = WBCRYPTO_se_wbsm4_gen_table(x, key.data(), key.size()); o.resize(16); if (rc) WBCRYPTO_se_wbsm4_encrypt(in.data(), o.data(), x); return rc; };
        break;
    }
    case 8: {
        static const char *cn[] = {WBCYRPTO_FPE_CIPHER_SM4, WBCYRPTO_FPE_CIPHER_AES, WBCYRPTO_FPE_CIPHER_WBSM4, WBCYRPTO_FPE_CIPHER_WBAES, "other"};
        int w = (int)(slot % 5);
        k.what = strf("fpe_app_init for %s", cn[w]);
        k.op = [&, w](Bytes &o) {
            WBCRYPTO_fpe_app_context x; seed();
            int rc = WBCRYPTO_fpe_app_init(&x, key.data(), key.size(), (char *)cn[w], (char *)WBCYRPTO_FPE_FFX_FF1);
            if (!rc) return rc;
            char ph[] = "13812345678"; o.resize(12); bool h; hx::allocsSeen(h);             // the value itself is not part of this call
            WBCRYPTO_fpe_encrypt_phone(&x, ph, (char *)o.data());
            switch (w) {
            case 0: WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)x.cipher_ctx); break;
            case 2: WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)x.cipher_ctx); break;
            case 3: WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)x.cipher_ctx); break;
            default: WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)x.cipher_ctx);
            }
            return rc;
        };
        break;
    }
    case 9: case 10: case 11: {                                     // whole GCM messages, context included
        const Key &K = kit::key(c, ck, slot); bool par = kind != 9;
        k.what = strf("%s GCM%s %s of %zu bytes", kname[ck], par ? " parallel" : "", dec ? "decryption" : "encryption", m.size());
        k.op = [&, par](Bytes &o) {
            auto g = K.gcm();
            if (!g) return 0;
            o.resize(m.size() + 16);
            int rc = WBCRYPTO_gcm_setiv(g, iv.data(), iv.size()) && WBCRYPTO_gcm_aad(g, aad.data(), aad.size());
            if (rc) rc = (par ? dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt : dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt)(g, m.data(), m.size(), o.data(), m.size());
            if (rc) rc = WBCRYPTO_gcm_finish(g, o.data() + m.size(), 16);
            WBCRYPTO_gcm_free(g);
            return rc;
        };
        break;
    }
    case 12: {
        const Key &K = kit::key(c, ck == WBAES ? SM4 : ck, slot); Bytes v = r.bytes(16);
        k.what = strf("%s CBC %s of %zu bytes", kname[K.kind], dec ? "decryption" : "encryption", m.size());
        Bytes ct = ref::cbcEnc(K.r, v, ref::pkcs7(m));
        k.op = [&, v, ct](Bytes &o) { Bytes w = v; size_t use = 0; o.assign(m.size() + 32, 0); int rc = dec ? K.cbcDec(ct.data(), ct.size(), o.data(), o.size(), &use, w.data()) : K.cbcEnc(m.data(), m.size(), o.data(), o.size(), &use, w.data()); o.resize(std::min(use, o.size())); return rc; };
        break;
    }
    case 13: case 14: case 15: case 16: {
        const Key &K = kit::key(c, ck, slot); unsigned radix = 2 + (unsigned)r.below(35); int f = kind - 13;
        std::string d = digits(r, radix, f == 1 || f == 3 ? 2 + r.below(std::min<size_t>(ref::ff3max(radix) - 1, 30)) : 2 + r.below(60)); Bytes tw = r.bytes(8 + r.below(9));
        static const char *nm[] = {"FF1", "FF3", "FF1-CMAC", "FF3-GMAC"};
        k.what = strf("%s %s %s of %zu digits", kname[ck], nm[f], dec ? "decryption" : "encryption", d.size());
        k.op = [&, f, radix, d, tw](Bytes &o) {
            o.assign(d.size() + 17, 0); int rc;
            if (f < 2) {
                auto x = K.fpe((const char *)tw.data(), tw.size(), radix); if (!x) return 0;
                rc = (f ? dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt : dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt)(x, d.c_str(), (char *)o.data());
                WBCRYPTO_fpe_free(x);
            } else {
                auto x = K.fpemac((const char *)tw.data(), tw.size(), radix); if (!x) return 0;
                size_t tl = 0; char t[16] = {0};
                rc = (f == 3 ? dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt : dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt)(x, d.c_str(), (char *)o.data());
                if (rc) { rc = (f == 3 ? WBCRYPTO_ff3_gmac_finish : WBCRYPTO_ff1_cmac_finish)(x, t, &tl); memcpy(o.data() + d.size() + 1, t, 16); }
                WBCRYPTO_fpe_mac_free(x);
            }
            return rc;
        };
        break;
    }
    case 17: case 18: {
        const Key &K = kit::key(c, ck, slot); int v = (int)r.below(3); bool smp = r.below(2); bool ff3 = r.below(2);
        static const char *cn[] = {WBCYRPTO_FPE_CIPHER_AES, WBCYRPTO_FPE_CIPHER_SM4, WBCYRPTO_FPE_CIPHER_WBAES, WBCYRPTO_FPE_CIPHER_WBSM4};
        static const char *val[] = {"13812345678", "44010619990101123X", "\xe5\xb9\xbf\xe5\xb7\x9e\xe5\xb8\x82\xe5\xb7\x9e"}, *sm[] = {"138****5678", "4401**********123X", "\xe5\xb9\xbf\xe5\xb7\x9e**"}, *nm[] = {"phone", "ID card", "text"};
        k.what = strf("application layer (%s, %s), %s%s, %s", cn[ck], ff3 ? "FF3" : "FF1", nm[v], smp ? " with a sample" : "", dec ? "decryption" : "encryption");
        k.op = [&, v, smp, ff3](Bytes &o) {
            WBCRYPTO_fpe_app_context x; memset(&x, 0, sizeof x); x.cipher = (char *)cn[ck]; x.ffx = (char *)(ff3 ? WBCYRPTO_FPE_FFX_FF3 : WBCYRPTO_FPE_FFX_FF1);
            x.cipher_ctx = K.aes ? (void *)K.aes : K.sm4 ? (void *)K.sm4 : K.wbaes ? (void *)K.wbaes : (void *)K.wbsm4;
            o.assign(40, 0); char *p = (char *)val[v], *q = (char *)o.data(), *s = (char *)sm[v];
            typedef int (*F2)(WBCRYPTO_fpe_app_context *, char *, char *); typedef int (*F3)(WBCRYPTO_fpe_app_context *, char *, char *, char *);
            static const F2 e2[] = {WBCRYPTO_fpe_encrypt_phone, WBCRYPTO_fpe_encrypt_idcard, WBCRYPTO_fpe_encrypt_cn_utf8}, d2[] = {WBCRYPTO_fpe_decrypt_phone, WBCRYPTO_fpe_decrypt_idcard, WBCRYPTO_fpe_decrypt_cn_utf8};
            static const F3 e3[] = {WBCRYPTO_fpe_encrypt_phone_with_sample, WBCRYPTO_fpe_encrypt_idcard_with_sample, WBCRYPTO_fpe_encrypt_cn_utf8_with_sample}, d3[] = {WBCRYPTO_fpe_decrypt_phone_with_sample, WBCRYPTO_fpe_decrypt_idcard_with_sample, WBCRYPTO_fpe_decrypt_cn_utf8_with_sample};
            return smp ? (dec ? d3 : e3)[v](&x, p, q, s) : (dec ? d2 : e2)[v](&x, p, q);
        };
        break;
    }
    case 19: case 20: {                                             // files
        int w = kind == 19 ? 0 : 1 + (int)(slot % 2);
        std::string a = fn("oom.in"), b = fn("oom.out"), e = fn("oom.enc");
        static const char *nm[] = {"GCM file", "WBGCM-EE file", "WBGCM-mask file"};
        k.what = strf("%s %s of %zu bytes", nm[w], dec ? "decryption" : "encryption", m.size());
        const Key *K = w == 0 ? &kit::key(c, ck, slot) : nullptr; const Ee *E = w == 1 ? &kit::ee(c, slot / 64) : nullptr; Mask *M = w == 2 ? &kit::mask(c, slot / 64) : nullptr;
        auto go = [=](bool d, const std::string &x, const std::string &y) {
            int rc = 0;
            if (K) { auto f = K->gcmfile(); if (!f) return 0; rc = WBCRYPTO_gcmfile_setiv(f, iv.data(), iv.size()) && (d ? WBCRYPTO_gcmfile_decrypt : WBCRYPTO_gcmfile_encrypt)(f, (char *)x.c_str(), (char *)y.c_str()); WBCRYPTO_gcmfile_free(f); }
            if (E) { auto f = WBCRYPTO_wbaes_wbgcm_ee_init(E->t); if (!f) return 0; rc = WBCRYPTO_wbaes_wbgcm_ee_setiv(f, iv.data(), iv.size()) && (d ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt : WBCRYPTO_wbaes_wbgcmfile_ee_encrypt)(f, (char *)x.c_str(), (char *)y.c_str()); WBCRYPTO_wbaes_wbgcm_ee_free(f); }
            if (M) { auto f = WBCRYPTO_wbaes_wbgcm_mask_init(d ? M->d : M->e); if (!f) return 0; rc = WBCRYPTO_wbaes_wbgcm_mask_setiv(f, iv.data(), iv.size()) && (d ? WBCRYPTO_wbaes_wbgcmfile_mask_decrypt : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt)(f, (char *)x.c_str(), (char *)y.c_str()); WBCRYPTO_wbaes_wbgcm_mask_free(f); }
            return rc;
        };
        hx::writeFile(a, m);
        if (!go(false, a, e)) { c.fail("oom-return", "%s fails", k.what.c_str()); return; }
        k.op = [=](Bytes &o) { unlink(b.c_str()); int rc = dec ? go(true, e, b) : go(false, a, b); bool h; hx::allocsSeen(h); if (rc) hx::readFile(b, o); return rc; };
        k.after = [=] { unlink(b.c_str()); };
        break;
    }
    case 21: case 22: {
        const Key &A = kit::key(c, WBSM4, slot), &B = kit::key(c, WBSM4, slot + 24 * 40);
        bool file = kind == 22; std::string p = fn("oom.key");
        char *ks = nullptr;
        if (!WBCRYPTO_wbsm4_key2bytes(A.wbsm4, &ks) || !WBCRYPTO_wbsm4_key2file(A.wbsm4, (char *)p.c_str())) { free(ks); c.fail("oom-return", "export fails"); return; }
        std::shared_ptr<char> own(ks, free);
        if (dec) {
            auto x = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, 0); std::shared_ptr<void> ox((void *)x, [](void *q) { WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)q); });
            char *kb = nullptr; WBCRYPTO_wbsm4_key2bytes(B.wbsm4, &kb); std::shared_ptr<char> ownb(kb, free);
            k.what = file ? "wbsm4_file2key over another key" : "wbsm4_bytes2key over another key";
            Bytes old(16); WBCRYPTO_wbsm4_encrypt(in.data(), old.data(), B.wbsm4);
            k.op = [=, &in](Bytes &o) { int rc = file ? WBCRYPTO_wbsm4_file2key(x, (char *)p.c_str()) : WBCRYPTO_wbsm4_bytes2key(x, own.get()); bool h; hx::allocsSeen(h); (void)ox; o.resize(16); if (rc) WBCRYPTO_wbsm4_encrypt(in.data(), o.data(), x); return rc; };
            // before every call the context holds the other key
            k.after = [=] { WBCRYPTO_wbsm4_bytes2key(x, ownb.get()); };
            k.after();
            k.intact = [=, &in] { Bytes o(16); WBCRYPTO_wbsm4_encrypt(in.data(), o.data(), x); return o == old; };
        } else if (file) {
            k.what = "wbsm4_key2file";
            k.op = [=, &A](Bytes &o) { unlink(p.c_str()); int rc = WBCRYPTO_wbsm4_key2file(A.wbsm4, (char *)p.c_str()); bool h; hx::allocsSeen(h); if (rc) { Bytes f; hx::readFile(p, f); o.resize(8); uint64_t q = hx::hashBytes(f.data(), f.size()); memcpy(o.data(), &q, 8); } return rc; };
        } else {
            k.what = "wbsm4_key2bytes";
            k.op = [=, &A](Bytes &o) { char *q = nullptr; int rc = WBCRYPTO_wbsm4_key2bytes(A.wbsm4, &q); if (rc) { uint32_t l; memcpy(&l, q, 4); o.resize(8); uint64_t h = hx::hashBytes(q, l); memcpy(o.data(), &h, 8); free(q); } return rc; };
        }
        break;
    }
    default: {
        const Ee &E = kit::ee(c, slot / 64); Mask &M = kit::mask(c, slot / 64); bool ee = r.below(2);
        k.what = strf("WBGCM-%s %s of %zu bytes", ee ? "EE" : "mask", dec ? "decryption" : "encryption", m.size());
        k.op = [&, ee](Bytes &o) {
            o.resize(m.size() + 16); int rc;
            if (ee) {
                auto g = WBCRYPTO_wbaes_wbgcm_ee_init(E.t); if (!g) return 0;
                rc = WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv.data(), iv.size()) && WBCRYPTO_wbaes_wbgcm_ee_aad(g, aad.data(), aad.size()) && (dec ? WBCRYPTO_wbaes_wbgcm_ee_decrypt : WBCRYPTO_wbaes_wbgcm_ee_encrypt)(g, m.data(), m.size(), o.data(), m.size()) && WBCRYPTO_wbaes_wbgcm_ee_finish(g, o.data() + m.size(), 16);
                WBCRYPTO_wbaes_wbgcm_ee_free(g);
            } else {
                auto g = WBCRYPTO_wbaes_wbgcm_mask_init(dec ? M.d : M.e); if (!g) return 0;
                rc = WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv.data(), iv.size()) && WBCRYPTO_wbaes_wbgcm_mask_aad(g, aad.data(), aad.size()) && (dec ? WBCRYPTO_wbaes_wbgcm_mask_decrypt : WBCRYPTO_wbaes_wbgcm_mask_encrypt)(g, m.data(), m.size(), o.data(), m.size()) && WBCRYPTO_wbaes_wbgcm_mask_finish(g, o.data() + m.size(), 16);
                WBCRYPTO_wbaes_wbgcm_mask_free(g);
            }
            return rc;
        };
    }
    }
    judge(c, k);
}
// a call that succeeds leaves nothing on the standard streams
void quiet(Case &c, const Call &k) {
    std::string f = fn("streams");
    fflush(nullptr);
    int keep[2] = {dup(1), dup(2)}, fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    c.check(fd >= 0 && keep[0] >= 0 && keep[1] >= 0, "harness", "dup");
    dup2(fd, 1); dup2(fd, 2);
    Bytes got; int rc = k.op(got);
    fflush(nullptr);
    dup2(keep[0], 1); dup2(keep[1], 2); close(keep[0]); close(keep[1]); close(fd);
    if (k.after) k.after();
    if (rc != 1) { c.fail("quiet-return", "%s fails", k.what.c_str()); return; }
    Bytes out; hx::readFile(f, out); unlink(f.c_str());
    if (!out.empty()) c.fail("stray-output", "%s succeeds and writes %zu bytes to the standard streams: %.60s", k.what.c_str(), out.size(), std::string(out.begin(), out.end()).c_str());
    c.observe(hx::hashBytes(got.data(), got.size(), (uint64_t)c.idx));
    c.stat("calls watched for stray output");
}
}
SCENARIO(oom_calls, "oom.calls") { if (hx::haveMallocMonitor()) calls(c, oom::explore, 400); }
SCENARIO(quiet_calls, "quiet.calls") { calls(c, quiet, c.rng.below(4) ? 600 : 9000); }
