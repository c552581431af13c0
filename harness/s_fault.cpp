// C14: file operations under injected and real I/O faults.
// Oracle: an operation that returns 1 has produced a complete and correct result;
// whatever happens it neither crashes, nor leaves streams open, nor leaves files of
// its own behind; and the next fault-free operation works.
#include "file.h"
#include "fault.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
using namespace kit;

namespace {
// one file operation of the library under observation
struct Op {
    std::string name;
    std::set<std::string> files;                       // files it may leave in the directory
    std::function<void()> prepare;                     // inputs in place, state fresh
    std::function<int()> run;
    std::function<std::string()> verify;               // "" when the result is complete and correct
};
struct FDir {
    std::string d;
    FDir(Case &c) { d = hx::scratch() + strf("/x%ld", c.idx); mkdir(d.c_str(), 0755); }
    ~FDir() { for (auto &n : hx::listDir(d)) { std::string q = d + "/" + n; if (::unlink(q.c_str())) ::rmdir(q.c_str()); } ::rmdir(d.c_str()); }
    std::string p(const char *n) const { return d + "/" + n; }
};
std::string fileIs(const std::string &p, const Bytes &want) {
    Bytes g;
    struct stat st;
    if (stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return "there is no output file";
    if (!hx::readFile(p, g)) return "output file missing";
    if (g.size() != want.size()) return strf("output file has %zu bytes instead of %zu", g.size(), want.size());
    return g == want ? "" : "output file has wrong contents";
}
void after(Case &c, Op &o, FDir &D, int fds, const std::string &how) {
    if (hx::g_fault.openStreams != 0) c.fail("leak-fd", "%s, %s: %ld streams left open", o.name.c_str(), how.c_str(), hx::g_fault.openStreams);
    int now = hx::openFds();
    if (now != fds) c.fail("leak-fd", "%s, %s: open descriptors went from %d to %d", o.name.c_str(), how.c_str(), fds, now);
    for (auto &n : hx::listDir(D.d)) if (!o.files.count(n)) c.fail("stray-file", "%s, %s: file '%s' left behind", o.name.c_str(), how.c_str(), n.c_str());
}
void verdict(Case &c, Op &o, int rc, const std::string &how) {
    if (rc != 0 && rc != 1) c.fail("fault-return", "%s, %s: returned %d", o.name.c_str(), how.c_str(), rc);
    if (rc == 1) {
        std::string v = o.verify();
        if (!v.empty()) c.fail("false-success", "%s reported success although %s: %s", o.name.c_str(), how.c_str(), v.c_str());
    }
}
const char *mname(hx::FaultMode m) { return m == hx::FM_ERROR ? "failed" : m == hx::FM_SHORT ? "came up short" : "met a premature end of file"; }

// fault-free, then every operation x every mode
void enumerate(Case &c, Op &o, FDir &D, long maxOps) {
    o.prepare();
    int fds = hx::openFds();
    int rc = o.run();
    if (rc != 1) c.fail("fault-free-failed", "%s returned %d without any fault", o.name.c_str(), rc);
    std::string v = o.verify();
    if (!v.empty()) c.fail("fault-free-wrong", "%s: %s", o.name.c_str(), v.c_str());
    after(c, o, D, fds, "no fault");
    // through the cookie streams, still without a fault
    o.prepare();
    hx::faultArm(-1, hx::FM_NONE, false);
    rc = o.run();
    hx::faultDisarm();
    long ops = hx::g_fault.ops;
    if (rc != 1 || !o.verify().empty() || ops == 0) { c.stat("operations that do not go through fopen (only real faults)"); return; }
    after(c, o, D, fds, "no fault");
    auto log = hx::g_fault.log;
    std::vector<long> pts;
    for (long k = 0; k < ops; k++)
        if (ops <= maxOps || k < maxOps / 2 || k >= ops - maxOps / 4 || c.rng.below((uint64_t)ops) < (uint64_t)maxOps / 4) pts.push_back(k);
    for (long k : pts)
        for (int m = 1; m <= 3; m++)
            for (int st = 0; st < 2; st++) {
                hx::FaultMode md = (hx::FaultMode)m;
                std::string lg = k < (long)log.size() ? log[k] : "";
                if (md == hx::FM_CUT && lg.compare(0, 4, "read")) continue;
                if (md == hx::FM_SHORT && lg.compare(0, 4, "read") && lg.compare(0, 5, "write")) continue;
                if (st && (lg.compare(0, 4, "open") == 0 || lg.compare(0, 5, "close") == 0)) continue;
                o.prepare();
                fds = hx::openFds();
                hx::faultArm(k, md, st);
                rc = o.run();
                hx::faultDisarm();
                bool hit = hx::g_fault.hit;
                std::string how = strf("operation %ld (%s) %s%s", k, hx::g_fault.hitOp.c_str(), mname(md), st ? " for good" : "");
                verdict(c, o, rc, how);
                after(c, o, D, fds, how);
                if (hit) { c.stat("faults delivered"); c.stat(("faults on " + hx::g_fault.hitOp.substr(0, hx::g_fault.hitOp.find(' '))).c_str()); if (rc == 0) c.stat("faults reported with 0"); }
                c.observe(hx::mix((uint64_t)k * 16 + (uint64_t)m * 2 + (uint64_t)st) ^ hx::hashBytes(o.name.data(), o.name.size(), (uint64_t)c.idx), hit);
            }
    o.prepare();
    rc = o.run();
    if (rc != 1 || !o.verify().empty()) c.fail("fault-residue", "%s no longer works after earlier I/O faults", o.name.c_str());
    if (c.idx % 10 == 2) c.sample(strf("%s: %ld stream operations, a fault injected at %zu of them", o.name.c_str(), ops, pts.size()));
}
// faults the kernel produces
struct RealFault { std::string name; std::function<void()> set, undo; bool mustFail; };
void real(Case &c, Op &o, FDir &D, std::vector<RealFault> fs) {
    for (auto &f : fs) {
        o.prepare();
        int fds = hx::openFds();
        f.set();
        int rc = o.run();
        f.undo();
        if (f.mustFail && rc != 0) c.fail("false-success", "%s returned %d although %s", o.name.c_str(), rc, f.name.c_str());
        if (!f.mustFail) verdict(c, o, rc, f.name);
        int now = hx::openFds();
        if (now != fds) c.fail("leak-fd", "%s, %s: open descriptors went from %d to %d", o.name.c_str(), f.name.c_str(), fds, now);
        for (auto &n : hx::listDir(D.d)) if (!o.files.count(n)) c.fail("stray-file", "%s, %s: file '%s' left behind", o.name.c_str(), f.name.c_str(), n.c_str());
        c.stat("real faults"); c.observe(hx::hashBytes(f.name.data(), f.name.size(), hx::hashBytes(o.name.data(), o.name.size(), (uint64_t)c.idx)));
    }
}
void limitSize(rlim_t n) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
void unlimitSize() { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); }
void limitFds(int n) { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = (rlim_t)n; setrlimit(RLIMIT_NOFILE, &r); }
rlim_t g_fdlim;

std::vector<RealFault> outFaults(FDir &D, const char *out, size_t outSize) {
    std::string o = D.p(out);
    auto rm = [](std::string p) { ::unlink(p.c_str()); ::rmdir(p.c_str()); };
    std::vector<RealFault> v;
    auto cln = [=]() { rm(o); };
    v.push_back({"the output device is full", [=]() { rm(o); if (symlink("/dev/full", o.c_str())) {} }, cln, false});
    v.push_back({"the output path is a directory", [=]() { rm(o); mkdir(o.c_str(), 0755); }, cln, false});
    v.push_back({"the output directory does not exist", [=]() { rm(o); if (symlink((D.d + "/none/x").c_str(), o.c_str())) {} }, cln, false});
    for (size_t lim : {(size_t)0, (size_t)10, outSize / 2, outSize - 1})
        if (lim < outSize) v.push_back({strf("file size is limited to %zu bytes", lim), [=]() { fflush(stdout); limitSize(lim); }, []() { unlimitSize(); }, true});
    for (int k = 0; k < 3; k++)
        v.push_back({strf("only %d more files can be opened", k), [=]() {
            struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); g_fdlim = r.rlim_cur;
            std::vector<int> fd; for (int i = 0; i < k; i++) fd.push_back(dup(0));
            int top = dup(0); for (int x : fd) close(x); close(top); limitFds(top); }, []() { limitFds((int)g_fdlim); }, false});
    return v;
}
std::vector<RealFault> inFaults(FDir &D, const char *in) {
    std::string p = D.p(in);
    std::vector<RealFault> v;
    v.push_back({"the input does not exist", [=]() { ::unlink(p.c_str()); }, []() {}, true});
    v.push_back({"the input is a directory", [=]() { ::unlink(p.c_str()); mkdir(p.c_str(), 0755); }, [=]() { rmdir(p.c_str()); }, true});
    return v;
}
}

SCENARIO(fault_files, "fault.files") {
    signal(SIGXFSZ, SIG_IGN);
    FKind k = (FKind)(c.idx % F_N);
    bool dec = (c.idx / F_N) % 2;
    FileMode f(c, k, c.idx / 48);
    FDir D(c);
    static const size_t sz[] = {0, 1, 100, 128, 1000, 5000, 9000, 16384};
    size_t n = sz[(c.idx / (2 * F_N)) % 8];
    Bytes m = c.rng.bytes(n), iv = ivOf(c.rng), aad = c.rng.bytes(c.rng.below(30)), e = f.expect(c, iv, aad, m);
    bool reuse = c.rng.below(2);
    Op o;
    o.name = strf("%s %s of a %zu byte file", fname[k], dec ? "decryption" : "encryption", n);
    o.files = {"in", "out"};
    o.prepare = [&]() { hx::writeFile(D.p("in"), dec ? e : m); ::unlink(D.p("out").c_str()); if (c.rng.below(2)) hx::writeFile(D.p("out"), c.rng.bytes(c.rng.below(40000))); if (!reuse) f.reopen(c); };
    o.run = [&]() { return f.op(c, dec, iv, aad, D.p("in"), D.p("out")); };
    o.verify = [&]() { return fileIs(D.p("out"), dec ? m : e); };
    enumerate(c, o, D, c.thorough ? 400 : 60);
    auto fs = outFaults(D, "out", dec ? n : e.size());
    if (dec && n == 0) fs.erase(fs.begin());           // nothing is written: a full device is no fault
    real(c, o, D, fs);
    real(c, o, D, inFaults(D, "in"));
}
SCENARIO(fault_keystore, "fault.keystore") {
    signal(SIGXFSZ, SIG_IGN);
    bool rd = c.idx % 2;
    FDir D(c);
    size_t n = c.idx < 4 ? 1 + (size_t)c.idx : 1 + c.rng.below(c.rng.below(2) ? 300 : 20000);
    Bytes m = c.rng.bytes(n), got(n);
    Op o;
    o.name = strf("key store %s of %zu bytes", rd ? "read" : "write", n);
    o.files = {"k"};
    std::string p = D.p("k");
    o.prepare = [&]() { ::unlink(p.c_str()); if (rd) hx::writeFile(p, m); got.assign(n, 0x77); };
    o.run = [&]() { return rd ? WBCRYPTO_keystore_file_to_key(got.data(), n, (char *)p.c_str()) : WBCRYPTO_keystore_key_to_file(m.data(), n, (char *)p.c_str()); };
    o.verify = [&]() { return rd ? std::string(got == m ? "" : "the structure read back differs") : fileIs(p, m); };
    enumerate(c, o, D, c.thorough ? 400 : 60);
    if (!rd) real(c, o, D, outFaults(D, "k", n));
    else {
        real(c, o, D, inFaults(D, "k"));
        real(c, o, D, {{"the file is one byte short", [&]() { if (truncate(p.c_str(), (off_t)n - 1)) {} }, []() {}, true}, {"the file is empty", [&]() { if (truncate(p.c_str(), 0)) {} }, []() {}, true}});
    }
}
SCENARIO(fault_wbsm4key, "fault.wbsm4key") {
    signal(SIGXFSZ, SIG_IGN);
    bool rd = c.idx % 2;
    FDir D(c);
    const Key &K = key(c, WBSM4, c.idx / 24);
    std::string p = D.p("k");
    Bytes file, blk = c.rng.bytes(16 * 6), want(blk.size());
    if (WBCRYPTO_wbsm4_key2file(K.wbsm4, (char *)p.c_str()) != 1 || !hx::readFile(p, file)) c.fail("fault-free-failed", "key2file without any fault");
    for (int i = 0; i < 6; i++) K.r.enc(&blk[16 * i], &want[16 * i]);
    std::unique_ptr<WBCRYPTO_wbsm4_context, void (*)(WBCRYPTO_wbsm4_context *)> dst(nullptr, WBCRYPTO_wbsm4_context_free);
    Op o;
    o.name = strf("white-box SM4 key %s (%zu bytes)", rd ? "import" : "export", file.size());
    o.files = {"k"};
    o.prepare = [&]() { ::unlink(p.c_str()); if (rd) { hx::writeFile(p, file); dst.reset(WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, (int)c.rng.below(3))); } };
    o.run = [&]() { return rd ? WBCRYPTO_wbsm4_file2key(dst.get(), (char *)p.c_str()) : WBCRYPTO_wbsm4_key2file(K.wbsm4, (char *)p.c_str()); };
    o.verify = [&]() {
        if (!rd) return fileIs(p, file);
        Bytes g(16);
        for (int i = 0; i < 6; i++) { WBCRYPTO_wbsm4_encrypt(&blk[16 * i], g.data(), dst.get()); if (memcmp(g.data(), &want[16 * i], 16)) return std::string("the imported key computes another function"); }
        return std::string();
    };
    enumerate(c, o, D, c.thorough ? 120 : 12);
    if (!rd) { auto fs = outFaults(D, "k", file.size()); real(c, o, D, fs); }
    else {
        real(c, o, D, inFaults(D, "k"));
        std::vector<RealFault> fs;
        for (size_t cut : {(size_t)1, (size_t)2, (size_t)4, file.size() / 2, file.size() - 24, file.size() - 20, file.size() - 16, file.size() - 3, file.size()})
            fs.push_back({strf("the key file is %zu bytes short", cut), [&, cut]() { if (truncate(p.c_str(), (off_t)(file.size() - cut))) {} }, []() {}, true});
        fs.push_back({"the key file is one byte too long", [&]() { Bytes x = file; x.push_back(0); hx::writeFile(p, x); }, []() {}, true});
        real(c, o, D, fs);
    }
    K.unchanged(c);
}

// ------------------------------------------------------------------ C28: the block cipher itself reports an error
#include <atomic>
namespace {
struct FailCipher { ref::Cipher r; std::atomic<long> calls{0}; long failAt = -1; bool sticky = false; };
int failEnc(const unsigned char *in, unsigned char *out, const void *k) {
    FailCipher *f = (FailCipher *)k;
    long n = f->calls++;
    if (n == f->failAt || (f->sticky && f->failAt >= 0 && n >= f->failAt)) return 0;
    uint8_t t[16]; f->r.enc(in, t); memcpy(out, t, 16);
    return 1;
}
int failDec(const unsigned char *in, unsigned char *out, const void *k) {
    FailCipher *f = (FailCipher *)k;
    long n = f->calls++;
    if (n == f->failAt || (f->sticky && f->failAt >= 0 && n >= f->failAt)) return 0;
    uint8_t t[16]; f->r.dec(in, t); memcpy(out, t, 16);
    return 1;
}
}
SCENARIO(cipher_fail, "cipher.fail") {
    static const char *const kn[] = {"GCM", "GCM decryption", "parallel GCM", "parallel GCM decryption", "CBC", "CBC decryption", "FF1", "FF1 decryption", "FF3", "FF3 decryption",
                                     "FF1-CMAC", "FF1-CMAC decryption", "FF3-GMAC", "FF3-GMAC decryption", "GCM file", "GCM file decryption"};
    int kind = (int)(c.idx % 16);
    FailCipher F; F.r = ref::Cipher(c.rng.below(2), c.rng.bytes(16));
    bool dec = kind % 2;
    FDir D(c);
    size_t n = c.rng.below(3) ? c.rng.below(200) : 16 * c.rng.below(20);
    Bytes iv = kind == 4 || kind == 5 ? c.rng.bytes(16) : ivOf(c.rng), aad = c.rng.bytes(c.rng.below(30)), m = c.rng.data(n);
    unsigned radix = 2 + (unsigned)c.rng.below(35);
    std::string dg = digits(c.rng, radix, kind >= 8 && kind != 10 && kind != 11 ? 2 + c.rng.below(std::min<size_t>(ref::ff3max(radix) - 1, 30)) : 2 + c.rng.below(60));
    Bytes tw = c.rng.bytes(kind < 12 && c.rng.below(2) ? 8 : 8 + c.rng.below(9));
    // every step is one library call: 1 = success, 0 = error; data = what the whole sequence produced
    Bytes data;
    std::function<int(std::vector<int> &)> go;
    WBCRYPTO_gcm_context *g = nullptr; WBCRYPTO_fpe_context *fp = nullptr; WBCRYPTO_fpe_mac_context *fm = nullptr; WBCRYPTO_gcmfile_context *gf = nullptr;
    if (kind == 14 || kind == 15) hx::writeFile(D.p("in"), m);
    auto once = [&](std::vector<int> &st) {
        data.clear();
        if (kind < 4) {
            bool fresh = !g;
            if (fresh) { g = WBCRYPTO_gcm_init(&F, failEnc); st.push_back(g != nullptr); if (!g) return; }
            Bytes o(n), t(16);
            st.push_back(WBCRYPTO_gcm_setiv(g, iv.data(), iv.size()));
            if (!st.back()) return;
            st.push_back(WBCRYPTO_gcm_aad(g, aad.data(), aad.size()));
            if (!st.back()) return;
            st.push_back(kind == 0 ? WBCRYPTO_gcm_encrypt(g, m.data(), n, o.data(), n) : kind == 1 ? WBCRYPTO_gcm_decrypt(g, m.data(), n, o.data(), n)
                         : kind == 2 ? WBCRYPTO_gcm_parallel_encrypt(g, m.data(), n, o.data(), n) : WBCRYPTO_gcm_parallel_decrypt(g, m.data(), n, o.data(), n));
            if (!st.back()) return;
            st.push_back(WBCRYPTO_gcm_finish(g, t.data(), 16));
            data = o; data.insert(data.end(), t.begin(), t.end());
        } else if (kind < 6) {
            Bytes in = dec ? ref::cbcEnc(F.r, iv, ref::pkcs7(m)) : m, o((n + 15) / 16 * 16), v = iv;
            size_t use = 0;
            st.push_back(dec ? WBCRYPTO_cbc128_decrypt(in.data(), in.size(), o.data(), o.size(), &use, &F, v.data(), failDec) : WBCRYPTO_cbc128_encrypt(in.data(), in.size(), o.data(), o.size(), &use, &F, v.data(), failEnc));
            if (st.back()) data.assign(o.begin(), o.begin() + (long)std::min(use, o.size()));
        } else if (kind < 10) {
            if (!fp) { fp = WBCRYPTO_fpe_init(tw.data(), tw.size(), radix, &F, failEnc); st.push_back(fp != nullptr); if (!fp) return; }
            Buf o(c, "output", dg.size() + 1);
            int rc = kind == 6 ? WBCRYPTO_ff1_encrypt(fp, dg.c_str(), o.c()) : kind == 7 ? WBCRYPTO_ff1_decrypt(fp, dg.c_str(), o.c()) : kind == 8 ? WBCRYPTO_ff3_encrypt(fp, dg.c_str(), o.c()) : WBCRYPTO_ff3_decrypt(fp, dg.c_str(), o.c());
            st.push_back(rc);
            if (rc) data = o.bytes(dg.size());
        } else if (kind < 14) {
            if (!fm) { fm = WBCRYPTO_fpe_mac_init(tw.data(), tw.size(), radix, &F, failEnc); st.push_back(fm != nullptr); if (!fm) return; }
            Buf o(c, "output", dg.size() + 1); Bytes t(16); size_t tl = 0;
            int rc = kind == 10 ? WBCRYPTO_ff1_cmac_encrypt(fm, dg.c_str(), o.c()) : kind == 11 ? WBCRYPTO_ff1_cmac_decrypt(fm, dg.c_str(), o.c()) : kind == 12 ? WBCRYPTO_ff3_gmac_encrypt(fm, dg.c_str(), o.c()) : WBCRYPTO_ff3_gmac_decrypt(fm, dg.c_str(), o.c());
            st.push_back(rc);
            if (!rc) return;
            st.push_back(kind < 12 ? WBCRYPTO_ff1_cmac_finish(fm, (char *)t.data(), &tl) : WBCRYPTO_ff3_gmac_finish(fm, (char *)t.data(), &tl));
            data = o.bytes(dg.size()); data.insert(data.end(), t.begin(), t.end());
        } else {
            if (!gf) { gf = WBCRYPTO_gcmfile_init(&F, failEnc); st.push_back(gf != nullptr); if (!gf) return; }
            st.push_back(WBCRYPTO_gcmfile_setiv(gf, iv.data(), iv.size())); if (!st.back()) return;
            st.push_back(WBCRYPTO_gcmfile_aad(gf, aad.data(), aad.size())); if (!st.back()) return;
            st.push_back(dec ? WBCRYPTO_gcmfile_decrypt(gf, (char *)D.p("in").c_str(), (char *)D.p("out").c_str()) : WBCRYPTO_gcmfile_encrypt(gf, (char *)D.p("in").c_str(), (char *)D.p("out").c_str()));
            if (st.back()) hx::readFile(D.p("out"), data);
        }
    };
    auto drop = [&]() { if (g) WBCRYPTO_gcm_free(g); if (fp) WBCRYPTO_fpe_free(fp); if (fm) WBCRYPTO_fpe_mac_free(fm); if (gf) WBCRYPTO_gcmfile_free(gf); g = nullptr; fp = nullptr; fm = nullptr; gf = nullptr; };
    struct Drop { std::function<void()> f; ~Drop() { f(); } } dropAtEnd{drop};
    if (kind == 15) {           // something genuine to decrypt
        kind = 14; dec = false; std::vector<int> st; once(st); hx::writeFile(D.p("in"), data); drop(); kind = 15; dec = true;
    }
    std::vector<int> st;
    F.calls = 0;
    once(st);
    for (int x : st) if (x != 1) c.fail("cipher-fault-free", "%s failed without any error of the block cipher", kn[kind]);
    long calls = F.calls;
    Bytes want = data;
    for (long k = 0; k < calls; k++) {
        if (calls > 60 && k > 20 && k < calls - 20 && c.rng.below((uint64_t)calls) > 20) continue;
        bool again = c.rng.below(2);
        if (!again) drop();
        else if (k == 0) drop();            // creation included at least once
        F.calls = 0; F.failAt = k; F.sticky = c.rng.below(2);
        int fds = hx::openFds();
        st.clear();
        once(st);
        bool hit = F.calls > k;             // a kept context needs fewer calls than a new one
        F.failAt = -1;
        for (int x : st) if (x != 0 && x != 1) c.fail("fault-return", "%s: a call returned %d", kn[kind], x);
        if (hit && st.back() != 0) c.fail("cipher-error-ignored", "%s reported success although the block cipher failed at its call %ld of %ld", kn[kind], k + 1, calls);
        if (!hit && (st.back() != 1 || data != want)) c.fail("fault-residue", "%s gives a wrong result after an earlier error of the block cipher", kn[kind]);
        if (hx::openFds() != fds) c.fail("leak-fd", "%s: open descriptors after an error of the block cipher", kn[kind]);
        for (auto &x : hx::listDir(D.d)) if (x != "in" && x != "out") c.fail("stray-file", "%s: file '%s' left behind", kn[kind], x.c_str());
        if (hit) { c.stat(strf("block cipher errors in %s", kn[kind]).c_str()); c.observe(hx::mix((uint64_t)c.idx * 4096 + (uint64_t)k)); }
    }
    st.clear(); once(st);
    if (st.back() != 1 || data != want) c.fail("fault-residue", "%s gives a wrong result after earlier errors of the block cipher", kn[kind]);
    if (c.idx % 160 < 16) c.sample(strf("%s: %ld calls of the block cipher, an error injected at each", kn[kind], calls));
}
