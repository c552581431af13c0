// C09 parallel GCM under hostile schedules, C24 contexts used from many threads.
//
// Operations run in threads of their own with exactly the inputs prepared by the
// main thread; results are compared after the join.  The concurrent run comes
// BEFORE anything single-threaded touches the same code in the case, so that
// state initialised lazily by the first caller is initialised by racing callers.
#include "lib.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
extern "C" {
#include <wbcrypto/se_wbsm4.h>
#include <WBMatrix/WBMatrix.h>
void hx_gomp_seed(uint64_t) __attribute__((weak));
void hx_gomp_stats(long *, long *) __attribute__((weak));
int omp_get_thread_num(void);
}
using namespace kit;

static void gseed(uint64_t s) { if (hx_gomp_seed) hx_gomp_seed(s); }
static void perturb(Rng &r) {
    switch (r.below(8)) {
    case 0: sched_yield(); break;
    case 1: usleep((useconds_t)r.below(50)); break;
    case 2: for (volatile int i = (int)r.below(3000); i > 0; i--) ; break;
    default: break;
    }
}
// ------------------------------------------------------------------ C09
// The cipher of a GCM context wrapped so that every call inside the parallel
// region is logged and delayed.  Relaxed atomics only: no ordering is added.
struct Slow {
    block128_f real; void *key; uint64_t seed; int pct;
    std::atomic<unsigned> ticket{0};
    uint8_t log[4096];
};
static int slowBlock(const unsigned char in[16], unsigned char out[16], const void *k) {
    Slow *s = (Slow *)k;
    unsigned n = s->ticket.fetch_add(1, std::memory_order_relaxed);
    if (n < sizeof s->log) s->log[n] = (uint8_t)omp_get_thread_num();
    uint64_t h = hx::mix(s->seed + n);
    if ((int)(h % 100) < s->pct) {
        if (h >> 20 & 1) sched_yield();
        else if (h >> 21 & 1) usleep((useconds_t)(h >> 30) % 40);
        else for (volatile int i = (int)((h >> 30) % 1500); i > 0; i--) ;
    }
    int r = s->real(in, out, s->key);
    if ((h >> 40 & 7) == 0) sched_yield();
    return r;
}
static block128_f blockFn(Kind k) {
    return k == AES ? (block128_f)WBCRYPTO_aes_encrypt : k == SM4 ? (block128_f)WBCRYPTO_sm4_encrypt : k == WBAES ? (block128_f)WBCRYPTO_wbaes_encrypt : (block128_f)WBCRYPTO_wbsm4_encrypt;
}
static void *keyPtr(const Key &K) { return K.kind == AES ? (void *)K.aes : K.kind == SM4 ? (void *)K.sm4 : K.kind == WBAES ? (void *)K.wbaes : (void *)K.wbsm4; }

struct Part { size_t off, n; bool par; };
struct Msg {
    Bytes iv, aad, in; bool dec, inplace; std::vector<Part> parts;
    Bytes want, wantTag;                // set by reference
    Bytes out, tag; int rc = 1; bool inputKept = true;
};
struct Job {
    Slow slow; WBCRYPTO_gcm_context *g = nullptr; std::vector<Msg> msgs; uint64_t seed; uint64_t trace = 0; unsigned calls = 0; int teams = 0;
};
static void doJob(Job &j) {
    gseed(j.seed);
    Rng r(j.seed);
    for (auto &m : j.msgs) {
        perturb(r);
        Bytes buf = m.in;               // read by the library, written only when in place
        m.out.assign(m.in.size(), 0xEE);
        uint8_t *o = m.inplace ? buf.data() : m.out.data();
        m.rc &= WBCRYPTO_gcm_setiv(j.g, m.iv.data(), m.iv.size()) == 1;
        if (!m.aad.empty()) m.rc &= WBCRYPTO_gcm_aad(j.g, m.aad.data(), m.aad.size()) == 1;
        j.slow.ticket.store(0, std::memory_order_relaxed);
        for (auto &p : m.parts) {
            auto f = p.par ? (m.dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt) : (m.dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt);
            m.rc &= f(j.g, buf.data() + p.off, p.n, o + p.off, p.n) == 1;
        }
        unsigned n = j.slow.ticket.load(std::memory_order_relaxed);
        j.calls += n;
        uint8_t seen = 0;
        for (unsigned i = 0; i < n && i < sizeof j.slow.log; i++) seen |= (uint8_t)(1 << (j.slow.log[i] & 7));
        j.trace = hx::hashBytes(j.slow.log, n < sizeof j.slow.log ? n : sizeof j.slow.log, j.trace + n);
        for (int b = 0; b < 8; b++) j.teams += seen >> b & 1;
        m.tag.assign(16, 0);
        m.rc &= WBCRYPTO_gcm_finish(j.g, m.tag.data(), 16) == 1;
        if (m.inplace) m.out = buf; else m.inputKept = buf == m.in;
    }
}
static void *jobMain(void *p) { doJob(*(Job *)p); return nullptr; }

static void parallelGcm(Case &c, int nthreads) {
    std::vector<std::unique_ptr<Job>> jobs;
    std::vector<std::unique_ptr<Key>> own;
    std::vector<const Key *> keys;
    bool common = c.rng.below(2);
    for (int i = 0; i < nthreads; i++) {
        Kind kd = pickKind(c);
        const Key *K;
        if (i && common) K = keys[0];
        else if (kd == AES || kd == SM4) { own.push_back(make(c, kd, Rng(c.rng.u64()))); K = own.back().get(); }
        else K = &key(c, kd, c.idx / 24);
        keys.push_back(K);
        std::unique_ptr<Job> j(new Job);
        j->slow.real = blockFn(K->kind); j->slow.key = keyPtr(*K); j->slow.seed = c.rng.u64(); j->slow.pct = (int)c.rng.below(60);
        j->seed = c.rng.u64();
        j->g = WBCRYPTO_gcm_init(&j->slow, slowBlock);
        c.check(j->g != nullptr, "gcm-init", "gcm_init returned NULL");
        int nm = 1 + (int)c.rng.below(3);
        for (int k = 0; k < nm; k++) {
            Msg m;
            m.iv = ivOf(c.rng);
            if (c.rng.below(4) == 0) { Bytes j0 = c.rng.bytes(16); uint32_t ctr = 0xffffffffu - (uint32_t)c.rng.below(20); for (int b = 0; b < 4; b++) j0[12 + b] = (uint8_t)(ctr >> (24 - 8 * b)); m.iv = ref::ivForJ0(K->r, j0.data()); }
            m.aad = c.rng.data(c.rng.below(40));
            size_t len = c.rng.below(5) == 0 ? c.rng.below(3) * 8 : c.rng.below(6) == 0 ? c.rng.below(4000) : c.rng.below(500);
            if (c.idx < 40 && k == 0) len = (size_t)(c.idx * 5 + i);
            m.in = c.rng.data(len);
            m.dec = c.rng.below(2); m.inplace = c.rng.below(2);
            size_t off = 0;
            while (off < len && c.rng.below(3) == 0) { size_t n = 16 * c.rng.below((len - off) / 16 + 1); m.parts.push_back({off, n, c.rng.below(3) != 0}); off += n; }
            m.parts.push_back({off, len - off, c.rng.below(5) != 0});
            ref::Gcm g(K->r, m.iv);
            m.want = g.ctr(m.in);
            m.wantTag = g.tag(m.aad, m.dec ? m.in : m.want);
            j->msgs.push_back(std::move(m));
        }
        jobs.push_back(std::move(j));
    }
    if (nthreads == 1) doJob(*jobs[0]);
    else {
        std::vector<pthread_t> th((size_t)nthreads);
        for (int i = 0; i < nthreads; i++) if (pthread_create(&th[(size_t)i], nullptr, jobMain, jobs[(size_t)i].get())) _exit(91);
        for (auto &t : th) pthread_join(t, nullptr);
    }
    for (int i = 0; i < nthreads; i++) {
        Job &j = *jobs[(size_t)i];
        const Key &K = *keys[(size_t)i];
        for (auto &m : j.msgs) {
            size_t np = 0; for (auto &p : m.parts) np += p.par;
            std::string what = strf("%s parallel GCM %s of %zu bytes in %zu calls (%zu parallel)%s, %d contexts at once", kname[K.kind], m.dec ? "decryption" : "encryption", m.in.size(), m.parts.size(), np, m.inplace ? " in place" : "", nthreads);
            c.eqn(m.rc, 1, "par-return", what + ": return values");
            c.eq(m.out.data(), m.want.data(), m.want.size(), "par-data", what);
            c.eq(m.tag.data(), m.wantTag.data(), 16, "par-tag", what + ": tag");
            c.check(m.inputKept, "input-modified", "parallel GCM changed its input");
            if (c.idx % 60 == 11) c.sample(what + strf(", schedule of %u block calls", j.calls));
        }
        c.observe(j.trace, j.calls > 2);
        c.stat("block calls in or around parallel regions", j.calls);
        c.stat("messages", (long)j.msgs.size());
        c.stat("team members seen at work (sum over messages)", j.teams);
        K.unchanged(c);
        WBCRYPTO_gcm_free(j.g);
    }
    if (hx_gomp_stats) { long r, n; static long pr = 0, pn = 0; hx_gomp_stats(&r, &n); c.stat("parallel regions", r - pr); c.stat("threads started for regions", n - pn); pr = r; pn = n; }
}
SCENARIO(par_single, "par.single") { parallelGcm(c, 1); }
SCENARIO(par_many, "par.many") { parallelGcm(c, 2 + (int)c.rng.below(3)); }

// ------------------------------------------------------------------ C24
struct Op { std::string name; std::function<Bytes()> run; Bytes want; bool haveWant = false; Bytes got; };
struct Worker { std::vector<Op> ops; uint64_t seed; std::atomic<int> *gate; int n; int id; std::atomic<unsigned> *ticket; uint8_t *log; };
static void *workerMain(void *p) {
    Worker &w = *(Worker *)p;
    gseed(w.seed);
    Rng r(w.seed);
    w.gate->fetch_add(1, std::memory_order_relaxed);
    while (w.gate->load(std::memory_order_relaxed) < w.n) sched_yield();      // start together
    for (auto &o : w.ops) {
        perturb(r);
        unsigned a = w.ticket->fetch_add(1, std::memory_order_relaxed); if (a < 1024) w.log[a] = (uint8_t)w.id;
        o.got = o.run();
        a = w.ticket->fetch_add(1, std::memory_order_relaxed); if (a < 1024) w.log[a] = (uint8_t)(w.id | 128);
    }
    return nullptr;
}
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes str(const std::string &s) { return Bytes(s.begin(), s.end()); }
static Op op(const std::string &n, std::function<Bytes()> f) { Op o; o.name = n; o.run = f; return o; }
static Op op(const std::string &n, Bytes want, std::function<Bytes()> f) { Op o; o.name = n; o.run = f; o.want = want; o.haveWant = true; return o; }
static Bytes rcTail(Bytes b, int rc) { b.push_back((uint8_t)(rc == 1)); return b; }

static void runAll(Case &c, std::vector<Worker> &ws, const std::string &what) {
    std::atomic<int> gate{0};
    std::atomic<unsigned> ticket{0};
    uint8_t log[1024];
    std::vector<pthread_t> th(ws.size());
    int no = 0;
    for (auto &w : ws) { w.gate = &gate; w.n = (int)ws.size(); w.seed = c.rng.u64(); w.id = no++; w.ticket = &ticket; w.log = log; }
    for (size_t i = 0; i < ws.size(); i++) if (pthread_create(&th[i], nullptr, workerMain, &ws[i])) _exit(91);
    for (auto &t : th) pthread_join(t, nullptr);
    uint64_t h = 7;
    for (auto &w : ws)
        for (auto &o : w.ops) {
            if (o.haveWant && o.got != o.want)
                c.fail("thread-result", "%s: %s from %zu threads gave %s, expected %s", what.c_str(), o.name.c_str(), ws.size(), hex(o.got).c_str(), hex(o.want).c_str());
            Bytes alone = o.run();
            if (o.got != alone)
                c.fail("thread-result", "%s: %s gave %s among %zu threads but %s alone", what.c_str(), o.name.c_str(), hex(o.got).c_str(), ws.size(), hex(alone).c_str());
            h = hx::hashBytes(o.got.data(), o.got.size(), h);
            c.stat(("op " + o.name).c_str());
        }
    unsigned n = ticket.load(), live = 0, overlap = 0;
    for (unsigned i = 0; i < n && i < 1024; i++) { if (log[i] & 128) live--; else { if (live) overlap++; live++; } }
    c.observe(hx::hashBytes(log, n < 1024 ? n : 1024, h));
    c.stat("operations started while another was running", overlap);
    c.stat("threads", (long)ws.size());
}
// ---- operations on a keyed context K (shared or owned)
static Bytes encB(const Key &K, const Bytes &in) {
    Bytes o(16);
    int rc = blockFn(K.kind)(in.data(), o.data(), keyPtr(K));
    return rcTail(o, rc);
}
static Bytes decB(const Key &K, const Bytes &in) {
    Bytes o(16); int rc;
    if (K.kind == AES) rc = WBCRYPTO_aes_decrypt(in.data(), o.data(), K.aes);
    else if (K.kind == SM4) rc = WBCRYPTO_sm4_decrypt(in.data(), o.data(), K.sm4);
    else rc = WBCRYPTO_wbsm4_decrypt(in.data(), o.data(), K.wbsm4d);
    return rcTail(o, rc);
}
static Bytes cbcE(const Key &K, const Bytes &iv, const Bytes &m) {
    Bytes o((m.size() + 15) / 16 * 16), v = iv; size_t use = 0;
    int rc = K.cbcEnc(m.data(), m.size(), o.data(), o.size(), &use, v.data());
    o.resize(use <= o.size() ? use : 0);
    return rcTail(o, rc);
}
static Bytes cbcD(const Key &K, const Bytes &iv, const Bytes &ct, bool inpl) {
    Bytes o(ct.size()), v = iv; size_t use = 0;
    if (inpl) o = ct;
    int rc = K.cbcDec(inpl ? o.data() : ct.data(), ct.size(), o.data(), o.size(), &use, v.data());
    o.resize(use <= o.size() ? use : 0);
    return rcTail(o, rc);
}
static Bytes gcmRun(WBCRYPTO_gcm_context *g, const Bytes &iv, const Bytes &aad, const Bytes &m, bool dec, bool par, bool inpl) {
    if (!g) return Bytes();
    Bytes o(m.size() + 16);
    if (inpl) std::copy(m.begin(), m.end(), o.begin());
    int rc = WBCRYPTO_gcm_setiv(g, iv.data(), iv.size());
    rc &= WBCRYPTO_gcm_aad(g, aad.data(), aad.size());
    auto f = par ? (dec ? WBCRYPTO_gcm_parallel_decrypt : WBCRYPTO_gcm_parallel_encrypt) : (dec ? WBCRYPTO_gcm_decrypt : WBCRYPTO_gcm_encrypt);
    rc &= f(g, inpl ? o.data() : m.data(), m.size(), o.data(), m.size());
    rc &= WBCRYPTO_gcm_finish(g, o.data() + m.size(), 16);
    WBCRYPTO_gcm_free(g);
    return rcTail(o, rc);
}
static Bytes fpeRun(const Key &K, const Bytes &tw, unsigned radix, const std::string &m, bool ff3, bool dec) {
    WBCRYPTO_fpe_context *x = K.fpe((const char *)tw.data(), tw.size(), radix);
    if (!x) return Bytes();
    std::string o(m.size() + 1, '\1');
    auto f = ff3 ? (dec ? WBCRYPTO_ff3_decrypt : WBCRYPTO_ff3_encrypt) : (dec ? WBCRYPTO_ff1_decrypt : WBCRYPTO_ff1_encrypt);
    int rc = f(x, m.c_str(), &o[0]);
    WBCRYPTO_fpe_free(x);
    return rcTail(str(o), rc);
}
static Bytes macRun(const Key &K, const Bytes &tw, unsigned radix, const std::string &m, bool ff3, bool dec) {
    WBCRYPTO_fpe_mac_context *x = K.fpemac((const char *)tw.data(), tw.size(), radix);
    if (!x) return Bytes();
    std::string o(m.size() + 1, '\1'); Bytes tag(16); size_t tl = 0;
    auto f = ff3 ? (dec ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff3_gmac_encrypt) : (dec ? WBCRYPTO_ff1_cmac_decrypt : WBCRYPTO_ff1_cmac_encrypt);
    int rc = f(x, m.c_str(), &o[0]);
    rc &= (ff3 ? WBCRYPTO_ff3_gmac_finish : WBCRYPTO_ff1_cmac_finish)(x, (char *)tag.data(), &tl);
    WBCRYPTO_fpe_mac_free(x);
    return rcTail(cat(str(o), tag), rc);
}
static Bytes fileRun(const Key &K, const Bytes &iv, const Bytes &m, const std::string &base) {
    std::string a = base + ".in", b = base + ".enc", d = base + ".out";
    hx::writeFile(a, m);
    int rc = 1;
    Bytes ct, back;
    for (int i = 0; i < 2; i++) {
        WBCRYPTO_gcmfile_context *g = K.gcmfile();
        if (!g) return Bytes();
        rc &= WBCRYPTO_gcmfile_setiv(g, iv.data(), iv.size());
        rc &= i ? WBCRYPTO_gcmfile_decrypt(g, (char *)b.c_str(), (char *)d.c_str()) : WBCRYPTO_gcmfile_encrypt(g, (char *)a.c_str(), (char *)b.c_str());
        WBCRYPTO_gcmfile_free(g);
    }
    hx::readFile(b, ct); hx::readFile(d, back);
    rc &= back == m;
    unlink(a.c_str()); unlink(b.c_str()); unlink(d.c_str());
    return rcTail(ct, rc);
}
static Bytes okStr(const std::string &s) { Bytes b = str(s); b.push_back(0); b.push_back(1); return b; }
static unsigned pickRadix(Rng &r) { static const unsigned x[] = {10, 2, 36, 12, 26, 16}; return x[r.below(6)]; }

// one random operation on a keyed context
static Op keyOp(Case &c, const Key *K, int thread) {
    Rng &r = c.rng;
    std::string kn = kname[K->kind];
    switch (r.below(11)) {
    case 0: case 1: { Bytes p = r.bytes(16), w(16); K->r.enc(p.data(), w.data()); w.push_back(1); return op(kn + " block encryption", w, [=] { return encB(*K, p); }); }
    case 2: if (K->canDecrypt()) { Bytes p = r.bytes(16), w(16); K->r.dec(p.data(), w.data()); w.push_back(1); return op(kn + " block decryption", w, [=] { return decB(*K, p); }); }
        // fallthrough
    case 3: { Bytes iv = r.bytes(16), m = r.data(r.below(200)); Bytes w = ref::cbcEnc(K->r, iv, ref::pkcs7(m)); w.push_back(1); return op(kn + " CBC encryption", w, [=] { return cbcE(*K, iv, m); }); }
    case 4: if (K->canDecrypt()) { Bytes iv = r.bytes(16), m = r.data(1 + r.below(200)); if (m.size() % 16 == 0) m.push_back(7); Bytes ct = ref::cbcEnc(K->r, iv, ref::pkcs7(m)); m.push_back(1); bool inpl = r.below(2); return op(kn + " CBC decryption", m, [=] { return cbcD(*K, iv, ct, inpl); }); }
        // fallthrough
    case 5: case 6: {
        Bytes iv = ivOf(r), aad = r.data(r.below(40)), m = r.data(r.below(300)); bool dec = r.below(2), par = r.below(3) == 0, inpl = r.below(2);
        ref::Gcm g(K->r, iv);
        Bytes o = g.ctr(m), w = cat(o, g.tag(aad, dec ? m : o)); w.push_back(1);
        return op(kn + (par ? " parallel GCM" : " GCM"), w, [=] { return gcmRun(K->gcm(), iv, aad, m, dec, par, inpl); });
    }
    case 7: { unsigned rx = pickRadix(r); Bytes tw = r.data(r.below(20)); std::string m = digits(r, rx, 6 + r.below(30)); bool dec = r.below(2); return op(kn + " FF1", okStr(ref::ff1(K->r, tw, rx, m, dec)), [=] { return fpeRun(*K, tw, rx, m, false, dec); }); }
    case 8: { unsigned rx = pickRadix(r); Bytes tw = r.data(8); std::string m = digits(r, rx, 6 + r.below(ref::ff3max(rx) - 6)); bool dec = r.below(2); return op(kn + " FF3", okStr(ref::ff3(K->r, tw, rx, m, dec)), [=] { return fpeRun(*K, tw, rx, m, true, dec); }); }
    case 9: { unsigned rx = pickRadix(r); Bytes tw = r.data(8); std::string m = digits(r, rx, 6 + r.below(12)); bool dec = r.below(2), ff3 = r.below(2); return op(kn + (ff3 ? " FF3-GMAC" : " FF1-CMAC"), [=] { return macRun(*K, tw, rx, m, ff3, dec); }); }
    default: {
        Bytes iv = ivOf(r), m = r.data(r.below(600)); std::string base = hx::scratch() + strf("/t%d-%llu", thread, (unsigned long long)r.u64());
        return op(kn + " file", [=] { return fileRun(*K, iv, m, base); });
    }
    }
}
template <class X, class F> static Bytes wbFile(X *e, X *d, F run, const Bytes &m, const std::string &base, int (*enc)(X *, char *, char *), int (*dec)(X *, char *, char *)) {
    std::string a = base + ".a", b = base + ".b", k = base + ".k"; Bytes back;
    hx::writeFile(a, m);
    int rc = e && d && run(e) && enc(e, (char *)a.c_str(), (char *)b.c_str()) == 1 && run(d) && dec(d, (char *)b.c_str(), (char *)k.c_str()) == 1;
    if (rc) { hx::readFile(k, back); rc = back == m; }
    unlink(a.c_str()); unlink(b.c_str()); unlink(k.c_str());
    return rcTail(m, rc);
}
static Op eeOp(Case &c, const Ee *E, int thread) {
    Rng &r = c.rng;
    if (r.below(4) == 0) {
        Bytes iv = ivOf(r), m = r.data(r.below(600)), w = m; w.push_back(1); std::string base = hx::scratch() + strf("/e%d-%llu", thread, (unsigned long long)r.u64());
        return op("wbgcm-ee file", w, [=] {
            auto x = WBCRYPTO_wbaes_wbgcm_ee_init(E->t), y = WBCRYPTO_wbaes_wbgcm_ee_init(E->t);
            Bytes o = wbFile(x, y, [&](WBCRYPTO_wbgcm_ee_context *g) { return WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv.data(), iv.size()) == 1; }, m, base, WBCRYPTO_wbaes_wbgcmfile_ee_encrypt, WBCRYPTO_wbaes_wbgcmfile_ee_decrypt);
            WBCRYPTO_wbaes_wbgcm_ee_free(x); WBCRYPTO_wbaes_wbgcm_ee_free(y);
            return o;
        });
    }
    Bytes iv = ivOf(r), aad = r.data(r.below(40)), m = r.data(r.below(300)); bool dec = r.below(2);
    ref::Gcm g(E->r, iv);
    Bytes o = g.ctr(m), w = cat(o, g.tag(aad, dec ? m : o)); w.push_back(1);
    return op("wbgcm-ee", w, [=] {
        auto x = WBCRYPTO_wbaes_wbgcm_ee_init(E->t); Bytes b(m.size() + 16);
        if (!x) return Bytes();
        int rc = WBCRYPTO_wbaes_wbgcm_ee_setiv(x, iv.data(), iv.size());
        rc &= WBCRYPTO_wbaes_wbgcm_ee_aad(x, aad.data(), aad.size());
        rc &= (dec ? WBCRYPTO_wbaes_wbgcm_ee_decrypt : WBCRYPTO_wbaes_wbgcm_ee_encrypt)(x, m.data(), m.size(), b.data(), m.size());
        rc &= WBCRYPTO_wbaes_wbgcm_ee_finish(x, b.data() + m.size(), 16);
        WBCRYPTO_wbaes_wbgcm_ee_free(x);
        return rcTail(b, rc);
    });
}
static Op maskOp(Case &c, const Mask *M, int thread) {
    Rng &r = c.rng;
    if (r.below(4) == 0) {
        Bytes iv = ivOf(r), m = r.data(r.below(600)), w = m; w.push_back(1); std::string base = hx::scratch() + strf("/m%d-%llu", thread, (unsigned long long)r.u64());
        return op("wbgcm-mask file", w, [=] {
            auto x = WBCRYPTO_wbaes_wbgcm_mask_init(M->e), y = WBCRYPTO_wbaes_wbgcm_mask_init(M->d);
            Bytes o = wbFile(x, y, [&](WBCRYPTO_wbgcm_mask_context *g) { return WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv.data(), iv.size()) == 1; }, m, base, WBCRYPTO_wbaes_wbgcmfile_mask_encrypt, WBCRYPTO_wbaes_wbgcmfile_mask_decrypt);
            WBCRYPTO_wbaes_wbgcm_mask_free(x); WBCRYPTO_wbaes_wbgcm_mask_free(y);
            return o;
        });
    }
    Bytes iv = ivOf(r), aad = r.data(r.below(40)), m = r.data(r.below(300));
    return op("wbgcm-mask", [=] {
        Bytes b(m.size() + 16), back(m.size() + 16); int rc = 1;
        for (int i = 0; i < 2; i++) {
            auto x = WBCRYPTO_wbaes_wbgcm_mask_init(i ? M->d : M->e);
            if (!x) return Bytes();
            rc &= WBCRYPTO_wbaes_wbgcm_mask_setiv(x, iv.data(), iv.size());
            rc &= WBCRYPTO_wbaes_wbgcm_mask_aad(x, aad.data(), aad.size());
            Bytes &o = i ? back : b; const Bytes &in = i ? b : m;
            rc &= (i ? WBCRYPTO_wbaes_wbgcm_mask_decrypt : WBCRYPTO_wbaes_wbgcm_mask_encrypt)(x, in.data(), m.size(), o.data(), m.size());
            rc &= WBCRYPTO_wbaes_wbgcm_mask_finish(x, o.data() + m.size(), 16);
            WBCRYPTO_wbaes_wbgcm_mask_free(x);
        }
        rc &= memcmp(back.data(), m.data(), m.size()) == 0 && memcmp(&back[m.size()], &b[m.size()], 16) == 0;
        return rcTail(b, rc);
    });
}
SCENARIO(thr_shared, "thr.shared") {
    int what = (int)(c.idx % 8);
    std::unique_ptr<Key> own; const Key *K = nullptr; const Ee *E = nullptr; Mask *M = nullptr;
    WBCRYPTO_se_wbsm4_context *S = nullptr; ref::Cipher sr;
    switch (what) {
    case 0: case 6: own = make(c, AES, Rng(c.rng.u64())); K = own.get(); break;
    case 1: case 7: own = make(c, SM4, Rng(c.rng.u64())); K = own.get(); break;
    case 2: K = &key(c, WBAES, c.idx / 24); break;
    case 3: K = &key(c, WBSM4, c.idx / 24); break;
    case 4: E = &ee(c, c.idx / 24); break;
    default: if (c.idx / 8 % 3) M = &mask(c, c.idx / 24); else {
        size_t kl; Bytes k = hx::keyOf(c.rng, kl); sr = ref::Cipher(true, hx::normKey(k));
        S = WBCRYPTO_se_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE); seedLib(c.rng);
        c.check(S && WBCRYPTO_se_wbsm4_gen_table(S, k.data(), kl) == 1, "key-setup", "se_wbsm4 keying failed");
    }
    }
    std::vector<Worker> ws(2 + c.rng.below(5));
    for (size_t i = 0; i < ws.size(); i++) {
        int n = 3 + (int)c.rng.below(10);
        for (int k = 0; k < n; k++) {
            if (K) {
                if (K->kind == WBSM4 && c.rng.below(12) == 0) {     // exporting a shared key is a read, too
                    WBCRYPTO_wbsm4_context *x = K->wbsm4;
                    ws[i].ops.push_back(op("wbsm4 export", [=] { char *s = nullptr; Bytes b; if (WBCRYPTO_wbsm4_key2bytes(x, &s) == 1 && s) { uint32_t n; memcpy(&n, s, 4); b.assign((uint8_t *)s, (uint8_t *)s + n); } free(s); return b; }));
                } else ws[i].ops.push_back(keyOp(c, K, (int)i));
            } else if (E) ws[i].ops.push_back(eeOp(c, E, (int)i));
            else if (M) ws[i].ops.push_back(maskOp(c, M, (int)i));
            else { Bytes p = c.rng.bytes(16), w(16); sr.enc(p.data(), w.data()); w.push_back(1); ws[i].ops.push_back(op("se_wbsm4 block encryption", w, [=] { Bytes o(16); int rc = WBCRYPTO_se_wbsm4_encrypt(p.data(), o.data(), S); return rcTail(o, rc); })); }
        }
    }
    std::string nm = K ? kname[K->kind] : E ? "wbgcm-ee" : M ? "wbgcm-mask" : "se_wbsm4";
    runAll(c, ws, "threads sharing one " + nm + " context");
    if (K) K->unchanged(c);
    if (E) E->unchanged(c);
    if (M) M->unchanged(c);
    if (S) WBCRYPTO_se_wbsm4_context_free(S);
    if (c.idx % 30 < 3) { std::string s; for (auto &w : ws) { s += "["; for (size_t i = 0; i < w.ops.size() && i < 4; i++) s += w.ops[i].name + "; "; s += "] "; } c.sample("shared " + nm + ": " + s); }
}
// ---- everything owned by the thread itself
// every matrix function of one size that draws no random numbers (their source is global), on operands of the thread
static Bytes matCommon(const void *p, size_t n) { return Bytes((const uint8_t *)p, (const uint8_t *)p + n); }
#define MATN(n, ...) static Bytes mat##n(uint64_t seed) { \
    Rng q(seed); Bytes o; M##n a, b, p, t, s, k, u, ui; V##n v, w, x; memset(&a, 0, sizeof a); b = p = t = s = k = u = ui = a; memset(&v, 0, sizeof v); w = x = v; \
    initM##n(&a); initM##n(&b); identityM##n(&u); initV##n(&v); initV##n(&w); \
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { setbitM##n(&a, i, j, (int)q.below(2)); if (q.below(2)) flipbitM##n(&b, i, j); if (j > i && q.below(2)) flipbitM##n(&u, i, j); } \
    uint64_t rnd[2] = {q.u64(), q.u64()}; if (n < 8) rnd[0] &= 15; memcpy(&v, rnd, sizeof v); \
    MatMulMatM##n(a, b, &p); MatAddMatM##n(a, p, &s); MattransM##n(s, &t); copyM##n(t, &k); invsM##n(u, &ui); MatMulVecM##n(k, v, &w); VecAddVecV##n(v, w, &x); \
    for (const M##n *m : {&p, &s, &t, &k, &ui}) o = cat(o, matCommon(m, sizeof *m)); \
    o = cat(o, matCommon(&w, sizeof w)); o = cat(o, matCommon(&x, sizeof x)); \
    o.push_back((uint8_t)isinvertM##n(a)); o.push_back((uint8_t)isinvertM##n(u)); o.push_back((uint8_t)isequalM##n(t, k)); o.push_back((uint8_t)isequalV##n(v, x)); o.push_back((uint8_t)readbitM##n(k, n - 1, (int)q.below(n))); \
    M##n one, id; memset(&one, 0, sizeof one); id = one; MatMulMatM##n(u, ui, &one); identityM##n(&id); o.push_back((uint8_t)isequalM##n(one, id)); \
    Aff##n f, fi, mx; memset(&f, 0, sizeof f); fi = mx = f; f.Mat = u; f.Vec = v; fi.Mat = ui; MatMulVecM##n(ui, v, &fi.Vec); affinemixM##n(f, fi, &mx); o.push_back((uint8_t)isequalM##n(mx.Mat, id)); \
    __VA_ARGS__; return o; }
MATN(4, { uint8_t z = (uint8_t)rnd[0]; o.push_back(affineU4(fi, affineU4(f, z)) == z); o.push_back((uint8_t)xorU4(z)); o.push_back((uint8_t)HWU4(z)); o.push_back(MatMulNumM4(a, z)); M8 m; MatrixcomM4to8(a, b, &m); o = cat(o, matCommon(&m, sizeof m)); })
MATN(8, { uint8_t z = (uint8_t)rnd[0]; o.push_back(affineU8(fi, affineU8(f, z)) == z); o.push_back((uint8_t)xorU8(z)); o.push_back((uint8_t)HWU8(z)); o.push_back(MatMulNumM8(a, z)); M32 m; M64 m64; M128 m128; MatrixcomM8to32(a, b, p, t, &m); MatrixcomM8to64(a, b, p, t, s, k, u, ui, &m64); MatrixcomM8to128(a, b, p, t, s, k, u, ui, t, s, k, u, ui, a, b, p, &m128); o = cat(o, matCommon(&m, sizeof m)); o = cat(o, matCommon(&m64, sizeof m64)); o = cat(o, matCommon(&m128, sizeof m128)); })
MATN(16, { uint16_t z = (uint16_t)rnd[0]; o.push_back(affineU16(fi, affineU16(f, z)) == z); o.push_back((uint8_t)xorU16(z)); o.push_back((uint8_t)HWU16(z)); o.push_back((uint8_t)MatMulNumM16(a, z)); M64 m64; M128 m128; MatrixcomM16to64(a, b, p, t, &m64); MatrixcomM16to128(a, b, p, t, s, k, u, ui, &m128); o = cat(o, matCommon(&m64, sizeof m64)); o = cat(o, matCommon(&m128, sizeof m128)); })
MATN(32, { uint32_t z = (uint32_t)rnd[0]; o.push_back(affineU32(fi, affineU32(f, z)) == z); o.push_back((uint8_t)xorU32(z)); o.push_back((uint8_t)HWU32(z)); o.push_back((uint8_t)MatMulNumM32(a, z)); })
MATN(64, { uint64_t z = rnd[0]; o.push_back(affineU64(fi, affineU64(f, z)) == z); o.push_back((uint8_t)xorU64(z)); o.push_back((uint8_t)HWU64(z)); o.push_back((uint8_t)MatMulNumM64(a, z)); })
MATN(128, { uint64_t y[2], z[2]; affineU128(f, rnd, y); affineU128(fi, y, z); o.push_back(z[0] == rnd[0] && z[1] == rnd[1]); o.push_back((uint8_t)xorU128(rnd)); o.push_back((uint8_t)HWU128(rnd)); })
static Op ownOp(Case &c, int thread, Key *WB4) {
    Rng &r = c.rng;
    switch (r.below(13)) {
    case 0: { Bytes m = r.data(r.below(400)); size_t cut = r.below(m.size() + 1); return op("SM3", ref::sm3(m), [=] { Bytes o(32); WBCRYPTO_sm3_context x; WBCRYPTO_sm3_init(&x); WBCRYPTO_sm3_update(&x, m.data(), cut); WBCRYPTO_sm3_update(&x, m.data() + cut, m.size() - cut); WBCRYPTO_sm3_final(&x, o.data()); return o; }); }
    case 1: { Bytes m = r.data(r.below(400)); return op("SM3 one-shot", ref::sm3(m), [=] { Bytes o(32); WBCRYPTO_sm3(m.data(), m.size(), o.data()); return o; }); }
    case 2: case 3: case 4: {       // create, key, use, free
        Kind kd = r.below(2) ? AES : SM4; size_t kl; Bytes k = hx::keyOf(r, kl);
        auto K = std::make_shared<Key>(); K->kind = kd; K->norm = hx::normKey(k); K->r = ref::Cipher(kd == SM4, K->norm);
        Op inner = keyOp(c, K.get(), thread);
        auto f = inner.run;
        Op o = inner; o.name = "own " + inner.name;
        o.run = [=] {
            if (kd == AES) { K->aes = WBCRYPTO_aes_context_init(); if (!K->aes || WBCRYPTO_aes_init_key(K->aes, k.data(), kl) != 1) return Bytes(); }
            else { K->sm4 = WBCRYPTO_sm4_context_init(); if (!K->sm4 || WBCRYPTO_sm4_init_key(K->sm4, k.data(), kl) != 1) return Bytes(); }
            Bytes b = f();
            if (kd == AES) WBCRYPTO_aes_context_free(K->aes); else WBCRYPTO_sm4_context_free(K->sm4);
            K->aes = nullptr; K->sm4 = nullptr;
            return b;
        };
        return o;
    }
    case 5: {
        size_t kl; Bytes k = hx::keyOf(r, kl); bool sm4 = r.below(2), ff3 = r.below(2), dec = r.below(2); int kind = (int)r.below(3);
        std::string v = kind == 0 ? digits(r, 10, 11) : kind == 1 ? digits(r, 10, 17) + "X" : "";
        if (kind == 2) { size_t n = 2 + r.below(4); for (size_t i = 0; i < n; i++) { unsigned cp = 0x4E00 + (unsigned)r.below(20736); v += (char)(0xe0 | cp >> 12); v += (char)(0x80 | (cp >> 6 & 63)); v += (char)(0x80 | (cp & 63)); } }
        bool smp = r.below(2); std::string s;
        if (kind == 2) { for (size_t i = 0; i < v.size(); i += 3) s += i ? std::string("*") : v.substr(0, 3); } else { s = v; for (size_t i = 3; i < 8; i++) s[i] = '*'; }
        return op(strf("masking of %s", kind == 0 ? "phone" : kind == 1 ? "ID card" : "Chinese text"), [=] {
            WBCRYPTO_fpe_app_context a; memset(&a, 0, sizeof a);
            char ci[8], fx[8]; strcpy(ci, sm4 ? "sm4" : "aes"); strcpy(fx, ff3 ? "ff3" : "ff1");
            if (WBCRYPTO_fpe_app_init(&a, k.data(), kl, ci, fx) != 1) return Bytes();
            std::string in = v, o(v.size() + 1, '\1'), b(v.size() + 1, '\1'), sm = s; int rc;
            if (smp) {
                auto e = kind == 0 ? WBCRYPTO_fpe_encrypt_phone_with_sample : kind == 1 ? WBCRYPTO_fpe_encrypt_idcard_with_sample : WBCRYPTO_fpe_encrypt_cn_utf8_with_sample;
                auto d = kind == 0 ? WBCRYPTO_fpe_decrypt_phone_with_sample : kind == 1 ? WBCRYPTO_fpe_decrypt_idcard_with_sample : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample;
                rc = e(&a, &in[0], &o[0], &sm[0]); rc &= d(&a, &o[0], &b[0], &sm[0]);
            } else {
                auto e = kind == 0 ? WBCRYPTO_fpe_encrypt_phone : kind == 1 ? WBCRYPTO_fpe_encrypt_idcard : WBCRYPTO_fpe_encrypt_cn_utf8;
                auto d = kind == 0 ? WBCRYPTO_fpe_decrypt_phone : kind == 1 ? WBCRYPTO_fpe_decrypt_idcard : WBCRYPTO_fpe_decrypt_cn_utf8;
                rc = e(&a, &in[0], &o[0]); rc &= d(&a, &o[0], &b[0]);
            }
            if (sm4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)a.cipher_ctx); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)a.cipher_ctx);
            rc &= b.substr(0, v.size()) == v;
            Bytes res = rcTail(str(o), rc);
            if (rc != 1) return str("round trip failed");
            return res;
        });
    }
    case 6: if (r.below(2)) {       // key fill functions
        size_t n = r.below(40); Bytes m = r.data(n), w = hx::normKey(m), z = m; z.resize(16, 0);
        Bytes want = cat(w, z); want.push_back(1);
        return op("key padding", want, [=] { Bytes o(32); int ok = WBCRYPTO_key_padding_pkcs7(m.data(), n, &o[0]) == 16 && WBCRYPTO_key_padding_zeros(m.data(), n, &o[16]) == 16; return rcTail(o, ok); });
    }
        // fallthrough
    case 10: { Bytes m = r.data(r.below(100)); return op("padding", [=] { Bytes s = m, d((m.size() + 16) / 16 * 16), b(d.size() + 1); size_t n = WBCRYPTO_padding_pkcs7_merge(s.data(), s.size(), d.data()); Bytes x = d; size_t k = WBCRYPTO_padding_pkcs7_separate(x.data(), n, b.data()); Bytes o = cat(d, b); o.push_back((uint8_t)n); o.push_back((uint8_t)k); return o; }); }
    case 7: { Bytes m = r.data(1 + r.below(600)); std::string f = hx::scratch() + strf("/ks%d-%llu", thread, (unsigned long long)r.u64()); Bytes w = m; w.push_back(1); return op("key store", w, [=] { Bytes b(m.size()); int rc = WBCRYPTO_keystore_key_to_file(m.data(), m.size(), (char *)f.c_str()); rc &= WBCRYPTO_keystore_file_to_key(b.data(), b.size(), (char *)f.c_str()); unlink(f.c_str()); return rcTail(b, rc); }); }
    case 8: {                       // matrix arithmetic on the thread's own operands
        uint64_t seed = r.u64();
        return op("matrix arithmetic", [=] {
            Rng q(seed); Bytes o;
            M32 a, b, p, t; for (int i = 0; i < 32; i++) { a.M[i] = q.u32(); b.M[i] = q.u32(); }
            MatMulMatM32(a, b, &p); MattransM32(p, &t);
            M8 e, f, g; for (int i = 0; i < 8; i++) { e.M[i] = (uint8_t)q.u32(); f.M[i] = (uint8_t)q.u32(); }
            MatMulMatM8(e, f, &g);
            M128 x, y; memset(&x, 0, sizeof x); for (int i = 0; i < 128; i++) { x.M[i][0] = q.u64() ; x.M[i][1] = q.u64(); }
            MattransM128(x, &y);
            V32 v, w; v.V = q.u32(); MatMulVecM32(a, v, &w);
            M128 y2, y3; V128 v1, w1; memset(&y2, 0, sizeof y2); v1.V[0] = q.u64(); v1.V[1] = q.u64();
            MatMulMatM128(x, y, &y2); MatMulVecM128(x, v1, &w1); MatAddMatM128(x, y, &y3);
            identityM32(&b); for (int i = 0; i < 32; i++) b.M[i] |= q.u32() & ((1u << (31 - i)) - 1); M32 bi; invsM32(b, &bi);
            M8 ei; identityM8(&e); for (int i = 0; i < 8; i++) e.M[i] |= (uint8_t)(q.u32() & ((1u << (7 - i)) - 1)); invsM8(e, &ei);
            Aff32 af; af.Mat = a; af.Vec = v; uint32_t au = affineU32(af, q.u32());
            M128 big; MatrixcomM32to128(a, b, p, t, &big);
            o.insert(o.end(), (uint8_t *)&w1, (uint8_t *)(&w1 + 1)); o.insert(o.end(), (uint8_t *)&y2, (uint8_t *)(&y2 + 1)); o.insert(o.end(), (uint8_t *)&y3, (uint8_t *)(&y3 + 1)); o.insert(o.end(), (uint8_t *)&bi, (uint8_t *)(&bi + 1)); o.insert(o.end(), (uint8_t *)&ei, (uint8_t *)(&ei + 1)); o.insert(o.end(), (uint8_t *)&au, (uint8_t *)(&au + 1)); o.insert(o.end(), (uint8_t *)&big, (uint8_t *)(&big + 1));
            o.push_back((uint8_t)isinvertM32(p)); o.push_back((uint8_t)HWU32(q.u32()));
            o.insert(o.end(), (uint8_t *)&t, (uint8_t *)(&t + 1)); o.insert(o.end(), (uint8_t *)&g, (uint8_t *)(&g + 1)); o.insert(o.end(), (uint8_t *)&y, (uint8_t *)(&y + 1)); o.insert(o.end(), (uint8_t *)&w, (uint8_t *)(&w + 1));
            return o;
        });
    }
    case 11: {
        static Bytes (*const f[])(uint64_t) = {mat4, mat8, mat16, mat32, mat64, mat128}; static const int n[] = {4, 8, 16, 32, 64, 128};
        int w = (int)r.below(6); uint64_t seed = r.u64();
        return op(strf("matrix arithmetic of %d bits", n[w]), [=] { return f[w](seed); });
    }
    case 12: {                      // a key file of the thread's own
        auto img = std::make_shared<Bytes>(WB4->snap); uint32_t n; memcpy(&n, img->data(), 4); img->resize(n);
        std::string f = hx::scratch() + strf("/kf%d-%llu", thread, (unsigned long long)r.u64());
        Bytes p = r.bytes(16), w(16); WB4->r.enc(p.data(), w.data()); w.push_back(1);
        return op("wbsm4 key file", w, [=] {
            WBCRYPTO_wbsm4_context *x = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, 0), *y = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, 1); Bytes o(16);
            int rc = x && y && WBCRYPTO_wbsm4_bytes2key(x, (const char *)img->data()) == 1 && WBCRYPTO_wbsm4_key2file(x, (char *)f.c_str()) == 1 && WBCRYPTO_wbsm4_file2key(y, (char *)f.c_str()) == 1;
            if (rc) WBCRYPTO_wbsm4_encrypt(p.data(), o.data(), y);
            WBCRYPTO_wbsm4_context_free(x); WBCRYPTO_wbsm4_context_free(y); unlink(f.c_str());
            return rcTail(o, rc);
        });
    }
    default: {                      // import an exported white-box key into a context of its own
        auto img = std::make_shared<Bytes>(WB4->snap); uint32_t n; memcpy(&n, img->data(), 4); img->resize(n);
        Bytes p = r.bytes(16), w(16); WB4->r.enc(p.data(), w.data()); w.push_back(1);
        int du = (int)r.below(4);
        return op("wbsm4 import", w, [=] { WBCRYPTO_wbsm4_context *x = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, du); Bytes o(16); if (!x) return Bytes(); int rc = WBCRYPTO_wbsm4_bytes2key(x, (const char *)img->data()); rc &= WBCRYPTO_wbsm4_encrypt(p.data(), o.data(), x); WBCRYPTO_wbsm4_context_free(x); return rcTail(o, rc); });
    }
    }
}
SCENARIO(thr_own, "thr.independent") {
    Key *W = const_cast<Key *>(&key(c, WBSM4, c.idx / 24));
    std::vector<Worker> ws(2 + c.rng.below(5));
    for (size_t i = 0; i < ws.size(); i++) {
        int n = 3 + (int)c.rng.below(10);
        for (int k = 0; k < n; k++) ws[i].ops.push_back(ownOp(c, (int)i, W));
    }
    runAll(c, ws, "threads with contexts of their own");
    if (c.idx % 30 < 3) { std::string s; for (auto &w : ws) { s += "["; for (size_t i = 0; i < w.ops.size() && i < 4; i++) s += w.ops[i].name + "; "; s += "] "; } c.sample("independent: " + s); }
}
