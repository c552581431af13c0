// C12 file round trip and container, C13 tampering
#include "file.h"
#include "fault.h"
#include <sys/stat.h>
#include <unistd.h>
namespace kit {
const char *const fname[F_N] = {"gcmfile-aes", "gcmfile-sm4", "gcmfile-wbaes", "gcmfile-wbsm4", "wbgcmfile-ee", "wbgcmfile-mask"};
FileMode::FileMode(Case &c, FKind k, long slot) : kind(k) {
    if (k == F_AES || k == F_SM4) { own = make(c, k == F_AES ? AES : SM4, Rng(c.rng.u64())); K = own.get(); }
    else if (k == F_WBAES) K = &key(c, WBAES, slot);
    else if (k == F_WBSM4) K = &key(c, WBSM4, slot);
    else if (k == F_EE) E = &ee(c, slot);
    else M = &mask(c, slot);
    reopen(c);
}
static void closeAll(FileMode &f) {
    if (f.g) WBCRYPTO_gcmfile_free(f.g);
    if (f.e) WBCRYPTO_wbaes_wbgcm_ee_free(f.e);
    if (f.me) WBCRYPTO_wbaes_wbgcm_mask_free(f.me);
    if (f.md) WBCRYPTO_wbaes_wbgcm_mask_free(f.md);
    f.g = nullptr; f.e = nullptr; f.me = f.md = nullptr;
}
FileMode::~FileMode() { closeAll(*this); }
void FileMode::reopen(Case &c) {
    closeAll(*this);
    if (K) g = K->gcmfile();
    else if (E) e = WBCRYPTO_wbaes_wbgcm_ee_init(E->t);
    else { me = WBCRYPTO_wbaes_wbgcm_mask_init(M->e); md = WBCRYPTO_wbaes_wbgcm_mask_init(M->d); }
    if (!g && !e && !(me && md)) c.fail("file-init", "%s: no context", fname[kind]);
}
int FileMode::start(Case &c, bool dec, const Bytes &iv, const Bytes &aad) {
    Buf ib(c, "iv", iv), ab(c, "aad", aad);
    int a, b = 1;
    bool callAad = !aad.empty() || c.rng.below(2);
    if (g) { a = WBCRYPTO_gcmfile_setiv(g, ib.p(), iv.size()); if (callAad) b = WBCRYPTO_gcmfile_aad(g, ab.p(), aad.size()); }
    else if (e) { a = WBCRYPTO_wbaes_wbgcm_ee_setiv(e, ib.p(), iv.size()); if (callAad) b = WBCRYPTO_wbaes_wbgcm_ee_aad(e, ab.p(), aad.size()); }
    else { auto x = dec ? md : me; a = WBCRYPTO_wbaes_wbgcm_mask_setiv(x, ib.p(), iv.size()); if (callAad) b = WBCRYPTO_wbaes_wbgcm_mask_aad(x, ab.p(), aad.size()); }
    c.check(a == 1 && b == 1, "file-setiv-return", "setiv/aad of a file mode did not report success");
    ib.mustBeUnchanged(); ab.mustBeUnchanged();
    return 1;
}
int FileMode::run(Case &c, bool dec, const std::string &in, const std::string &out) {
    Bytes a(in.begin(), in.end()), b(out.begin(), out.end());
    a.push_back(0); b.push_back(0);
    Buf ib(c, "input path", a), ob(c, "output path", b);
    int rc;
    if (g) rc = dec ? WBCRYPTO_gcmfile_decrypt(g, ib.c(), ob.c()) : WBCRYPTO_gcmfile_encrypt(g, ib.c(), ob.c());
    else if (e) rc = dec ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(e, ib.c(), ob.c()) : WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(e, ib.c(), ob.c());
    else rc = dec ? WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(md, ib.c(), ob.c()) : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(me, ib.c(), ob.c());
    ib.mustBeUnchanged(); ob.mustBeUnchanged();
    return rc;
}
Bytes FileMode::expect(Case &c, const Bytes &iv, const Bytes &aad, const Bytes &m) {
    Bytes ct, tag(16);
    if (M) {
        auto x = WBCRYPTO_wbaes_wbgcm_mask_init(M->e);
        WBCRYPTO_wbaes_wbgcm_mask_setiv(x, iv.data(), iv.size());
        WBCRYPTO_wbaes_wbgcm_mask_aad(x, aad.data(), aad.size());
        ct.resize(m.size());
        WBCRYPTO_wbaes_wbgcm_mask_encrypt(x, m.data(), m.size(), ct.data(), ct.size());
        WBCRYPTO_wbaes_wbgcm_mask_finish(x, tag.data(), 16);
        WBCRYPTO_wbaes_wbgcm_mask_free(x);
    } else {
        ref::Gcm gr(K ? K->r : E->r, iv);
        ct = gr.ctr(m);
        tag = gr.tag(aad, ct);
    }
    Bytes o = tag;
    uint64_t n = m.size();
    o.insert(o.end(), (uint8_t *)&n, (uint8_t *)&n + 8);
    o.insert(o.end(), ct.begin(), ct.end());
    return o;
}
}
using namespace kit;

static long slotOf(Case &c) { return c.idx / 24; }
// fresh directory for this case, optionally reached by a very long path
struct Dir {
    std::string d, top;
    std::vector<std::string> chain;
    std::map<std::string, Bytes> by;            // files that are none of the operation's business
    Dir(Case &c, bool deep = false) {
        top = d = hx::scratch() + strf("/f%ld", c.idx);
        mkdir(d.c_str(), 0755); chain.push_back(d);
        if (deep) {
            size_t want = 200 + c.rng.below(c.rng.below(2) ? 900 : 3500);
            while (d.size() < want) { d += "/" + std::string(1 + c.rng.below(240), (char)('a' + c.rng.below(26))); if (d.size() > 3700) { d.resize(3700); } if (mkdir(d.c_str(), 0755)) { d = chain.back(); break; } chain.push_back(d); }
        }
    }
    ~Dir() {
        for (auto &n : hx::listDir(d)) ::unlink((d + "/" + n).c_str());
        for (size_t i = chain.size(); i-- > 0;) rmdir(chain[i].c_str());
    }
    void bystander(Case &c, const std::string &n) { Bytes b = c.rng.bytes(c.rng.below(90)); hx::writeFile(d + "/" + n, b); by[n] = b; }
    void only(Case &c, std::set<std::string> want, const char *when) {
        for (auto &n : hx::listDir(d)) if (!want.count(n) && !by.count(n)) c.fail("stray-file", "%s: unexpected file '%s' left behind", when, n.c_str());
        for (auto &k : by) { Bytes g; if (!hx::readFile(d + "/" + k.first, g) || g != k.second) c.fail("bystander-file", "%s changed or removed the unrelated file '%s'", when, k.first.c_str()); }
    }
};
static size_t fileLen(Case &c) {
    if (c.idx < 420) return (size_t)c.idx;
    switch (c.rng.below(8)) {
    case 0: return 128 * c.rng.below(40) + c.rng.below(3);
    case 1: return 128 * (1 + c.rng.below(40)) - 1;
    case 2: return 4096 * c.rng.below(6) + c.rng.below(33) ;
    case 3: return c.idx % 40 == 0 ? (hx::isSan() ? 30000 : 300000 + c.rng.below(700000)) : 65536 + c.rng.below(40);
    case 4: return c.rng.below(40000);
    default: return c.rng.below(1200);
    }
}
SCENARIO(file_roundtrip, "file.roundtrip") {
    FKind k = (FKind)((c.idx + c.idx / 24) % F_N);
    FileMode f(c, k, slotOf(c));
    Dir D(c, c.rng.below(4) == 0);
    int rounds = 1 + (int)c.rng.below(3);
    for (int i = 0; i < rounds; i++) {
        size_t n = i ? c.rng.below(700) : fileLen(c);
        Bytes m = c.rng.data(n), iv = ivOf(c.rng), aad = c.rng.below(3) ? c.rng.data(c.rng.below(60)) : Bytes();
        std::string ben = c.rng.below(3) ? "enc" : "a longer name with.dots and blanks.enc", bin = "in", bdec = "dec";
        if (c.rng.below(4) == 0) ben = std::string(1 + c.rng.below(249), 'n');
        if (c.rng.below(4) == 0) bin = ben + ".tmp";                 // the source is called as a temporary file might be
        else if (c.rng.below(3) == 0) D.bystander(c, ben + ".tmp");
        if (c.rng.below(8) == 0) bdec = ben + ".dec";
        if (c.rng.below(4) == 0 && ben.size() < 240) for (const char *x : {".bak", "~", ".enc", ".part"}) if (c.rng.below(2)) D.bystander(c, ben + x);
        std::string in = D.d + "/" + bin, enc = D.d + "/" + ben, dec = D.d + "/" + bdec;
        std::string what = strf("%s, %zu byte file, iv %zu, aad %zu", fname[k], n, iv.size(), aad.size());
        hx::writeFile(in, m);
        // earlier, longer contents of the output files must disappear
        if (c.rng.below(3) == 0) { hx::writeFile(enc, c.rng.bytes(n + 100)); hx::writeFile(dec, c.rng.bytes(n + 100)); }
        if (c.rng.below(4) == 0) f.reopen(c);
        int fds = hx::openFds();
        c.eqn(f.op(c, false, iv, aad, in, enc), 1, "file-enc-return", what + ": encrypt");
        Bytes got, want = f.expect(c, iv, aad, m);
        if (!hx::readFile(in, got) || got != m) c.fail("input-modified", "%s: encrypting changed the source file", what.c_str());
        if (!hx::readFile(enc, got)) c.fail("file-missing", "%s: no output file", what.c_str());
        c.eqn((long long)got.size(), (long long)want.size(), "file-format", what + ": container size");
        c.eq(got.data(), want.data(), want.size(), "file-format", what + ": container (tag | length | ciphertext)");
        D.only(c, {bin, ben, bdec}, "encrypt");
        if (c.rng.below(4) == 0) f.reopen(c);
        c.eqn(f.op(c, true, iv, aad, enc, dec), 1, "file-dec-return", what + ": decrypt");
        if (!hx::readFile(dec, got)) c.fail("file-missing", "%s: no decrypted file", what.c_str());
        c.eqn((long long)got.size(), (long long)n, "file-roundtrip", what + ": size of the decrypted file");
        c.eq(got.data(), m.data(), n, "file-roundtrip", what);
        if (!hx::readFile(enc, got) || got != want) c.fail("input-modified", "%s: decrypting changed the encrypted file", what.c_str());
        D.only(c, {bin, ben, bdec}, "decrypt");
        c.eqn(hx::openFds(), fds, "leak-fd", what + ": open files after encrypt and decrypt");
        c.observe(hx::hashBytes(want.data(), want.size()), n > 0);
        ::unlink(enc.c_str()); ::unlink(dec.c_str()); ::unlink(in.c_str());
        for (auto &k : D.by) ::unlink((D.d + "/" + k.first).c_str());
        D.by.clear();
        if (c.idx % 100 == 37) c.sample(what + ": " + hex(want, 40));
    }
    c.stat(strf("files %s", fname[k]).c_str(), rounds);
    if (f.K && c.idx % 4 == 0) f.K->unchanged(c);
    if (f.E) f.E->unchanged(c);
    if (f.M && c.idx % 4 == 0) f.M->unchanged(c);
}

struct Tamper {
    Case &c; FileMode &f; Dir &D; Bytes iv, aad, good; std::string what; long n = 0;
    void refuse(const Bytes &file, const Bytes &iv2, const Bytes &aad2, const std::string &how, FileMode *other = nullptr) {
        hx::writeFile(D.d + "/t", file);
        FileMode &g = other ? *other : f;
        int rc = g.op(c, true, iv2, aad2, D.d + "/t", D.d + "/o");
        n++;
        if (rc != 0) c.fail("tamper-accepted", "%s: %s: decryption returned %d", what.c_str(), how.c_str(), rc);
    }
    void accept() {
        hx::writeFile(D.d + "/t", good);
        int rc = f.op(c, true, iv, aad, D.d + "/t", D.d + "/o");
        if (rc != 1) c.fail("good-refused", "%s: the unmodified file was refused after refused ones", what.c_str());
    }
};
SCENARIO(file_tamper, "file.tamper") {
    FKind k = (FKind)((c.idx + c.idx / 24) % F_N);
    FileMode f(c, k, slotOf(c));
    Dir D(c);
    size_t n = c.idx < 60 ? (size_t)c.idx * 3 : c.rng.below(5) ? c.rng.below(300) : 126 + c.rng.below(5);
    Bytes m = c.rng.data(n), iv = ivOf(c.rng), aad = c.rng.below(3) ? c.rng.data(1 + c.rng.below(40)) : Bytes();
    hx::writeFile(D.d + "/in", m);
    c.eqn(f.op(c, false, iv, aad, D.d + "/in", D.d + "/e"), 1, "file-enc-return", "encrypt");
    Bytes e;
    hx::readFile(D.d + "/e", e);
    Tamper T{c, f, D, iv, aad, e, strf("%s, %zu byte file", fname[k], n)};
    T.accept();
    // every byte of tag, length and ciphertext
    for (size_t i = 0; i < e.size(); i++) {
        Bytes t = e;
        t[i] ^= (uint8_t)(c.rng.below(2) ? 1u << c.rng.below(8) : 1 + c.rng.below(255));
        T.refuse(t, iv, aad, strf("byte %zu of the file (%s) changed", i, i < 16 ? "tag" : i < 24 ? "length" : "ciphertext"));
    }
    // every bit of tag and length
    if (c.idx % 3 == 0)
        for (size_t i = 0; i < 24 * 8; i++) { Bytes t = e; t[i / 8] ^= (uint8_t)(1u << (i % 8)); T.refuse(t, iv, aad, strf("bit %zu of the header changed", i)); }
    // truncation at every length
    for (size_t i = 0; i < e.size(); i++) { if (e.size() > 150 && i % 7 != (size_t)c.idx % 7 && i > 26) continue; T.refuse(Bytes(e.begin(), e.begin() + (long)i), iv, aad, strf("file truncated to %zu bytes", i)); }
    auto setLen = [](Bytes &t, uint64_t v) { memcpy(&t[16], &v, 8); };
    for (int r = 0; r < 6; r++) {           // extension, also with matching length fields
        Bytes t = e, x = c.rng.below(2) ? c.rng.bytes(1 + c.rng.below(300)) : Bytes(1 + c.rng.below(40), 0);
        t.insert(t.end(), x.begin(), x.end());
        T.refuse(t, iv, aad, strf("%zu bytes appended", x.size()));
        setLen(t, n + x.size());
        T.refuse(t, iv, aad, strf("%zu bytes appended and length adjusted", x.size()));
        if (n) {
            size_t cut = 1 + c.rng.below(n);
            t.assign(e.begin(), e.end() - (long)cut);
            setLen(t, n - cut);
            T.refuse(t, iv, aad, strf("%zu bytes cut off and length adjusted", cut));
        }
        t = e; setLen(t, c.rng.below(2) ? c.rng.u64() : (uint64_t)-1 - c.rng.below(3));
        T.refuse(t, iv, aad, "length field replaced");
    }
    if (n >= 32) {
        Bytes t = e; size_t a = 24 + 16 * c.rng.below(n / 16 - 1);
        for (int i = 0; i < 16; i++) std::swap(t[a + i], t[a + 16 + i]);
        if (t != e) T.refuse(t, iv, aad, "two ciphertext blocks swapped");
        t = e; t[24] ^= 0x80; t[n >= 17 ? 24 + 16 : 25] ^= 0x80;
        T.refuse(t, iv, aad, "two blocks changed alike");
    }
    { Bytes t = e; memset(t.data(), 0, 16); if (t != e) T.refuse(t, iv, aad, "tag zeroed"); }
    for (int keep = 1; keep < 16; keep += 1) {       // a prefix of the right tag is not enough
        Bytes t = e;
        for (int i = keep; i < 16; i++) t[i] = (uint8_t)~t[i];
        T.refuse(t, iv, aad, strf("only the first %d tag bytes right", keep));
        t = e;
        for (int i = 0; i < 16 - keep; i++) t[i] = (uint8_t)~t[i];
        T.refuse(t, iv, aad, strf("only the last %d tag bytes right", keep));
    }
    for (int r = 0; r < 6; r++) {
        Bytes v = iv; v[c.rng.below(v.size())] ^= (uint8_t)(1u << c.rng.below(8));
        T.refuse(e, v, aad, "another IV");
        v = iv; v.push_back(0); T.refuse(e, v, aad, "IV one byte longer");
        Bytes a = aad;
        if (a.empty()) a.push_back((uint8_t)c.rng.below(256)); else a[c.rng.below(a.size())] ^= (uint8_t)(1u << c.rng.below(8));
        T.refuse(e, iv, a, "another AAD");
        a = aad; a.push_back(0); T.refuse(e, iv, a, "AAD one byte longer");
        if (!aad.empty()) { a = aad; a.pop_back(); T.refuse(e, iv, a, "AAD one byte shorter"); T.refuse(e, iv, Bytes(), "AAD missing"); }
    }
    if (k == F_AES || k == F_SM4) {
        FileMode g(c, k, slotOf(c));
        if (g.K->norm != f.K->norm) T.refuse(e, iv, aad, "another key", &g);
        FileMode h(c, k == F_AES ? F_SM4 : F_AES, slotOf(c));
        T.refuse(e, iv, aad, "another cipher", &h);
    }
    T.refuse(Bytes(), iv, aad, "empty file");
    T.accept();
    c.stat("modified files refused", T.n);
    for (long i = 0; i < T.n; i++) c.observe(hx::mix((uint64_t)c.idx * 100003 + (uint64_t)i));
    if (c.idx % 20 == 3) c.sample(T.what + strf(": %ld modifications all refused, original accepted", T.n));
    D.only(c, {"in", "e", "t", "o"}, "tamper");
}

// files beyond 2 GB and 4 GB, held in memory as repeated pages; the "cipher" maps every block
// to one constant so that ciphertext stays repetitive, and the tag has a closed form
static const uint8_t hugeC[16] = {0x3a, 0x91, 0x07, 0xee, 0x54, 0xc8, 0x12, 0x6d, 0xb3, 0x2f, 0x80, 0x19, 0xf5, 0x4c, 0xd6, 0x71};
static int constBlock(const unsigned char *, unsigned char *out, const void *) { memcpy(out, hugeC, 16); return 1; }
SCENARIO(file_huge, "file.huge") {
    using ref::G128; using ref::gmul;
    uint64_t zeros = (c.idx % 2 ? 1ull << 31 : 1ull << 32) + 16 * (long long)c.rng.range(-20, 300);
    Bytes tail = c.rng.bytes(1000 + c.rng.below(8000)), iv = c.rng.bytes(12), aad = c.rng.bytes(c.rng.below(40));
    uint64_t n = zeros + tail.size();
    std::string in = VFS "in", enc = VFS "enc", dec = VFS "dec", what = strf("%llu byte file", (unsigned long long)n);
    hx::vclear();
    hx::vfile(in, true)->write(zeros, (const char *)tail.data(), tail.size());
    hx::vfile(in, false)->settle();
    int dummy = 0;
    auto g = WBCRYPTO_gcmfile_init(&dummy, constBlock);
    if (!g) c.fail("file-init", "no context");
    auto start = [&]() { c.eqn(WBCRYPTO_gcmfile_setiv(g, iv.data(), iv.size()), 1, "file-setiv-return", "setiv"); c.eqn(WBCRYPTO_gcmfile_aad(g, aad.data(), aad.size()), 1, "file-setiv-return", "aad"); };
    // reference tag: GHASH over aad, `zeros / 16` equal blocks, the tail, the lengths
    G128 H = ref::gload(hugeC), acc = ref::ghash(H, G128{0, 0}, aad.data(), aad.size()), X = ref::gload(hugeC);
    G128 hn{1ull << 63, 0}, sum{0, 0};                  // H^k and H + .. + H^k, k built up from the top bit
    uint64_t blocks = zeros / 16;
    for (int b = 63; b >= 0; b--) {
        G128 t = gmul(sum, hn); sum.hi ^= t.hi; sum.lo ^= t.lo; hn = gmul(hn, hn);
        if (blocks >> b & 1) { G128 u = sum; u.hi ^= 1ull << 63; sum = gmul(u, H); hn = gmul(hn, H); }
    }
    G128 a1 = gmul(acc, hn), a2 = gmul(X, sum); acc.hi = a1.hi ^ a2.hi; acc.lo = a1.lo ^ a2.lo;
    Bytes ct = tail; for (size_t i = 0; i < ct.size(); i++) ct[i] ^= hugeC[i % 16];
    acc = ref::ghash(H, acc, ct.data(), ct.size());
    acc.hi ^= 8 * (uint64_t)aad.size(); acc.lo ^= 8 * n; acc = gmul(acc, H);
    uint8_t tag[16]; ref::gstore(acc, tag); for (int i = 0; i < 16; i++) tag[i] ^= hugeC[i];
    start();
    int rc = WBCRYPTO_gcmfile_encrypt(g, (char *)in.c_str(), (char *)enc.c_str());
    if (!hx::vfile(enc, false) || hx::g_vforeign) { c.stat("huge files skipped (library does not open files with fopen)"); WBCRYPTO_gcmfile_free(g); hx::vclear(); return; }
    c.eqn(rc, 1, "file-enc-return", what + ": encrypt");
    auto e = hx::vfile(enc, false);
    c.eqn((long long)e->size, (long long)(n + 24), "file-format", what + ": container size");
    Bytes hd(24), w(tag, tag + 16); e->read(0, (char *)hd.data(), 24);
    w.insert(w.end(), (uint8_t *)&n, (uint8_t *)&n + 8);
    c.eq(hd.data(), w.data(), 24, "file-format", what + ": tag and length");
    Bytes chunk(1 << 16), rep(1 << 16), big(ct.size());
    for (size_t i = 0; i < rep.size(); i++) rep[i] = hugeC[i % 16];
    for (uint64_t p = 0; p < zeros; p += chunk.size()) { size_t k = (size_t)std::min<uint64_t>(chunk.size(), zeros - p); e->read(24 + p, (char *)chunk.data(), k); if (memcmp(chunk.data(), rep.data(), k)) c.fail("file-format", "%s: ciphertext wrong near offset %llu", what.c_str(), (unsigned long long)p); }
    e->read(24 + zeros, (char *)big.data(), big.size());
    c.eq(big.data(), ct.data(), ct.size(), "file-format", what + ": end of the ciphertext");
    start();
    c.eqn(WBCRYPTO_gcmfile_decrypt(g, (char *)enc.c_str(), (char *)dec.c_str()), 1, "file-dec-return", what + ": decrypt");
    auto d = hx::vfile(dec, false);
    c.eqn(d ? (long long)d->size : -1, (long long)n, "file-roundtrip", what + ": size of the decrypted file");
    rep.assign(rep.size(), 0);
    for (uint64_t p = 0; p < zeros; p += chunk.size()) { size_t k = (size_t)std::min<uint64_t>(chunk.size(), zeros - p); d->read(p, (char *)chunk.data(), k); if (memcmp(chunk.data(), rep.data(), k)) c.fail("file-roundtrip", "%s: wrong near offset %llu", what.c_str(), (unsigned long long)p); }
    d->read(zeros, (char *)big.data(), big.size());
    c.eq(big.data(), tail.data(), tail.size(), "file-roundtrip", what + ": end of the file");
    for (auto &x : hx::vlist()) if (x != in && x != enc && x != dec) c.fail("stray-file", "%s: file '%s' left behind", what.c_str(), x.c_str());
    if (c.idx % 2 == 0 || c.thorough) {             // a length field that agrees only in its low 32 bits
        uint64_t f = n ^ (1ull << (32 + c.rng.below(20)));
        e->write(16, (const char *)&f, 8); e->settle();
        start();
        if (c.thorough && WBCRYPTO_gcmfile_decrypt(g, (char *)enc.c_str(), (char *)dec.c_str()) != 0) c.fail("tamper-accepted", "%s: length field differing above 32 bits was accepted", what.c_str());
    }
    WBCRYPTO_gcmfile_free(g);
    hx::vclear();
    c.observe(hx::hashBytes(tag, 16));
    c.stat("huge files");
    c.sample(what + ": encrypted and decrypted");
}
