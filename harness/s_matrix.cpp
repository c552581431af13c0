// C22: the matrix library against a bit-by-bit GF(2) model
#include "lib.h"
#include <algorithm>
using namespace kit;

typedef std::vector<std::vector<uint8_t>> MM;       // rows of bits, column 0 = most significant
typedef std::vector<uint8_t> VV;

template <int N> struct S;      // size traits

static MM mzero(int n) { return MM(n, VV(n, 0)); }
static MM mid(int n) { MM m = mzero(n); for (int i = 0; i < n; i++) m[i][i] = 1; return m; }
static MM mmul(const MM &a, const MM &b) {
    int n = (int)a.size(); MM r = mzero(n);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (a[i][k]) for (int j = 0; j < n; j++) r[i][j] ^= b[k][j];
    return r;
}
static VV mvec(const MM &a, const VV &v) {
    VV r(a.size(), 0);
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < v.size(); j++) r[i] ^= a[i][j] & v[j];
    return r;
}
static bool minv(MM a, MM &inv) {       // plain Gauss-Jordan
    int n = (int)a.size(); inv = mid(n);
    for (int c = 0; c < n; c++) {
        int p = -1;
        for (int r = c; r < n; r++) if (a[r][c]) { p = r; break; }
        if (p < 0) return false;
        std::swap(a[p], a[c]); std::swap(inv[p], inv[c]);
        for (int r = 0; r < n; r++) if (r != c && a[r][c]) for (int k = 0; k < n; k++) { a[r][k] ^= a[c][k]; inv[r][k] ^= inv[c][k]; }
    }
    return true;
}
// random matrices of varied rank and density
static MM mrand(Rng &r, int n, bool wantInv) {
    MM m = mzero(n);
    switch (wantInv ? 3 + r.below(2) : r.below(6)) {
    case 0: for (auto &x : m) for (auto &b : x) b = r.below(2); break;
    case 1: for (auto &x : m) for (auto &b : x) b = r.below(8) == 0; break;                     // sparse: mostly singular
    case 2: for (auto &x : m) for (auto &b : x) b = r.below(2); m[r.below(n)] = m[r.below(n)]; break;  // often one dependency
    case 3: case 4: {                                                                           // invertible: random row operations on a permutation
        m = mid(n);
        for (int i = n - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]);
        long ops = r.below(3) ? (long)n * 4 : (long)r.below(4);
        for (long i = 0; i < ops; i++) { size_t a = r.below(n), b = r.below(n); if (a != b) for (int k = 0; k < n; k++) m[a][k] ^= m[b][k]; }
        break; }
    default: {                                                                                  // invertible but for one late row
        m = mrand(r, n, true);
        size_t a = r.below(n); for (int k = 0; k < n; k++) m[a][k] = 0;
        for (int i = 0; i < 3; i++) { size_t b = r.below(n); if (b != a) for (int k = 0; k < n; k++) m[a][k] ^= m[b][k]; }
    } }
    return m;
}
static VV vrand(Rng &r, int n) { VV v(n); int k = (int)r.below(4); for (auto &b : v) b = k == 0 ? 0 : k == 1 ? r.below(8) == 0 : r.below(2); return v; }

// conversions between the library structures and the model
template <class M, int N> struct Cv {
    static MM from(const M &m) { MM r = mzero(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] = (m.M[i] >> (N - 1 - j)) & 1; return r; }
    static M to(const MM &x) { M m; for (int i = 0; i < N; i++) { m.M[i] = 0; for (int j = 0; j < N; j++) if (x[i][j]) m.M[i] |= (decltype(m.M[0] + 0))1 << (N - 1 - j); } return m; }
    static bool clean(const M &m) { if (N == 4) for (int i = 0; i < N; i++) if (m.M[i] >> 4) return false; return true; }
};
template <> struct Cv<M128, 128> {
    static MM from(const M128 &m) { MM r = mzero(128); for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) r[i][j] = (m.M[i][j / 64] >> (63 - j % 64)) & 1; return r; }
    static M128 to(const MM &x) { M128 m; memset(&m, 0, sizeof m); for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) if (x[i][j]) m.M[i][j / 64] |= 1ull << (63 - j % 64); return m; }
    static bool clean(const M128 &) { return true; }
};
template <class V, int N> struct Vc {
    static VV from(const V &v) { VV r(N); for (int j = 0; j < N; j++) r[j] = (v.V >> (N - 1 - j)) & 1; return r; }
    static V to(const VV &x) { V v; v.V = 0; for (int j = 0; j < N; j++) if (x[j]) v.V |= (decltype(v.V + 0))1 << (N - 1 - j); return v; }
    static bool clean(const V &v) { return N != 4 || !(v.V >> 4); }
};
template <> struct Vc<V128, 128> {
    static VV from(const V128 &v) { VV r(128); for (int j = 0; j < 128; j++) r[j] = (v.V[j / 64] >> (63 - j % 64)) & 1; return r; }
    static V128 to(const VV &x) { V128 v; v.V[0] = v.V[1] = 0; for (int j = 0; j < 128; j++) if (x[j]) v.V[j / 64] |= 1ull << (63 - j % 64); return v; }
    static bool clean(const V128 &) { return true; }
};
static uint64_t mh(const MM &m) { uint64_t h = 7; for (auto &r : m) h = hx::hashBytes(r.data(), r.size(), h); return h; }

#define EQM(n, got, want, what) do { if (!Cv<M##n, n>::clean(got) || Cv<M##n, n>::from(got) != (want)) c.fail("matrix-value", "%s on %d bits is not the GF(2) result", what, n); } while (0)
#define EQV(n, got, want, what) do { if (!Vc<V##n, n>::clean(got) || Vc<V##n, n>::from(got) != (want)) c.fail("matrix-value", "%s on %d bits is not the GF(2) result", what, n); } while (0)
#define EQI(got, want, what, n) do { long long g_ = (got), w_ = (want); if (g_ != w_) c.fail("matrix-value", "%s on %d bits gives %lld instead of %lld", what, n, g_, w_); } while (0)

static inline uint64_t numOf(const VV &v) { uint64_t x = 0; for (uint8_t b : v) x = x << 1 | b; return x; }

#define COMMON(n) \
static void algebra##n(Case &c) { \
    Rng &r = c.rng; \
    MM a = mrand(r, n, false), b = mrand(r, n, false); VV u = vrand(r, n), v = vrand(r, n); \
    M##n A = Cv<M##n, n>::to(a), B = Cv<M##n, n>::to(b), X; V##n U = Vc<V##n, n>::to(u), W = Vc<V##n, n>::to(v), Y; \
    memset(&X, 0x5A, sizeof X); initM##n(&X); EQM(n, X, mzero(n), "init"); \
    memset(&Y, 0x5A, sizeof Y); initV##n(&Y); EQV(n, Y, VV(n, 0), "init vector"); \
    memset(&X, 0x5A, sizeof X); identityM##n(&X); EQM(n, X, mid(n), "identity"); \
    memset(&X, 0x5A, sizeof X); copyM##n(A, &X); EQM(n, X, a, "copy"); \
    EQI(!!isequalM##n(A, B), a == b, "isequal", n); EQI(!!isequalM##n(A, X), 1, "isequal", n); \
    EQI(!!isequalV##n(U, W), u == v, "isequal vector", n); EQI(!!isequalV##n(U, U), 1, "isequal vector", n); \
    { MM a2 = a; int i = (int)r.below(n), j = (int)r.below(n); a2[i][j] ^= 1; EQI(!!isequalM##n(A, Cv<M##n, n>::to(a2)), 0, "isequal of matrices that differ in one bit", n); \
      VV u2 = u; u2[j] ^= 1; EQI(!!isequalV##n(U, Vc<V##n, n>::to(u2)), 0, "isequal of vectors that differ in one bit", n); \
      EQI(!!readbitM##n(A, i, j), a[i][j], "readbit", n); \
      copyM##n(A, &X); flipbitM##n(&X, i, j); EQM(n, X, a2, "flipbit"); \
      setbitM##n(&X, i, j, a[i][j]); EQM(n, X, a, "setbit"); setbitM##n(&X, i, j, a[i][j]); EQM(n, X, a, "setbit to the same value"); } \
    MM inv; bool ok = minv(a, inv); \
    EQI(!!isinvertM##n(A), ok, "isinvert", n); \
    if (ok) { memset(&X, 0x5A, sizeof X); invsM##n(A, &X); EQM(n, X, inv, "invs"); c.stat("inverted"); \
        if (r.below(4) == 0) { X = A; invsM##n(X, &X); EQM(n, X, inv, "invs in place"); } } else c.stat("singular"); \
    VV s(n); for (int i = 0; i < n; i++) s[i] = u[i] ^ v[i]; \
    memset(&Y, 0x5A, sizeof Y); VecAddVecV##n(U, W, &Y); EQV(n, Y, s, "vector sum"); Y = U; VecAddVecV##n(Y, W, &Y); EQV(n, Y, s, "vector sum in place"); \
    VV mv = mvec(a, u); memset(&Y, 0x5A, sizeof Y); MatMulVecM##n(A, U, &Y); EQV(n, Y, mv, "matrix times vector"); Y = U; MatMulVecM##n(A, Y, &Y); EQV(n, Y, mv, "matrix times vector in place"); \
    MM ab = mmul(a, b); memset(&X, 0x5A, sizeof X); MatMulMatM##n(A, B, &X); EQM(n, X, ab, "matrix product"); \
    if (r.below(3) == 0) { X = B; MatMulMatM##n(A, X, &X); EQM(n, X, ab, "matrix product in place"); X = A; MatMulMatM##n(X, B, &X); EQM(n, X, ab, "matrix product in place"); } \
    MM sm = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sm[i][j] ^= b[i][j]; \
    memset(&X, 0x5A, sizeof X); MatAddMatM##n(A, B, &X); EQM(n, X, sm, "matrix sum"); X = A; MatAddMatM##n(X, B, &X); EQM(n, X, sm, "matrix sum in place"); \
    MM t = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t[i][j] = a[j][i]; \
    memset(&X, 0x5A, sizeof X); MattransM##n(A, &X); EQM(n, X, t, "transpose"); X = A; MattransM##n(X, &X); EQM(n, X, t, "transpose in place"); \
    long hw = 0; for (uint8_t x : u) hw += x; \
    scalar##n(c, A, a, U, u, mv, v, hw); \
    Aff##n F, G, H; F.Mat = A; F.Vec = U; G.Mat = B; G.Vec = W; memset(&H, 0x5A, sizeof H); \
    affinemixM##n(F, G, &H); VV mx = mvec(a, v); for (int i = 0; i < n; i++) mx[i] ^= u[i]; \
    EQM(n, H.Mat, ab, "affinemix"); EQV(n, H.Vec, mx, "affinemix vector"); \
    c.observe(mh(a) ^ mh(b), true); \
} \
static void pairs##n(Case &c) { \
    unsigned sd = c.rng.u32(); hx::setTime(c.rng.u32()); \
    static MM lastGood; \
    for (int round = 0; round < 2; round++) { \
        SetRandSeed(sd); InitRandom(sd ^ 0x1234567u); \
        Rng r(sd); uint64_t h = 0; \
        for (int k = 0; k < (n >= 64 ? 3 : 8); k++) { \
            M##n A, B; memset(&A, 0xC3, sizeof A); memset(&B, 0xC3, sizeof B); \
            genMatpairM##n(&A, &B); MM a = Cv<M##n, n>::from(A), b = Cv<M##n, n>::from(B); \
            if (!Cv<M##n, n>::clean(A) || !Cv<M##n, n>::clean(B) || mmul(a, b) != mid(n) || mmul(b, a) != mid(n)) c.fail("pair-not-inverse", "genMatpair on %d bits, seed %u: the pair is not mutually inverse", n, sd); \
            h = h * 31 + mh(a); \
            Aff##n F, G; memset(&F, 0xC3, sizeof F); memset(&G, 0xC3, sizeof G); \
            genaffinepairM##n(&F, &G); \
            MM fm = Cv<M##n, n>::from(F.Mat), gm = Cv<M##n, n>::from(G.Mat); \
            VV fv = Vc<V##n, n>::from(F.Vec), gv = Vc<V##n, n>::from(G.Vec); \
            VV z = mvec(gm, fv); for (int i = 0; i < n; i++) z[i] ^= gv[i]; \
            if (mmul(fm, gm) != mid(n) || z != VV(n, 0) || !Vc<V##n, n>::clean(F.Vec) || !Vc<V##n, n>::clean(G.Vec)) c.fail("pair-not-inverse", "genaffinepair on %d bits, seed %u: the pair is not mutually inverse", n, sd); \
            h = h * 31 + mh(fm) + hx::hashBytes(fv.data(), n); \
            M##n R; memset(&R, 0xC3, sizeof R); randM##n(&R); if (!Cv<M##n, n>::clean(R)) c.fail("matrix-value", "randM%d sets bits outside the matrix", n); h = h * 31 + mh(Cv<M##n, n>::from(R)); \
            V##n Q; memset(&Q, 0xC3, sizeof Q); randV##n(&Q); if (!Vc<V##n, n>::clean(Q)) c.fail("matrix-value", "randV%d sets bits outside the vector", n); VV q = Vc<V##n, n>::from(Q); h = h * 31 + hx::hashBytes(q.data(), n); \
        } \
        static uint64_t first; \
        if (round == 0) first = h; else if (h != first) c.fail("seed-not-reproducible", "the same seed %u gave a different %d-bit sequence", sd, n); \
        c.observe(h); c.stat("generated pairs", n >= 64 ? 6 : 16); \
    } \
}
#define SCALAR(n, T) static void scalar##n(Case &c, M##n &A, const MM &a, V##n &U, const VV &u, const VV &mv, const VV &v, long hw) { \
    T x = (T)numOf(u); \
    EQI(xorU##n(x), hw & 1, "parity", n); EQI(HWU##n(x), hw, "Hamming weight", n); \
    EQI((uint64_t)MatMulNumM##n(A, x) == numOf(mv), 1, "matrix times number", n); \
    Aff##n F; F.Mat = A; F.Vec = Vc<V##n, n>::to(v); EQI((uint64_t)affineU##n(F, x) == (numOf(mv) ^ numOf(v)), 1, "affine map", n); }
SCALAR(4, uint8_t) SCALAR(8, uint8_t) SCALAR(16, uint16_t) SCALAR(32, uint32_t) SCALAR(64, uint64_t)
static void scalar128(Case &c, M128 &A, const MM &a, V128 &U, const VV &u, const VV &mv, const VV &v, long hw) {
    EQI(xorU128(U.V), hw & 1, "parity", 128); EQI(HWU128(U.V), hw, "Hamming weight", 128);
    Aff128 F; F.Mat = A; F.Vec = Vc<V128, 128>::to(v); uint64_t in[2] = {U.V[0], U.V[1]}, out[2] = {1, 2};
    affineU128(F, in, out);
    VV w(128); for (int i = 0; i < 128; i++) w[i] = mv[i] ^ v[i];
    V128 o; o.V[0] = out[0]; o.V[1] = out[1]; EQV(128, o, w, "affine map");
    if (in[0] != U.V[0] || in[1] != U.V[1]) c.fail("input-modified", "affineU128 changed its input");
}
COMMON(4) COMMON(8) COMMON(16) COMMON(32) COMMON(64) COMMON(128)

SCENARIO(matrix_algebra, "matrix.algebra") {
    static void (*const f[])(Case &) = {algebra4, algebra8, algebra16, algebra32, algebra64, algebra128};
    f[c.idx % 6](c);
    if (c.idx % 6 < 4) for (int i = 0; i < 6; i++) f[c.idx % 6](c);
    if (c.idx % 97 == 3) c.sample(strf("all operations on %d-bit matrices", 4 << (c.idx % 6)));
}
SCENARIO(matrix_pairs, "matrix.pairs") {
    static void (*const f[])(Case &) = {pairs4, pairs8, pairs16, pairs32, pairs64, pairs128};
    f[c.idx % 6](c);
    if (c.idx % 6 < 4) for (int i = 0; i < 4; i++) f[c.idx % 6](c);
    if (c.idx % 97 == 3) c.sample(strf("generated %d-bit matrix and affine pairs", 4 << (c.idx % 6)));
}
// every 4-bit matrix: invertibility and inverse
SCENARIO(matrix_all4, "matrix.all4") {
    long per = 4096;
    for (long k = c.idx * per; k < (c.idx + 1) * per && k < 65536; k++) {
        MM a = mzero(4), inv; for (int i = 0; i < 16; i++) a[i / 4][i % 4] = (k >> i) & 1;
        M4 A = Cv<M4, 4>::to(a), X; bool ok = minv(a, inv);
        EQI(!!isinvertM4(A), ok, "isinvert", 4);
        if (ok) { invsM4(A, &X); EQM(4, X, inv, "invs"); }
        for (int x = 0; x < 16; x++) { VV u(4); for (int i = 0; i < 4; i++) u[i] = (x >> (3 - i)) & 1; EQI(MatMulNumM4(A, (uint8_t)x), (long)numOf(mvec(a, u)), "matrix times number", 4); }
        c.observe(hx::mix((uint64_t)k));
    }
}

// block-diagonal combinations
template <int B, int N> static MM blocks(const std::vector<MM> &m) { MM r = mzero(N); for (size_t k = 0; k < m.size(); k++) for (int i = 0; i < B; i++) for (int j = 0; j < B; j++) r[k * B + i][k * B + j] = m[k][i][j]; return r; }
#define L2(x) x(0), x(1)
#define L4(x) L2(x), x(2), x(3)
#define L8(x) L4(x), x(4), x(5), x(6), x(7)
#define L16(x) L8(x), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15)
#define MA(k) A[k]
#define VA(k) V[k]
#define FA(k) F[k]
#define COM(b, n, cnt) static void com##b##to##n(Case &c) { \
    std::vector<MM> m(cnt); VV vv; M##b A[cnt]; V##b V[cnt]; Aff##b F[cnt]; M##n X; V##n Y; Aff##n Z; \
    memset(&X, 0x5A, sizeof X); memset(&Y, 0x5A, sizeof Y); memset(&Z, 0x5A, sizeof Z); \
    for (int k = 0; k < cnt; k++) { m[k] = mrand(c.rng, b, false); VV v = vrand(c.rng, b); vv.insert(vv.end(), v.begin(), v.end()); A[k] = Cv<M##b, b>::to(m[k]); V[k] = Vc<V##b, b>::to(v); F[k].Mat = A[k]; F[k].Vec = V[k]; } \
    MM w = blocks<b, n>(m); \
    MatrixcomM##b##to##n(L##cnt(MA), &X); EQM(n, X, w, "block-diagonal combination"); \
    VectorcomV##b##to##n(L##cnt(VA), &Y); EQV(n, Y, vv, "vector concatenation"); \
    affinecomM##b##to##n(L##cnt(FA), &Z); EQM(n, Z.Mat, w, "affine combination"); EQV(n, Z.Vec, vv, "affine combination (vector)"); \
    c.observe(mh(w)); c.stat("combinations " #b " to " #n); }
COM(8, 32, 4) COM(16, 64, 4) COM(8, 64, 8) COM(32, 128, 4) COM(8, 128, 16) COM(16, 128, 8)
static void com4to8(Case &c) {
    std::vector<MM> m(2); M4 A[2]; M8 X; memset(&X, 0x5A, sizeof X);
    for (int k = 0; k < 2; k++) { m[k] = mrand(c.rng, 4, false); A[k] = Cv<M4, 4>::to(m[k]); }
    MM w = blocks<4, 8>(m); MatrixcomM4to8(A[0], A[1], &X); EQM(8, X, w, "block-diagonal combination"); c.observe(mh(w)); c.stat("combinations 4 to 8");
}
SCENARIO(matrix_com, "matrix.com") { com4to8(c); com8to32(c); com16to64(c); com8to64(c); com32to128(c); com8to128(c); com16to128(c); }

static void perm(Case &c, int n, void (*f)(uint8_t *, uint8_t *), unsigned sd) {
    Bytes first;
    for (int round = 0; round < 2; round++) {
        InitRandom(sd);
        Buf p(c, "permutation", (size_t)n), q(c, "inverse", (size_t)n);
        f(p.p(), q.p());
        std::vector<int> seen(n, 0);
        for (int i = 0; i < n; i++) { if (p.p()[i] >= n || seen[p.p()[i]]++) c.fail("not-a-permutation", "seed %u: entry %d of the %d-element permutation repeats or is out of range", sd, i, n); if (q.p()[p.p()[i]] != i) c.fail("pair-not-inverse", "seed %u: permutation inverse wrong at %d", sd, i); }
        if (round == 0) first = p.bytes(); else if (p.bytes() != first) c.fail("seed-not-reproducible", "same seed %u, other permutation", sd);
        c.observe(hx::hashBytes(first.data(), first.size()));
    }
    c.stat("permutations");
}
SCENARIO(matrix_perm, "matrix.perm") {
    for (int i = 0; i < 20; i++) { unsigned sd = i == 0 ? (unsigned)c.idx : i == 1 ? 0xffffffffu - (unsigned)c.idx : c.rng.u32(); perm(c, 16, genPermutation4, sd); perm(c, 256, genPermutation8, sd); }
    // shuffling keeps the multiset, for every length the table generator can ask for
    size_t n = c.idx % 9 == 8 ? 256 + c.rng.below(4000) : (size_t)(c.idx % 256); Buf l(c, "list", n); for (size_t i = 0; i < n; i++) l.p()[i] = (uint8_t)(i * 7 + 1); Bytes b = l.bytes();
    srand(c.rng.u32()); EQI(wRandomShuffleU8(l.p(), (int)n), 0, "shuffle result", 8);
    Bytes a = l.bytes(); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) c.fail("not-a-permutation", "shuffling %zu bytes lost elements", n);
}
// the random source behind every generator is reproducible from its seed
SCENARIO(matrix_random, "matrix.random") {
    unsigned sd = c.rng.u32(); std::vector<unsigned> a, b; InitRandom(sd); for (int i = 0; i < 500; i++) a.push_back(cus_random()); InitRandom(sd); for (int i = 0; i < 500; i++) b.push_back(cus_random());
    if (a != b) c.fail("seed-not-reproducible", "same seed %u, other random sequence", sd);
    c.observe(a[0] | (uint64_t)a[1] << 32);
}
// the bit pictures: row after row, exactly the bits of the matrix
#include <fcntl.h>
#include <unistd.h>
template <class M, int N> static void show(Case &c, void (*pr)(M)) {
    MM x = mrand(c.rng, N, false); M m = Cv<M, N>::to(x);
    std::string f = hx::scratch() + "/picture"; Bytes out;
    fflush(stdout);
    int keep = dup(1), fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    c.check(fd >= 0 && keep >= 0, "harness", "dup");
    dup2(fd, 1); pr(m); fflush(stdout); dup2(keep, 1); close(keep); close(fd);
    hx::readFile(f, out); unlink(f.c_str());
    std::string want, got;
    for (auto &r : x) for (auto b : r) want += (char)('0' + b);
    for (auto ch : out) if (ch > ' ') got += (char)ch;
    if (got != want) c.fail("matrix-picture", "printing a %dx%d matrix shows %.80s... and not %.80s...", N, N, got.c_str(), want.c_str());
    c.observe(hx::hashBytes(want.data(), want.size()));
    c.stat("matrices printed");
}
SCENARIO(matrix_print, "matrix.print") {
    show<M4, 4>(c, printbitM4); show<M8, 8>(c, printbitM8); show<M16, 16>(c, printbitM16);
    show<M32, 32>(c, printbitM32); show<M64, 64>(c, printbitM64); show<M128, 128>(c, printbitM128);
}
