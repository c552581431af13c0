#include "ref.h"
#include <openssl/evp.h>
#include <unistd.h>
namespace ref {

// ------------------------------------------------------------------ AES
static uint8_t SB[256], IS[256];
static uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
static uint8_t gm(uint8_t a, uint8_t b) {
    uint8_t r = 0;
    while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; }
    return r;
}
static uint8_t M2[256], M3[256], M9[256], Mb[256], Md[256], Me[256];
struct InitAes { InitAes() {
    for (int i = 0; i < 256; i++) {
        uint8_t inv = 0;
        if (i) for (int j = 1; j < 256; j++) if (gm((uint8_t)i, (uint8_t)j) == 1) inv = (uint8_t)j;
        uint8_t s = 0;
        for (int b = 0; b < 8; b++) {
            int v = (inv >> b) ^ (inv >> ((b + 4) & 7)) ^ (inv >> ((b + 5) & 7)) ^ (inv >> ((b + 6) & 7)) ^ (inv >> ((b + 7) & 7)) ^ (0x63 >> b);
            s |= (uint8_t)((v & 1) << b);
        }
        SB[i] = s; IS[s] = (uint8_t)i;
        M2[i] = gm(i, 2); M3[i] = gm(i, 3); M9[i] = gm(i, 9); Mb[i] = gm(i, 11); Md[i] = gm(i, 13); Me[i] = gm(i, 14);
    }
} };
static void aesKey(const uint8_t *k, uint8_t rk[11][16]) {
    memcpy(rk[0], k, 16);
    uint8_t rc = 1;
    for (int r = 1; r <= 10; r++) {
        const uint8_t *p = rk[r - 1];
        uint8_t t[4] = {(uint8_t)(SB[p[13]] ^ rc), SB[p[14]], SB[p[15]], SB[p[12]]};
        rc = xt(rc);
        for (int i = 0; i < 4; i++) rk[r][i] = p[i] ^ t[i];
        for (int i = 4; i < 16; i++) rk[r][i] = rk[r][i - 4] ^ p[i];
    }
}
static void aesEnc(const uint8_t rk[11][16], const uint8_t *in, uint8_t *out) {
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
    for (int r = 1; r <= 10; r++) {
        for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * c + i] = SB[s[4 * ((c + i) & 3) + i]];
        if (r < 10) for (int c = 0; c < 4; c++) {
            uint8_t *a = t + 4 * c, b[4] = {a[0], a[1], a[2], a[3]};
            for (int i = 0; i < 4; i++) a[i] = M2[b[i]] ^ M3[b[(i + 1) & 3]] ^ b[(i + 2) & 3] ^ b[(i + 3) & 3];
        }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[r][i];
    }
    memcpy(out, s, 16);
}
static void aesDec(const uint8_t rk[11][16], const uint8_t *in, uint8_t *out) {
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[10][i];
    for (int r = 9; r >= 0; r--) {
        for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * ((c + i) & 3) + i] = IS[s[4 * c + i]];
        for (int i = 0; i < 16; i++) t[i] ^= rk[r][i];
        if (r > 0) for (int c = 0; c < 4; c++) {
            uint8_t *a = t + 4 * c, b[4] = {a[0], a[1], a[2], a[3]};
            for (int i = 0; i < 4; i++) a[i] = Me[b[i]] ^ Mb[b[(i + 1) & 3]] ^ Md[b[(i + 2) & 3]] ^ M9[b[(i + 3) & 3]];
        }
        memcpy(s, t, 16);
    }
    memcpy(out, s, 16);
}
// ------------------------------------------------------------------ SM4
static uint8_t S4[256];
static uint32_t rol(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
// SM4's S-box from its algebraic definition: S(x) = A(I(A(x)+c))+c over GF(2^8)/(x^8+x^7+x^6+x^5+x^4+x^2+1)
struct InitSm4 { InitSm4() {
    auto mul = [](unsigned a, unsigned b) {
        unsigned r = 0;
        while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 0x100) a ^= 0x1f5; b >>= 1; }
        return r;
    };
    auto aff = [](unsigned x) {
        unsigned r = 0;
        for (int i = 0; i < 8; i++) {           // circulant row 11010011
            unsigned row = (unsigned)(((0xd3d3u >> i)) & 0xff), v = row & x;
            r |= (unsigned)(__builtin_popcount(v) & 1) << (7 - i);
        }
        return r ^ 0xd3;
    };
    for (unsigned x = 0; x < 256; x++) {
        unsigned a = aff(x), inv = 0;
        if (a) for (unsigned j = 1; j < 256; j++) if (mul(a, j) == 1) inv = j;
        S4[x] = (uint8_t)aff(inv);
    }
} };
static uint32_t tau(uint32_t x) {
    return (uint32_t)S4[x >> 24] << 24 | (uint32_t)S4[x >> 16 & 255] << 16 | (uint32_t)S4[x >> 8 & 255] << 8 | S4[x & 255];
}
static uint32_t be(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void wb(uint32_t v, uint8_t *p) { p[0] = (uint8_t)(v >> 24); p[1] = (uint8_t)(v >> 16); p[2] = (uint8_t)(v >> 8); p[3] = (uint8_t)v; }
static void sm4Key(const uint8_t *k, uint32_t rk[32]) {
    static const uint32_t FK[4] = {0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC};
    uint32_t K[36];
    for (int i = 0; i < 4; i++) K[i] = be(k + 4 * i) ^ FK[i];
    for (int i = 0; i < 32; i++) {
        uint32_t ck = 0;
        for (int j = 0; j < 4; j++) ck = ck << 8 | (uint32_t)((4 * i + j) * 7 & 255);
        uint32_t b = tau(K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ ck);
        rk[i] = K[i + 4] = K[i] ^ b ^ rol(b, 13) ^ rol(b, 23);
    }
}
static void sm4Run(const uint32_t rk[32], bool dec, const uint8_t *in, uint8_t *out) {
    uint32_t X[36];
    for (int i = 0; i < 4; i++) X[i] = be(in + 4 * i);
    for (int i = 0; i < 32; i++) {
        uint32_t b = tau(X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ rk[dec ? 31 - i : i]);
        X[i + 4] = X[i] ^ b ^ rol(b, 2) ^ rol(b, 10) ^ rol(b, 18) ^ rol(b, 24);
    }
    for (int i = 0; i < 4; i++) wb(X[35 - i], out + 4 * i);
}
static void initTables() { static InitAes a; static InitSm4 b; }
Cipher::Cipher(bool isSm4, const Bytes &k) : sm4(isSm4) {
    initTables();
    if (k.size() != 16) { fprintf(stderr, "harness: ref key size\n"); _exit(95); }
    if (sm4) sm4Key(k.data(), srk); else aesKey(k.data(), rk);
}
void Cipher::enc(const uint8_t *in, uint8_t *out) const { if (sm4) sm4Run(srk, false, in, out); else aesEnc(rk, in, out); }
void Cipher::dec(const uint8_t *in, uint8_t *out) const { if (sm4) sm4Run(srk, true, in, out); else aesDec(rk, in, out); }

// ------------------------------------------------------------------ SM3
void Sm3::reset() {
    static const uint32_t iv[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e};
    memcpy(h, iv, 32); total = 0; n = 0;
}
static inline uint32_t P0(uint32_t x) { return x ^ rol(x, 9) ^ rol(x, 17); }
static inline uint32_t P1(uint32_t x) { return x ^ rol(x, 15) ^ rol(x, 23); }
void Sm3::block(const uint8_t *p) {
    uint32_t W[68];
    for (int i = 0; i < 16; i++) W[i] = be(p + 4 * i);
    for (int j = 16; j < 68; j++) W[j] = P1(W[j - 16] ^ W[j - 9] ^ rol(W[j - 3], 15)) ^ rol(W[j - 13], 7) ^ W[j - 6];
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int j = 0; j < 64; j++) {
        uint32_t T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
        uint32_t s1 = rol(rol(a, 12) + e + rol(T, j), 7), s2 = s1 ^ rol(a, 12);
        uint32_t ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
        uint32_t gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
        uint32_t t1 = ff + d + s2 + (W[j] ^ W[j + 4]), t2 = gg + hh + s1 + W[j];
        d = c; c = rol(b, 9); b = a; a = t1; hh = g; g = rol(f, 19); f = e; e = P0(t2);
    }
    h[0] ^= a; h[1] ^= b; h[2] ^= c; h[3] ^= d; h[4] ^= e; h[5] ^= f; h[6] ^= g; h[7] ^= hh;
}
void Sm3::update(const uint8_t *p, size_t len) {
    total += len;
    while (len) {
        if (n == 0 && len >= 64) { block(p); p += 64; len -= 64; continue; }
        size_t k = 64 - n < len ? 64 - n : len;
        memcpy(buf + n, p, k); n += k; p += k; len -= k;
        if (n == 64) { block(buf); n = 0; }
    }
}
void Sm3::final(uint8_t out[32]) {
    uint64_t bits = total * 8;
    uint8_t pad[72] = {0x80};
    size_t k = (n < 56 ? 56 : 120) - n;
    for (int i = 0; i < 8; i++) pad[k + i] = (uint8_t)(bits >> (56 - 8 * i));
    update(pad, k + 8);
    for (int i = 0; i < 8; i++) wb(h[i], out + 4 * i);
}
Bytes sm3(const Bytes &m) { Sm3 s; s.update(m.data(), m.size()); Bytes o(32); s.final(o.data()); return o; }

// ------------------------------------------------------------------ CBC
Bytes pkcs7(const Bytes &m) {
    Bytes o = m;
    if (m.size() % 16) { size_t k = 16 - m.size() % 16; o.insert(o.end(), k, (uint8_t)k); }
    return o;
}
bool ambiguousTail(const Bytes &m) {
    if (m.empty() || m.size() % 16) return false;
    unsigned k = m.back();
    if (k < 1 || k > 16) return false;
    for (unsigned i = 0; i < k; i++) if (m[m.size() - 1 - i] != k) return false;
    return true;
}
Bytes cbcEnc(const Cipher &c, const Bytes &iv, const Bytes &m) {
    Bytes o(m.size()); uint8_t x[16]; memcpy(x, iv.data(), 16);
    for (size_t i = 0; i + 16 <= m.size(); i += 16) {
        for (int j = 0; j < 16; j++) x[j] ^= m[i + j];
        c.enc(x, x); memcpy(&o[i], x, 16);
    }
    return o;
}
Bytes cbcDec(const Cipher &c, const Bytes &iv, const Bytes &m) {
    Bytes o(m.size()); const uint8_t *prev = iv.data();
    for (size_t i = 0; i + 16 <= m.size(); i += 16) {
        uint8_t x[16]; c.dec(&m[i], x);
        for (int j = 0; j < 16; j++) o[i + j] = x[j] ^ prev[j];
        prev = &m[i];
    }
    return o;
}
// ------------------------------------------------------------------ GCM
G128 gload(const uint8_t *p) { return {(uint64_t)be(p) << 32 | be(p + 4), (uint64_t)be(p + 8) << 32 | be(p + 12)}; }
void gstore(G128 g, uint8_t *p) { wb((uint32_t)(g.hi >> 32), p); wb((uint32_t)g.hi, p + 4); wb((uint32_t)(g.lo >> 32), p + 8); wb((uint32_t)g.lo, p + 12); }
G128 gmul(G128 x, G128 y) {         // SP 800-38D algorithm 1, bit by bit
    G128 z = {0, 0}, v = y;
    for (int i = 0; i < 128; i++) {
        uint64_t bit = i < 64 ? x.hi >> (63 - i) & 1 : x.lo >> (127 - i) & 1, m = 0 - bit;
        z.hi ^= v.hi & m; z.lo ^= v.lo & m;
        uint64_t l = 0 - (v.lo & 1);
        v.lo = v.lo >> 1 | v.hi << 63; v.hi = v.hi >> 1 ^ (l & 0xe100000000000000ull);
    }
    return z;
}
G128 ginv(G128 x) {                 // x^(2^128-2)
    G128 r = {1ull << 63, 0}, p = x;
    for (int i = 1; i < 128; i++) { p = gmul(p, p); r = gmul(r, p); }
    return r;
}
G128 ghash(G128 H, G128 acc, const uint8_t *p, size_t n) {
    while (n) {
        uint8_t b[16] = {0}; size_t k = n < 16 ? n : 16;
        memcpy(b, p, k); p += k; n -= k;
        G128 g = gload(b); acc.hi ^= g.hi; acc.lo ^= g.lo; acc = gmul(acc, H);
    }
    return acc;
}
Gcm::Gcm(const Cipher &ci, const Bytes &iv) : c(ci) {
    uint8_t z[16] = {0}; c.enc(z, z); H = gload(z);
    if (iv.size() == 12) { memcpy(j0, iv.data(), 12); wb(1, j0 + 12); }
    else {
        G128 a = ghash(H, {0, 0}, iv.data(), iv.size());
        a.lo ^= (uint64_t)iv.size() * 8;
        gstore(gmul(a, H), j0);
    }
}
Bytes Gcm::ctr(const Bytes &in, uint64_t first) const {
    Bytes o(in.size());
    uint32_t c0 = be(j0 + 12);
    for (size_t i = 0; i < in.size(); i += 16) {
        uint8_t b[16]; memcpy(b, j0, 12); wb((uint32_t)(c0 + 1 + first + i / 16), b + 12);
        c.enc(b, b);
        for (size_t j = 0; j < 16 && i + j < in.size(); j++) o[i + j] = in[i + j] ^ b[j];
    }
    return o;
}
Bytes Gcm::tag(const Bytes &aad, const Bytes &ct) const {
    G128 a = ghash(H, {0, 0}, aad.data(), aad.size());
    a = ghash(H, a, ct.data(), ct.size());
    a.hi ^= (uint64_t)aad.size() * 8; a.lo ^= (uint64_t)ct.size() * 8;
    Bytes t(16); uint8_t e[16];
    gstore(gmul(a, H), t.data()); c.enc(j0, e);
    for (int i = 0; i < 16; i++) t[i] ^= e[i];
    return t;
}
Bytes ivForJ0(const Cipher &c, const uint8_t j0[16]) {
    uint8_t z[16] = {0}; c.enc(z, z); G128 H = gload(z);
    if (!H.hi && !H.lo) return Bytes(16, 0);
    G128 hi = ginv(H), a = gmul(gload(j0), hi);
    a.lo ^= 128;
    Bytes iv(16); gstore(gmul(a, hi), iv.data());
    return iv;
}
// ------------------------------------------------------------------ FPE
// numbers are little-endian digit vectors in the radix itself (base-radix arithmetic)
typedef std::vector<unsigned> Num;
static int dig(char ch) { return ch <= '9' ? ch - '0' : ch - 'a' + 10; }
static char chr(unsigned d) { return (char)(d < 10 ? '0' + d : 'a' + d - 10); }
// largest power of the radix below 2^31 and its exponent
static uint64_t super(unsigned radix, size_t &k) { uint64_t B = radix; k = 1; while (B * radix < (1ull << 31)) { B *= radix; k++; } return B; }
// big-endian bytes -> value mod radix^m as m little-endian digits
static Num bytesMod(const uint8_t *p, size_t n, unsigned radix, size_t m) {
    size_t k; const uint64_t B = super(radix, k);
    std::vector<uint64_t> r((m + k - 1) / k, 0);    // base radix^k, so the value mod radix^(k*size)
    for (size_t i = 0; i < n;) {                    // r = r*256^q + the next q bytes
        size_t q = n - i >= 4 ? 4 : n - i;
        uint64_t carry = 0;
        for (size_t z = 0; z < q; z++) carry = carry << 8 | p[i + z];
        for (auto &x : r) { uint64_t v = (x << (8 * q)) + carry; x = v % B; carry = v / B; }
        i += q;
    }
    Num o;
    for (auto x : r) for (size_t z = 0; z < k && o.size() < m; z++) { o.push_back((unsigned)(x % radix)); x /= radix; }
    return o;
}
// digits (little-endian) -> big-endian bytes, exactly len bytes
static Bytes numBytes(const Num &d, unsigned radix, size_t len) {
    Bytes le(len, 0);
    size_t k; super(radix, k);
    for (size_t i = d.size(); i > 0;) {
        size_t q = i % k ? i % k : k;
        uint64_t mul = 1, carry = 0;
        for (size_t z = 0; z < q; z++) { mul *= radix; carry = carry * radix + d[--i]; }
        for (size_t j = 0; j < len; j++) { uint64_t v = (uint64_t)le[j] * mul + carry; le[j] = (uint8_t)v; carry = v >> 8; }
        if (carry) { fprintf(stderr, "harness: numBytes overflow\n"); _exit(96); }
    }
    return Bytes(le.rbegin(), le.rend());
}
static Num addMod(const Num &a, const Num &b, unsigned radix, bool sub) {
    Num r(a.size()); int carry = 0;
    for (size_t i = 0; i < a.size(); i++) {
        int v = sub ? (int)a[i] - (int)b[i] - carry : (int)a[i] + (int)b[i] + carry;
        carry = 0;
        if (v >= (int)radix) { v -= (int)radix; carry = 1; }
        if (v < 0) { v += (int)radix; carry = 1; }
        r[i] = (unsigned)v;
    }
    return r;
}
// bytes needed for radix^v - 1  ( = ceil(ceil(v*log2 radix)/8) )
static size_t bytesFor(unsigned radix, size_t v) {
    Bytes le(1, 1);                             // radix^v
    size_t k; super(radix, k);
    for (size_t i = 0; i < v;) {
        size_t q = v - i < k ? v - i : k; uint64_t mul = 1, carry = 0;
        for (size_t z = 0; z < q; z++, i++) mul *= radix;
        for (auto &x : le) { uint64_t t = (uint64_t)x * mul + carry; x = (uint8_t)t; carry = t >> 8; }
        while (carry) { le.push_back((uint8_t)carry); carry >>= 8; }
    }
    for (auto &x : le) if (x--) break;          // minus one
    size_t bits = 0;
    for (size_t i = le.size(); i-- > 0;) if (le[i]) { bits = 8 * i + (32 - (size_t)__builtin_clz(le[i])); break; }
    return (bits + 7) / 8;
}
std::string ff1(const Cipher &c, const Bytes &T, unsigned radix, const std::string &x, bool dec) {
    size_t n = x.size(), u = n / 2, v = n - u, t = T.size();
    Num A, B;                                   // little-endian: last character least significant
    for (size_t i = u; i-- > 0;) A.push_back((unsigned)dig(x[i]));
    for (size_t i = n; i-- > u;) B.push_back((unsigned)dig(x[i]));
    size_t b = bytesFor(radix, v), d = 4 * ((b + 3) / 4) + 4;
    uint8_t P[16] = {1, 2, 1, 0, (uint8_t)(radix >> 8), (uint8_t)radix, 10, (uint8_t)(u % 256)};
    wb((uint32_t)n, P + 8); wb((uint32_t)t, P + 12);
    for (int k = 0; k < 10; k++) {
        int i = dec ? 9 - k : k;
        size_t m = i % 2 ? v : u;
        const Num &src = dec ? A : B;
        Bytes Q = T;
        while ((Q.size() + 1 + b) % 16) Q.push_back(0);
        Q.push_back((uint8_t)i);
        Bytes nb = numBytes(src, radix, b);
        Q.insert(Q.end(), nb.begin(), nb.end());
        uint8_t R[16]; c.enc(P, R);
        for (size_t o = 0; o < Q.size(); o += 16) { for (int j = 0; j < 16; j++) R[j] ^= Q[o + j]; c.enc(R, R); }
        Bytes S(R, R + 16);
        for (uint32_t j = 1; S.size() < d; j++) {
            uint8_t w[16]; memcpy(w, R, 16);
            uint8_t jb[4]; wb(j, jb);
            for (int q = 0; q < 4; q++) w[12 + q] ^= jb[q];
            c.enc(w, w); S.insert(S.end(), w, w + 16);
        }
        Num y = bytesMod(S.data(), d, radix, m);
        if (!dec) { Num C = addMod(A, y, radix, false); A = B; B = C; }
        else { Num C = addMod(B, y, radix, true); B = A; A = C; }
    }
    std::string o;
    for (size_t i = A.size(); i-- > 0;) o += chr(A[i]);
    for (size_t i = B.size(); i-- > 0;) o += chr(B[i]);
    return o;
}
std::string ff3(const Cipher &c, const Bytes &T, unsigned radix, const std::string &x, bool dec) {
    size_t n = x.size(), u = (n + 1) / 2, v = n - u;
    Num A, B;                                   // little-endian: REV -> first character least significant
    for (size_t i = 0; i < u; i++) A.push_back((unsigned)dig(x[i]));
    for (size_t i = u; i < n; i++) B.push_back((unsigned)dig(x[i]));
    for (int k = 0; k < 8; k++) {
        int i = dec ? 7 - k : k;
        size_t m = i % 2 ? v : u;
        const uint8_t *W = i % 2 ? &T[0] : &T[4];
        uint8_t P[16]; memcpy(P, W, 4); P[3] ^= (uint8_t)i;
        Bytes nb = numBytes(dec ? A : B, radix, 12);
        memcpy(P + 4, nb.data(), 12);
        uint8_t S[16];
        for (int j = 0; j < 16; j++) S[j] = P[15 - j];
        c.enc(S, S);
        for (int j = 0; j < 8; j++) std::swap(S[j], S[15 - j]);
        Num y = bytesMod(S, 16, radix, m);
        if (!dec) { Num C = addMod(A, y, radix, false); A = B; B = C; }
        else { Num C = addMod(B, y, radix, true); B = A; A = C; }
    }
    std::string o;
    for (unsigned q : A) o += chr(q);
    for (unsigned q : B) o += chr(q);
    return o;
}
size_t ff3max(unsigned radix) {
    size_t k = 0;
    // largest k with radix^k <= 2^96
    unsigned __int128 lim = (unsigned __int128)1 << 96, p = 1;
    while (p * radix <= lim) { p *= radix; k++; }
    return 2 * k;
}
} // namespace ref

// ---------------------------------------------------------------- self test against OpenSSL
namespace hx {
static void need(bool ok, const char *what) { if (!ok) { fprintf(stderr, "harness: reference self-test failed: %s\n", what); _exit(97); } }
static Bytes ossl(const EVP_CIPHER *ci, const Bytes &k, const Bytes &in) {
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 32); int l = 0;
    need(ci && EVP_EncryptInit_ex(x, ci, nullptr, k.data(), nullptr) == 1, "init");
    EVP_CIPHER_CTX_set_padding(x, 0);
    need(EVP_EncryptUpdate(x, o.data(), &l, in.data(), (int)in.size()) == 1, "upd");
    EVP_CIPHER_CTX_free(x); o.resize((size_t)l); return o;
}
void selfTest() {
    using namespace ref;
    Rng r(424242);
    for (int i = 0; i < 6; i++) {
        Bytes k = r.bytes(16), p = r.bytes(16), a(16), b(16), iv = r.bytes(i & 1 ? 12 : 1 + r.below(40)), m = r.bytes(r.below(70)), ad = r.bytes(r.below(40));
        Cipher ca(false, k), cs(true, k);
        ca.enc(p.data(), a.data()); need(a == ossl(EVP_aes_128_ecb(), k, p), "aes");
        ca.dec(a.data(), b.data()); need(b == p, "aes inverse");
        cs.enc(p.data(), a.data()); need(a == ossl(EVP_sm4_ecb(), k, p), "sm4");
        cs.dec(a.data(), b.data()); need(b == p, "sm4 inverse");
        uint8_t md[32]; unsigned ml = 32;
        need(EVP_Digest(m.data(), m.size(), md, &ml, EVP_sm3(), nullptr) == 1 && Bytes(md, md + 32) == sm3(m), "sm3");
        Gcm g(ca, iv); Bytes ct = g.ctr(m), tg = g.tag(ad, ct), oc(m.size() + 16), ot(16); int l = 0;
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(x, EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr);
        EVP_EncryptInit_ex(x, nullptr, nullptr, k.data(), iv.data());
        if (!ad.empty()) EVP_EncryptUpdate(x, nullptr, &l, ad.data(), (int)ad.size());
        l = 0;
        if (!m.empty()) EVP_EncryptUpdate(x, oc.data(), &l, m.data(), (int)m.size());
        need((size_t)l == m.size() && memcmp(oc.data(), ct.data(), ct.size()) == 0, "gcm data");
        EVP_EncryptFinal_ex(x, oc.data(), &l);
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, ot.data());
        need(ot == tg, "gcm tag");
        EVP_CIPHER_CTX_free(x);
        uint8_t j[16]; Bytes jb = r.bytes(16); memcpy(j, jb.data(), 16);
        Gcm g2(cs, ivForJ0(cs, j)); need(memcmp(g2.j0, j, 16) == 0, "ivForJ0");
    }
    // NIST FF1 sample 1/2/3 and FF3 sample 1
    Bytes k = {0x2B,0x7E,0x15,0x16,0x28,0xAE,0xD2,0xA6,0xAB,0xF7,0x15,0x88,0x09,0xCF,0x4F,0x3C};
    Cipher c(false, k);
    need(ff1(c, {}, 10, "0123456789") == "2433477484", "ff1 sample 1");
    need(ff1(c, {0x39,0x38,0x37,0x36,0x35,0x34,0x33,0x32,0x31,0x30}, 10, "0123456789") == "6124200773", "ff1 sample 2");
    need(ff1(c, {0x37,0x37,0x37,0x37,0x70,0x71,0x72,0x73,0x37,0x37,0x37}, 36, "0123456789abcdefghi") == "a9tv40mll9kdu509eum", "ff1 sample 3");
    need(ff1(c, {}, 10, "2433477484", true) == "0123456789", "ff1 inverse");
    Bytes k3 = {0xEF,0x43,0x59,0xD8,0xD5,0x80,0xAA,0x4F,0x7F,0x03,0x6D,0x6F,0x04,0xFC,0x6A,0x94};
    Cipher c3(false, Bytes(k3.rbegin(), k3.rend()));   // the standard keys CIPH with REVB(K)
    need(ff3(c3, {0xD8,0xE7,0x92,0x0A,0xFA,0x33,0x0A,0x73}, 10, "890121234567890000") == "750918814058654607", "ff3 sample 1");
    need(ff3(c3, {0xD8,0xE7,0x92,0x0A,0xFA,0x33,0x0A,0x73}, 10, "750918814058654607", true) == "890121234567890000", "ff3 inverse");
}
} // namespace hx
