// Independent reference implementations (written from the standards, sharing no
// code with the library under test; cross-checked against OpenSSL in selfTest()).
#pragma once
#include "core.h"
namespace ref {
using hx::Bytes;

struct Cipher {                     // AES-128 or SM4
    bool sm4 = false;
    uint8_t rk[11][16];
    uint32_t srk[32];
    Cipher() {}
    Cipher(bool isSm4, const Bytes &key16);
    void enc(const uint8_t *in, uint8_t *out) const;
    void dec(const uint8_t *in, uint8_t *out) const;
};

struct Sm3 {
    uint32_t h[8]; uint8_t buf[64]; uint64_t total; size_t n;
    Sm3() { reset(); }
    void reset();
    void update(const uint8_t *p, size_t len);
    void final(uint8_t out[32]);
    void block(const uint8_t *p);
};
Bytes sm3(const Bytes &m);

Bytes pkcs7(const Bytes &m);                        // fill to a multiple of 16, nothing if aligned
bool ambiguousTail(const Bytes &m);                 // aligned message that ends in a well-formed fill
Bytes cbcEnc(const Cipher &c, const Bytes &iv, const Bytes &padded);
Bytes cbcDec(const Cipher &c, const Bytes &iv, const Bytes &ct);

struct G128 { uint64_t hi, lo; };
G128 gload(const uint8_t *p);
void gstore(G128 g, uint8_t *p);
G128 gmul(G128 x, G128 y);
G128 ginv(G128 x);
G128 ghash(G128 H, G128 acc, const uint8_t *p, size_t n);   // zero-fills the last block

struct Gcm {
    Cipher c; G128 H; uint8_t j0[16];
    Gcm(const Cipher &c, const Bytes &iv);
    Bytes ctr(const Bytes &in, uint64_t firstBlock = 0) const;   // xor with keystream (counter starts at inc(j0))
    Bytes tag(const Bytes &aad, const Bytes &ct) const;
};
// 16-byte IV that makes J0 equal the given block under cipher c
Bytes ivForJ0(const Cipher &c, const uint8_t j0[16]);

std::string ff1(const Cipher &c, const Bytes &tweak, unsigned radix, const std::string &x, bool dec = false);
std::string ff3(const Cipher &c, const Bytes &tweak8, unsigned radix, const std::string &x, bool dec = false);
size_t ff3max(unsigned radix);      // SP 800-38G: 2*floor(log_radix 2^96)
}
