// The library under test plus a small uniform layer over its four block ciphers.
#pragma once
#include "core.h"
#include "ref.h"
#include <cmath>
#include <memory>
extern "C" {
#include <wbcrypto/conf.h>
#include <wbcrypto/aes.h>
#include <wbcrypto/sm3.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/modes.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/fpe_app.h>
#include <wbcrypto/utils.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
}
namespace kit {
using hx::Bytes; using hx::Case; using hx::Buf; using hx::Rng; using hx::strf; using hx::hex;

enum Kind { AES, SM4, WBAES, WBSM4, NKIND };
extern const char *const kname[NKIND];

// a keyed cipher context of the library together with its reference
struct Key {
    Kind kind;
    Bytes key, norm;
    ref::Cipher r;
    int dummy = 0;
    WBCRYPTO_aes_context *aes = nullptr;
    WBCRYPTO_sm4_context *sm4 = nullptr;
    WBCRYPTO_wbaes_context *wbaes = nullptr;
    WBCRYPTO_wbsm4_context *wbsm4 = nullptr, *wbsm4d = nullptr;
    Bytes snap;
    ~Key();
    bool canDecrypt() const { return kind != WBAES; }
    void encBlock(const uint8_t *in, uint8_t *out) const;
    Bytes image() const;                        // observable table contents
    void unchanged(Case &c) const;              // C27/C04/C05: using a key never changes it
    int cbcEnc(const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *use, uint8_t *iv) const;
    int cbcDec(const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *use, uint8_t *iv) const;
    WBCRYPTO_gcm_context *gcm() const;
    WBCRYPTO_gcmfile_context *gcmfile() const;
    WBCRYPTO_fpe_context *fpe(const char *tw, size_t n, unsigned radix) const;
    WBCRYPTO_fpe_mac_context *fpemac(const char *tw, size_t n, unsigned radix) const;
};
// Fresh context for this case.  White-box kinds come from a small per-process
// pool whose keys and table randomness depend only on (seed, slot).
const Key &key(Case &c, Kind k, long slot);
std::unique_ptr<Key> make(Case &c, Kind k, Rng r);  // own context, not pooled
Kind pickKind(Case &c, bool needDecrypt = false);

// white-box GCM contexts (pooled likewise)
struct Ee { Bytes norm; ref::Cipher r; WBCRYPTO_wbaes_wbgcm_ee_context *t; Bytes snap; void unchanged(Case &c) const; };
const Ee &ee(Case &c, long slot);
struct Mask { Bytes norm; ref::Cipher r; WBCRYPTO_wbaes_wbgcm_mask_context *e, *d; int map[16][256]; int inv[16][256]; uint64_t he, hd; void unchanged(Case &c); };
Mask &mask(Case &c, long slot);

// common deterministic inputs
Bytes ivOf(Rng &r);                 // 1..80 bytes, often 12, at times thousands
std::string digits(Rng &r, unsigned radix, size_t n);
void seedLib(Rng &r);               // white-box randomness for the next generation
}
