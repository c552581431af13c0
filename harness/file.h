// The six file modes behind one interface
#pragma once
#include "lib.h"
namespace kit {
enum FKind { F_AES, F_SM4, F_WBAES, F_WBSM4, F_EE, F_MASK, F_N };
extern const char *const fname[F_N];
struct FileMode {
    FKind kind;
    std::unique_ptr<Key> own; const Key *K = nullptr; const Ee *E = nullptr; Mask *M = nullptr;
    WBCRYPTO_gcmfile_context *g = nullptr; WBCRYPTO_wbgcm_ee_context *e = nullptr; WBCRYPTO_wbgcm_mask_context *me = nullptr, *md = nullptr;
    FileMode(Case &c, FKind k, long slot);
    ~FileMode();
    void reopen(Case &c);                                  // fresh mode context on the same key
    int start(Case &c, bool dec, const Bytes &iv, const Bytes &aad);   // setiv + aad
    int run(Case &c, bool dec, const std::string &in, const std::string &out);
    int op(Case &c, bool dec, const Bytes &iv, const Bytes &aad, const std::string &in, const std::string &out) { start(c, dec, iv, aad); return run(c, dec, in, out); }
    Bytes expect(Case &c, const Bytes &iv, const Bytes &aad, const Bytes &m);    // container the in-memory mode gives
};
}
