// C25: the UDFs (udf/mysql8.cpp, with -DUDF5 udf/mysql5.cpp) driven the way the server drives them
#include "oom.h"
#include <mysql.h>
using namespace kit;
#ifdef UDF5
#define UDF "udf5"
typedef char udf_bool;
#else
#define UDF "udf"
typedef bool udf_bool;
#endif
extern "C" {
udf_bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message);
void fpe_deinit(UDF_INIT *initid);
char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error);
}
namespace {
const uint8_t KEY[16] = {0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c};
const ref::Cipher &R() { static ref::Cipher r(true, Bytes(KEY, KEY + 16)); return r; }
Bytes cs(const std::string &s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }
Bytes by(const std::string &s) { return Bytes(s.begin(), s.end()); }
std::string u8(unsigned cp) { char b[4] = {(char)(0xe0 | cp >> 12), (char)(0x80 | (cp >> 6 & 63)), (char)(0x80 | (cp & 63)), 0}; return b; }
unsigned cpAt(const std::string &s, size_t i) { return ((unsigned)(uint8_t)s[i] & 15) << 12 | ((unsigned)(uint8_t)s[i + 1] & 63) << 6 | ((unsigned)(uint8_t)s[i + 2] & 63); }
bool okCn(const std::string &s, size_t i) { return i + 3 <= s.size() && ((uint8_t)s[i] & 0xf0) == 0xe0 && ((uint8_t)s[i + 1] & 0xc0) == 0x80 && ((uint8_t)s[i + 2] & 0xc0) == 0x80 && cpAt(s, i) >= 0x4E00 && cpAt(s, i) <= 0x9EFF; }
std::string duo(unsigned cp) { unsigned v = cp - 0x4E00; std::string s; for (int i = 0; i < 4; i++) { unsigned d = v % 12; v /= 12; s += (char)(d < 10 ? '0' + d : 'a' + d - 10); } return s; }
unsigned unduo(const std::string &s) { unsigned v = 0; for (int i = 3; i >= 0; i--) v = v * 12 + (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10); return v + 0x4E00; }

// what the statement must give: false = error
bool model(const std::string &v, const std::string &mode, const std::string *sample, std::string &out) {
    bool s = sample && !sample->empty();
    out = v;
    if (v.find('\0') != std::string::npos) return false;     // a binary value is no phone number, ID or text
    if (mode == "phone" || mode == "idcard") {
        bool id = mode == "idcard";
        if (v.size() != (id ? 18u : 11u)) return false;
        if (sample && sample->size() != v.size()) return false;
        size_t n = v.size() - (id && v.back() == 'X');
        std::string in, tw;
        for (size_t i = 0; i < n; i++) (s && (*sample)[i] != '*' ? tw : in) += v[i];
        for (char ch : in) if (ch < '0' || ch > '9') return false;
        if (in.size() < 2) return false;
        std::string e = ref::ff1(R(), cs(tw), 10, in);
        size_t j = 0;
        for (size_t i = 0; i < n; i++) if (!(s && (*sample)[i] != '*')) out[i] = e[j++];
        return true;
    }
    if (mode != "name" && mode != "address") return false;
    if (v.empty() || v.size() % 3) return false;
    std::string in, tw; std::vector<bool> fr; size_t q = 0;
    for (size_t i = 0; i < v.size(); i += 3) {
        if (!okCn(v, i)) return false;
        bool f = true;
        if (s) { if (q >= sample->size()) return false; f = (*sample)[q] == '*'; q += f ? 1 : 3; }
        (f ? in : tw) += duo(cpAt(v, i)); fr.push_back(f);
    }
    if (s && q != sample->size()) return false;
    if (in.empty()) return false;
    std::string e = ref::ff1(R(), cs(tw), 12, in);
    size_t j = 0;
    for (size_t i = 0; i < fr.size(); i++) if (fr[i]) { out.replace(3 * i, 3, u8(unduo(e.substr(4 * j, 4)))); j++; }
    return true;
}
struct Row { std::string v, mode, sample; bool nul[3] = {false, false, false}; };
std::string cnText(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += u8(r.below(10) ? 0x4E00 + (unsigned)r.below(20736) : (r.below(2) ? 0x4E00 : 0x9EFF)); return s; }
Row makeRow(Case &c, bool three, const std::string &mode) {
    Rng &r = c.rng;
    Row w; w.mode = mode;
    bool digits_ = mode == "phone" || mode == "idcard";
    if (digits_) {
        size_t n = mode == "phone" ? 11 : 18;
        w.v = digits(r, 10, n); if (mode == "idcard" && r.below(3) == 0) w.v[n - 1] = 'X';
        int sh = (int)r.below(4);
        for (size_t i = 0; i < n; i++) w.sample += (sh == 0 || (sh == 1 && i > 2 && i < n - 2) || (sh > 1 && r.below(2))) ? '*' : (r.below(2) ? w.v[i] : r.below(3) ? '0' : "#x-A?9 "[r.below(7)]);
        switch (r.below(12)) {
        case 0: w.v.pop_back(); break;
        case 1: w.v += '7'; break;
        case 2: w.v[r.below(n)] = "aX -*"[r.below(5)]; break;
        case 3: w.sample.pop_back(); break;
        case 4: w.sample += '*'; break;
        case 5: w.sample = w.v; break;
        case 6: w.v[r.below(n)] = '\0'; break;
        case 7: w.sample = ""; break;
        }
    } else {
        size_t n = r.below(3) ? 1 + r.below(6) : 1 + r.below(r.below(4) ? 60 : 300);
        w.v = cnText(r, n);
        for (size_t i = 0; i < n; i++) w.sample += r.below(3) ? std::string("*") : r.below(2) ? w.v.substr(3 * i, 3) : u8(0x5000 + (unsigned)r.below(200));
        switch (r.below(12)) {
        case 0: w.v.pop_back(); break;
        case 1: w.v += "a"; break;
        case 2: w.v.replace(3 * r.below(n), 3, r.below(2) ? "abc" : u8(0x9F00 + (unsigned)r.below(200))); break;
        case 3: w.sample += "*"; break;
        case 4: w.sample.pop_back(); break;
        case 5: w.sample = w.v; break;
        case 6: w.v[r.below(w.v.size())] = '\0'; break;
        case 7: w.sample = ""; break;
        case 8: w.v = ""; break;
        }
    }
    if (r.below(12) == 0) w.nul[r.below(three ? 3 : 2)] = true;
    if (r.below(15) == 0) {                                     // not a mode, though it may look like one
        static const char *bad[] = {"", "PHONE", "x", "\xe4\xb8", "id", "addr", "names", "name1", "address2", "phone_no", "idcards"};
        static const char *good[] = {"phone", "idcard", "name", "address"};
        if (r.below(2)) w.mode = bad[r.below(11)];
        else do {
            w.mode = good[r.below(4)];
            switch (r.below(5)) {
            case 0: w.mode += "s 1ae"[r.below(5)]; break;
            case 1: w.mode.pop_back(); break;
            case 2: w.mode.erase(0, 1); break;
            case 3: w.mode[r.below(w.mode.size())] ^= r.below(2) ? 0x20 : 1; break;
            case 4: w.mode = " " + w.mode; break;
            }
        } while (w.mode == good[0] || w.mode == good[1] || w.mode == good[2] || w.mode == good[3]);
    }
    return w;
}
struct Args {
    UDF_ARGS a; Item_result types[6]; char *ptr[6]; unsigned long len[6]; char mayNull[6]; char *attr[6]; unsigned long alen[6];
    Args() { memset(this, 0, sizeof *this); a.arg_type = types; a.args = ptr; a.lengths = len; a.maybe_null = mayNull; a.attributes = attr; a.attribute_lengths = alen; for (auto &t : types) t = STRING_RESULT; for (auto &x : attr) x = (char *)"x"; }
};
}
SCENARIO(udf_rows, UDF ".rows") {
    Rng &r = c.rng;
    static const char *modes[] = {"phone", "idcard", "name", "address"};
    bool three = r.below(2);
    bool constMode = r.below(2);
    std::string mode = modes[c.idx % 4];
    int rows = 1 + (int)r.below(r.below(8) ? 6 : 60);
    std::vector<Row> R_;
    size_t maxlen = 0;
    for (int i = 0; i < rows; i++) { R_.push_back(makeRow(c, three, constMode ? mode : modes[r.below(4)])); maxlen = std::max(maxlen, R_.back().v.size()); }
    UDF_INIT id; memset(&id, 0, sizeof id); id.max_length = 255; id.ptr = nullptr;
    Args A; A.a.arg_count = three ? 3 : 2;
    // at initialisation the lengths are the column's maximum (smaller for a value only known later)
    bool known = r.below(4);
    A.len[0] = known ? maxlen : r.below(maxlen + 1); A.len[1] = 20; A.len[2] = maxlen; for (auto &m : A.mayNull) m = 0;
    for (auto &w : R_) for (int k = 0; k < 3; k++) if (w.nul[k]) A.mayNull[k] = 1;
    A.mayNull[3 + r.below(3)] = 1;
    Buf msg(c, "message", MYSQL_ERRMSG_SIZE, 0);
    if (fpe_init(&id, &A.a, msg.c())) c.fail("udf-init", "fpe_init refused %d string arguments", A.a.arg_count);
    for (int i = 0; i < rows; i++) {
        Row &w = R_[i];
        Buf v(c, "value argument", by(w.v)), m(c, "mode argument", by(w.mode)), s(c, "sample argument", by(w.sample));
        A.ptr[0] = w.nul[0] ? nullptr : v.c(); A.len[0] = w.nul[0] ? 0 : w.v.size();
        A.ptr[1] = w.nul[1] ? nullptr : m.c(); A.len[1] = w.nul[1] ? 0 : w.mode.size();
        A.ptr[2] = w.nul[2] ? nullptr : s.c(); A.len[2] = w.nul[2] ? 0 : w.sample.size();
        Buf res(c, "result buffer", 255, 0x2e), nul(c, "is_null", 1, 0), err(c, "error", 1, 0);
        unsigned long len = 255;
        char *p = fpe(&id, &A.a, res.c(), &len, nul.c(), err.c());
        v.mustBeUnchanged(); m.mustBeUnchanged(); s.mustBeUnchanged(); res.canary(); nul.canary(); err.canary();
        std::string what = strf("fpe('%s', '%s'%s%s%s) row %d", w.nul[0] ? "NULL" : w.v.c_str(), w.nul[1] ? "NULL" : w.mode.c_str(), three ? ", '" : "", three ? (w.nul[2] ? "NULL" : w.sample.c_str()) : "", three ? "'" : "", i);
        std::string want;
        bool anyNull = w.nul[0] || w.nul[1] || (three && w.nul[2]);
        bool ok = !anyNull && model(w.v, w.mode, three ? &w.sample : nullptr, want);
        c.observe(hx::hashBytes(what.data(), what.size()), ok);
        if (!ok) {
            if (!nul.p()[0] && !err.p()[0]) c.fail("udf-bad-value", "%s: neither error nor NULL", what.c_str());
            // the server sized and typed the result column by what the initialisation declared
            if (nul.p()[0] && !id.maybe_null) c.fail("udf-declared", "%s: NULL from a function declared to never return NULL", what.c_str());
            if (anyNull) c.stat("NULL arguments"); else c.stat("bad values refused");
            continue;
        }
        if (nul.p()[0] || err.p()[0] || !p) c.fail("udf-refused", "%s: error %d null %d", what.c_str(), err.p()[0], nul.p()[0]);
        if (len != w.v.size()) c.fail("udf-length", "%s: result length %lu, value has %zu", what.c_str(), len, w.v.size());
        if (known && len > id.max_length) c.fail("udf-declared", "%s: %lu bytes, but at most %lu were declared", what.c_str(), len, id.max_length);
        if (p == res.c() && len > 255) c.fail("udf-length", "%s: %lu bytes in the 255 byte result buffer", what.c_str(), len);
        std::string got(p, len);
        c.eq(got.data(), want.data(), want.size(), "udf-value", what);
        // and the library's own decryption restores the value
        WBCRYPTO_fpe_app_context app; WBCRYPTO_fpe_app_init(&app, KEY, 16, (char *)"sm4", (char *)"ff1");
        std::vector<char> back(w.v.size() + 1, 0), gz(got.begin(), got.end()); gz.push_back(0);
        std::string sz = three ? w.sample : "";
        int rc = w.mode == "phone" ? WBCRYPTO_fpe_decrypt_phone_with_sample(&app, gz.data(), back.data(), (char *)sz.c_str())
               : w.mode == "idcard" ? WBCRYPTO_fpe_decrypt_idcard_with_sample(&app, gz.data(), back.data(), (char *)sz.c_str())
               : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(&app, gz.data(), back.data(), (char *)sz.c_str());
        WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)app.cipher_ctx);
        if (rc != 1 || std::string(back.data(), w.v.size()) != w.v) c.fail("udf-inverse", "%s: decryption gives '%s'", what.c_str(), back.data());
        c.stat(("masked " + w.mode).c_str());
        if (c.idx % 90 == 11 && i == 0) c.sample(what + " -> '" + got + "'");
    }
    if (hx::haveMallocMonitor()) {
        // one more thousand rows may not grow the statement's memory
        Row w; w.v = "13812345678"; Buf v(c, "value argument", by(w.v)), m(c, "mode argument", by("phone")), s(c, "sample argument", by("***********"));
        A.ptr[0] = v.c(); A.len[0] = 11; A.ptr[1] = m.c(); A.len[1] = 5; A.ptr[2] = s.c(); A.len[2] = 11;
        long b0, n0, b1, n1; char nu, er; unsigned long len; char res[255];
        for (int i = 0; i < 70; i++) { if (i == 10) hx::liveMem(b0, n0); nu = er = 0; len = 255; fpe(&id, &A.a, res, &len, &nu, &er); }
        hx::liveMem(b1, n1);
        if (b1 > b0 && n1 > n0) c.fail("udf-growth", "60 rows grew memory by %ld blocks, %ld bytes", b1 - b0, n1 - n0);
        Bytes bad = by("1381234567x"); Buf vb(c, "value argument", bad); A.ptr[0] = vb.c();
        for (int i = 0; i < 70; i++) { if (i == 10) hx::liveMem(b0, n0); nu = er = 0; len = 255; fpe(&id, &A.a, res, &len, &nu, &er); }
        hx::liveMem(b1, n1);
        if (b1 > b0 && n1 > n0) c.fail("udf-growth", "60 refused rows grew memory by %ld blocks, %ld bytes", b1 - b0, n1 - n0);
    }
    fpe_deinit(&id);
}
SCENARIO(udf_init, UDF ".init") {
    Rng &r = c.rng;
    UDF_INIT id; memset(&id, 0, sizeof id); id.max_length = 255;
    Args A; A.a.arg_count = (unsigned)(c.idx % 6);
    static const Item_result ts[] = {STRING_RESULT, REAL_RESULT, INT_RESULT, ROW_RESULT, DECIMAL_RESULT};
    bool good = A.a.arg_count == 2 || A.a.arg_count == 3;
    for (unsigned i = 0; i < A.a.arg_count; i++) { A.types[i] = r.below(3) ? STRING_RESULT : ts[r.below(5)]; A.len[i] = r.below(2) ? r.below(300) : 0; A.mayNull[i] = (char)r.below(2); if (A.types[i] != STRING_RESULT) good = false; }
    Buf msg(c, "message", MYSQL_ERRMSG_SIZE, 0);
    bool rc = fpe_init(&id, &A.a, msg.c());
    msg.canary();
    if (rc == good) c.fail("udf-init", "fpe_init with %u arguments %s", A.a.arg_count, good ? "refused" : "accepted wrong count or types");
    if (rc && (!msg.p()[0] || !memchr(msg.p(), 0, MYSQL_ERRMSG_SIZE))) c.fail("udf-init", "refusal without a message");
    if (!rc) fpe_deinit(&id);
    c.observe(hx::hashBytes(A.types, sizeof A.types, A.a.arg_count), true);
    c.stat(rc ? "initialisations refused" : "initialisations accepted");
}
// a session thread has a small stack: a long value may not need more of it than a short one
// an allocation fails during a statement of two rows
SCENARIO(udf_oom, UDF ".oom") {
    if (!hx::haveMallocMonitor()) return;
    static const char *modes[] = {"phone", "idcard", "name", "address"};
    bool three = c.rng.below(2);
    Row w; std::string want;
    do w = makeRow(c, three, modes[c.idx % 4]); while (w.nul[0] || w.nul[1] || w.nul[2] || !model(w.v, w.mode, three ? &w.sample : nullptr, want));
    oom::Call k;
    k.what = strf("statement fpe('%s', '%s'%s)", w.v.c_str(), w.mode.c_str(), three ? (", '" + w.sample + "'").c_str() : "");
    unsigned long declared = c.rng.below(2) ? w.v.size() : c.rng.below(w.v.size());
    k.op = [&](Bytes &o) {
        UDF_INIT id; memset(&id, 0, sizeof id); id.max_length = 255; id.ptr = nullptr;
        Args A; A.a.arg_count = three ? 3 : 2; A.len[0] = declared; A.len[1] = 20; A.len[2] = w.v.size();
        char msg[MYSQL_ERRMSG_SIZE]; bool h;
        if (fpe_init(&id, &A.a, msg)) return 0;                                         // the server calls no fpe_deinit then
        int rc = 1;
        for (int i = 0; i < 2; i++) {
            A.ptr[0] = (char *)w.v.data(); A.len[0] = w.v.size(); A.ptr[1] = (char *)w.mode.data(); A.len[1] = w.mode.size(); A.ptr[2] = (char *)w.sample.data(); A.len[2] = w.sample.size();
            char res[255], nul = 0, err = 0; unsigned long len = 255;
            char *q = fpe(&id, &A.a, res, &len, &nul, &err);
            if (nul || err) { if (!rc) c.fail("oom-after", "%s: a row is refused after the row whose allocation failed", k.what.c_str()); rc = 0; continue; }
            if (!q || len != want.size() || memcmp(q, want.data(), len)) c.fail("oom-wrong-result", "%s: row %d: wrong value without an error", k.what.c_str(), i);
        }
        hx::allocsSeen(h);
        fpe_deinit(&id);
        o.assign(1, 1);
        return rc;
    };
    oom::explore(c, k);
}
SCENARIO(udf_stack, UDF ".stack") {
    size_t use[2], n = 0;
    for (int lg = 0; lg < 2; lg++) {
        std::string v = cnText(c.rng, lg ? 5000 + c.rng.below(1500) : 3), s;
        for (size_t i = 0; i < v.size(); i += 3) s += c.rng.below(4) == 0 ? v.substr(i, 3) : "*";
        n = v.size();
        bool three = c.idx & 1; std::string mode = c.idx & 2 ? "name" : "address", got, want;
        UDF_INIT id; memset(&id, 0, sizeof id); id.max_length = 255;
        Args A; A.a.arg_count = three ? 3 : 2; A.len[0] = n; A.len[1] = mode.size(); A.len[2] = s.size();
        char msg[MYSQL_ERRMSG_SIZE] = "", nu = 0, er = 0; int bad = 0;
        use[lg] = hx::stackUse([&] {
            if (fpe_init(&id, &A.a, msg)) { bad = 1; return; }
            A.ptr[0] = (char *)v.data(); A.ptr[1] = (char *)mode.data(); A.ptr[2] = (char *)s.data();
            static char res[255]; unsigned long len = 255;
            char *q = fpe(&id, &A.a, res, &len, &nu, &er);
            if (q && !nu && !er) got.assign(q, len);
            fpe_deinit(&id);
        });
        if (bad) c.fail("udf-init", "fpe_init refused string arguments");
        if (nu || er || !model(v, mode, three ? &s : nullptr, want) || got != want) c.fail("udf-value", "a value of %zu bytes is not masked as the application layer would", n);
    }
    if (use[1] > use[0] + (20 << 10)) c.fail("stack-growth", "%zu bytes of stack for a value of %zu bytes, %zu for a short one", use[1], n, use[0]);
    c.observe(hx::mix(n), true); c.stat("long values masked");
    if (c.idx == 0) c.sample(strf("value of %zu bytes: %zu bytes of stack, %zu for a short value", n, use[1], use[0]));
}
// statements of several sessions run at once in the server
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
namespace {
struct Session { std::vector<Row> rows; bool three; std::vector<std::string> got; std::vector<int> bad; uint64_t seed; bool initFailed = false; std::atomic<int> *gate; int n; };
void *session(void *p) {
    Session &S = *(Session *)p;
    Rng r(S.seed);
    S.gate->fetch_add(1, std::memory_order_relaxed);
    while (S.gate->load(std::memory_order_relaxed) < S.n) sched_yield();
    UDF_INIT id; memset(&id, 0, sizeof id); id.max_length = 255;
    Args A; A.a.arg_count = S.three ? 3 : 2; A.len[0] = 900; A.len[1] = 20; A.len[2] = 900;
    char msg[MYSQL_ERRMSG_SIZE] = "";
    if (fpe_init(&id, &A.a, msg)) { S.initFailed = true; return nullptr; }
    for (auto &w : S.rows) {
        A.ptr[0] = w.nul[0] ? nullptr : (char *)w.v.data(); A.len[0] = w.nul[0] ? 0 : w.v.size();
        A.ptr[1] = w.nul[1] ? nullptr : (char *)w.mode.data(); A.len[1] = w.nul[1] ? 0 : w.mode.size();
        A.ptr[2] = w.nul[2] ? nullptr : (char *)w.sample.data(); A.len[2] = w.nul[2] ? 0 : w.sample.size();
        char res[255]; unsigned long len = 255; char nu = 0, er = 0;
        if (r.below(4) == 0) usleep((useconds_t)r.below(40));
        char *q = fpe(&id, &A.a, res, &len, &nu, &er);
        S.bad.push_back(nu || er || !q);
        S.got.push_back(nu || er || !q ? std::string() : std::string(q, len));
    }
    fpe_deinit(&id);
    return nullptr;
}
}
SCENARIO(udf_threads, UDF ".threads") {
    static const char *modes[] = {"phone", "idcard", "name", "address"};
    std::vector<std::unique_ptr<Session>> S;
    std::atomic<int> gate{0};
    int n = 2 + (int)c.rng.below(5);
    for (int i = 0; i < n; i++) {
        std::unique_ptr<Session> s(new Session);
        s->three = c.rng.below(2); s->seed = c.rng.u64(); s->gate = &gate; s->n = n;
        int k = 1 + (int)c.rng.below(12);
        for (int j = 0; j < k; j++) s->rows.push_back(makeRow(c, s->three, modes[c.rng.below(4)]));
        S.push_back(std::move(s));
    }
    std::vector<pthread_t> th((size_t)n);
    for (int i = 0; i < n; i++) if (pthread_create(&th[(size_t)i], nullptr, session, S[(size_t)i].get())) _exit(91);
    for (auto &t : th) pthread_join(t, nullptr);
    for (auto &s : S) {
        if (s->initFailed) c.fail("udf-init", "fpe_init refused string arguments");
        for (size_t j = 0; j < s->rows.size(); j++) {
            Row &w = s->rows[j];
            std::string want;
            bool ok = !w.nul[0] && !w.nul[1] && !(s->three && w.nul[2]) && model(w.v, w.mode, s->three ? &w.sample : nullptr, want);
            if (ok != !s->bad[j]) c.fail("udf-thread-result", "row '%s' mode '%s' %s among %d sessions", w.v.c_str(), w.mode.c_str(), ok ? "refused" : "accepted", n);
            if (ok && s->got[j] != want) c.fail("udf-thread-result", "row '%s' mode '%s' gave '%s', expected '%s', among %d sessions", w.v.c_str(), w.mode.c_str(), s->got[j].c_str(), want.c_str(), n);
            c.observe(hx::hashBytes(want.data(), want.size(), (uint64_t)n), ok);
            c.stat(ok ? "rows masked concurrently" : "rows refused concurrently");
        }
    }
    if (c.idx % 20 == 3) c.sample(strf("%d sessions, first row '%s' (%s)", n, S[0]->rows[0].v.c_str(), S[0]->rows[0].mode.c_str()));
}
