#include "fault.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <cstdarg>
#include <memory>
#include <unordered_map>
namespace hx {
FaultCtl g_fault;
void faultArm(long failAt, FaultMode m, bool sticky) {
    g_fault = FaultCtl();
    g_fault.failAt = failAt; g_fault.mode = m; g_fault.sticky = sticky; g_fault.armed = true;
}
void faultDisarm() { g_fault.armed = false; }
struct Cookie { int fd; bool dead; bool writable; std::string name; FILE *fp; };
static std::map<FILE *, int> g_fds;         // what fileno() says about cookie streams
static bool faulty(const char *op, const std::string &name) {
    FaultCtl &f = g_fault;
    if (!f.armed) return false;
    long n = f.ops++;
    if (f.log.size() < 400) f.log.push_back(std::string(op) + " " + name);
    if (n != f.failAt) return false;
    f.hit = true; f.hitOp = std::string(op) + " " + name;
    return true;
}
static ssize_t ckRead(void *v, char *b, size_t n) {
    Cookie *k = (Cookie *)v;
    bool f = faulty("read", k->name);
    if (f && g_fault.sticky) k->dead = true;
    if (f || k->dead) {
        if (g_fault.mode == FM_CUT) return 0;
        if (f && g_fault.mode == FM_SHORT && n > 1) { ssize_t r = read(k->fd, b, n); if (r > 1) { lseek(k->fd, -(r - r / 2), SEEK_CUR); return r / 2; } }
        errno = EIO; return -1;
    }
    return read(k->fd, b, n);
}
static ssize_t ckWrite(void *v, const char *b, size_t n) {
    Cookie *k = (Cookie *)v;
    bool f = faulty("write", k->name);
    if (f && g_fault.sticky) k->dead = true;
    if (f || k->dead) {
        if (f && g_fault.mode == FM_SHORT && n > 1) { if (write(k->fd, b, n / 2) < 0) {} k->dead = true; }   // half stored, then no space
        errno = ENOSPC; return 0;
    }
    size_t o = 0;
    while (o < n) { ssize_t r = write(k->fd, b + o, n - o); if (r <= 0) break; o += (size_t)r; }
    return (ssize_t)o;
}
static int ckSeek(void *v, off64_t *off, int wh) {
    Cookie *k = (Cookie *)v;
    bool f = faulty("seek", k->name);
    if (f && g_fault.sticky) k->dead = true;
    if (f || k->dead) { errno = EIO; return -1; }
    off64_t r = lseek64(k->fd, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ckClose(void *v) {
    Cookie *k = (Cookie *)v;
    bool f = faulty("close", k->name);
    g_fault.openStreams--;
    if (f && k->writable) {             // the store reports at close time that data was lost
        struct stat st;
        if (fstat(k->fd, &st) == 0 && st.st_size > 0) { if (ftruncate(k->fd, st.st_size - 1)) {} }
    }
    close(k->fd);
    g_fds.erase(k->fp);
    delete k;
    if (f) { errno = EIO; return -1; }
    return 0;
}
// ---- virtual files: paths under VFS, contents kept as shared 64 KB pages (huge, repetitive files cost next to nothing)
static const size_t PG = 65536;
typedef std::shared_ptr<Bytes> Page;                    // null = zeros
static std::unordered_map<uint64_t, std::vector<std::weak_ptr<Bytes>>> g_pages;
static std::map<std::string, std::shared_ptr<VFile>> g_vfs;
static Page intern(const Bytes &b) {
    static const Bytes zero(PG, 0);
    if (b == zero) return nullptr;
    auto &v = g_pages[hashBytes(b.data(), b.size())];
    for (size_t i = 0; i < v.size();) { Page p = v[i].lock(); if (!p) { v.erase(v.begin() + (long)i); continue; } if (*p == b) return p; i++; }
    Page p = std::make_shared<Bytes>(b);
    v.push_back(p);
    return p;
}
std::shared_ptr<VFile> vfile(const std::string &n, bool create) {
    auto it = g_vfs.find(n);
    if (it != g_vfs.end()) return it->second;
    if (!create) return nullptr;
    return g_vfs[n] = std::make_shared<VFile>();
}
extern bool g_vforeign;
void vclear() { g_vforeign = false; g_vfs.clear(); g_pages.clear(); }
std::set<std::string> vlist() { std::set<std::string> s; for (auto &k : g_vfs) s.insert(k.first); return s; }
void VFile::write(uint64_t off, const char *b, size_t n) {
    if (off > size) { settle(); size = off; }
    while (n) {
        uint64_t pg = off / PG; size_t o = off % PG, k = std::min(n, PG - o);
        if (cur != (long long)pg) { settle(); cur = (long long)pg; hot.assign(PG, 0); if (pg < pages.size() && pages[pg]) hot = *pages[pg]; }
        memcpy(&hot[o], b, k); dirty = true;
        off += k; b += k; n -= k;
        if (off > size) size = off;
    }
}
size_t VFile::read(uint64_t off, char *b, size_t n) {
    if (off >= size) return 0;
    if (n > size - off) n = (size_t)(size - off);
    for (size_t done = 0; done < n;) {
        uint64_t pg = off / PG; size_t o = off % PG, k = std::min(n - done, PG - o);
        if (cur == (long long)pg) memcpy(b + done, &hot[o], k);
        else if (pg < pages.size() && pages[pg]) memcpy(b + done, &(*pages[pg])[o], k);
        else memset(b + done, 0, k);
        off += k; done += k;
    }
    return n;
}
void VFile::settle() {
    if (cur >= 0 && dirty) { if (pages.size() <= (size_t)cur) pages.resize((size_t)cur + 1); pages[(size_t)cur] = intern(hot); }
    dirty = false; cur = -1;
}
struct VCookie { std::shared_ptr<VFile> f; uint64_t pos; bool app; int fd; FILE *fp; };
static std::map<FILE *, VCookie *> g_vstreams;
bool g_vforeign = false;
static ssize_t vRead(void *v, char *b, size_t n) { VCookie *k = (VCookie *)v; size_t r = k->f->read(k->pos, b, n); k->pos += r; return (ssize_t)r; }
static ssize_t vWrite(void *v, const char *b, size_t n) { VCookie *k = (VCookie *)v; if (k->app) k->pos = k->f->size; k->f->write(k->pos, b, n); k->pos += n; return (ssize_t)n; }
static int vSeek(void *v, off64_t *off, int wh) {
    VCookie *k = (VCookie *)v;
    long long p = (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)k->pos : (long long)k->f->size) + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    k->pos = (uint64_t)p; *off = p;
    return 0;
}
static int vClose(void *v) { VCookie *k = (VCookie *)v; k->f->settle(); if (k->fd >= 0) close(k->fd); g_vstreams.erase(k->fp); delete k; return 0; }
static FILE *vopen(const char *p, const char *m) {
    auto f = vfile(p, false);
    if (!f && m[0] == 'r') { errno = ENOENT; return nullptr; }
    if (f && strchr(m, 'x')) { errno = EEXIST; return nullptr; }
    if (!f) f = vfile(p, true);
    if (m[0] == 'w') *f = VFile();
    cookie_io_functions_t io = {vRead, vWrite, vSeek, vClose};
    VCookie *k = new VCookie{f, 0, m[0] == 'a', -1, nullptr};
    k->fp = fopencookie(k, m, io);
    if (k->fp) g_vstreams[k->fp] = k;
    return k->fp;
}
static bool isV(const char *p) { return strncmp(p, VFS, strlen(VFS)) == 0; }
}
extern "C" {
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
    using namespace hx;
    if (isV(p)) return vopen(p, m);
    if (!g_fault.armed) return __real_fopen(p, m);
    std::string name = strrchr(p, '/') ? strrchr(p, '/') + 1 : p;
    if (faulty("open", name)) { errno = EMFILE; return nullptr; }
    bool plus = strchr(m, '+') != nullptr;
    bool excl = strchr(m, 'x') != nullptr;
    int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC) | (excl ? O_EXCL : 0);
    int fd = open(p, fl, 0644);
    if (fd < 0) return nullptr;
    Cookie *k = new Cookie{fd, false, m[0] != 'r' || plus, name, nullptr};
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE *fp = fopencookie(k, m, io);
    if (!fp) { close(fd); delete k; return nullptr; }
    k->fp = fp; g_fds[fp] = fd;
    g_fault.openStreams++;
    return fp;
}
int __real_remove(const char *p);
int __wrap_remove(const char *p) { if (hx::isV(p)) { if (hx::g_vfs.erase(p)) return 0; errno = ENOENT; return -1; } return __real_remove(p); }
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) {
    using namespace hx;
    if (isV(a) && isV(b)) { auto f = vfile(a, false); if (!f) { errno = ENOENT; return -1; } g_vfs[b] = f; g_vfs.erase(a); return 0; }
    if (g_fault.armed) {
        std::string name = strrchr(b, '/') ? strrchr(b, '/') + 1 : b;
        if (faulty("rename", name)) { errno = EIO; return -1; }
    }
    return __real_rename(a, b);
}
int __real_unlink(const char *p);
int __wrap_unlink(const char *p) { if (hx::isV(p)) return __wrap_remove(p); return __real_unlink(p); }
FILE *__real_tmpfile(void);
FILE *__wrap_tmpfile(void) {
    using namespace hx;
    if (g_fault.armed && faulty("open", "tmpfile")) { errno = EMFILE; return nullptr; }
    return __real_tmpfile();
}
int __real_fileno(FILE *f);
int __wrap_fileno(FILE *f) {
    using namespace hx;
    auto it = g_fds.find(f);
    if (it != g_fds.end()) return it->second;
    auto v = g_vstreams.find(f);
    if (v == g_vstreams.end()) return __real_fileno(f);
    VCookie *k = v->second;                            // a stand-in that only knows the size
    if (k->fd < 0) k->fd = memfd_create("vfs", MFD_CLOEXEC);
    fflush(f);
    if (ftruncate(k->fd, (off_t)k->f->size)) {}
    return k->fd;
}
#define VSTAT(NAME) \
    int __real_##NAME(const char *p, struct stat *st); \
    int __wrap_##NAME(const char *p, struct stat *st) { \
        if (!hx::isV(p)) return __real_##NAME(p, st); \
        auto f = hx::vfile(p, false); \
        if (!f) { errno = ENOENT; return -1; } \
        memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; st->st_size = (off_t)f->size; st->st_blocks = (blkcnt_t)(f->size / 512); \
        return 0; }
VSTAT(stat)
VSTAT(lstat)
int __real_access(const char *p, int m);
int __wrap_access(const char *p, int m) { if (!hx::isV(p)) return __real_access(p, m); if (hx::vfile(p, false)) return 0; errno = ENOENT; return -1; }
// calls that virtual files cannot serve: noted, so that the case is skipped instead of judged
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (hx::isV(p)) hx::g_vforeign = true; return __real_open(p, fl, m); }
int __real_mkstemp(char *p);
int __wrap_mkstemp(char *p) { if (hx::isV(p)) hx::g_vforeign = true; return __real_mkstemp(p); }
}
