// Fault injection on stdio: while armed, every fopen() of the library goes through
// a cookie stream whose operations are logged, numbered and may fail.
#pragma once
#include "core.h"
#include <memory>
namespace hx {
enum FaultMode { FM_NONE, FM_ERROR, FM_SHORT, FM_CUT };  // fail with errno / half then fail / silent end of data (reads)
struct FaultCtl {
    bool armed = false;
    long failAt = -1;          // operation number that fails (-1: none)
    FaultMode mode = FM_NONE;
    bool sticky = false;       // everything of that stream fails from then on
    long ops = 0;              // operations seen
    long openStreams = 0;      // opened and not yet closed
    bool hit = false;          // the fault was delivered
    std::string hitOp;         // "write out.tmp" ...
    std::vector<std::string> log;
};
extern FaultCtl g_fault;
void faultArm(long failAt, FaultMode m, bool sticky);
void faultDisarm();
// files that exist only in memory, for sizes no disk should have to hold
#define VFS "/vfs/"
struct VFile {
    uint64_t size = 0;
    std::vector<std::shared_ptr<Bytes>> pages;
    long long cur = -1; bool dirty = false; Bytes hot;
    void write(uint64_t off, const char *b, size_t n);
    size_t read(uint64_t off, char *b, size_t n);
    void settle();
};
std::shared_ptr<VFile> vfile(const std::string &name, bool create);
std::set<std::string> vlist();
void vclear();
extern bool g_vforeign;      // the library used a call on a virtual path that virtual files do not support
}
