// Each allocation of a call refused in turn: the call must report it, leak nothing and work again afterwards.
#pragma once
#include "lib.h"
#include <functional>
#include <memory>
namespace oom {
using namespace kit;
typedef std::function<int(Bytes &)> Op;         // 1 = success (with its result), 0 = error reported
struct Call { std::string what; Op op; std::function<void()> after; std::function<bool()> intact; };
// each allocation of the call fails in turn
inline void explore(Case &c, const Call &k) {
    Bytes want, got; bool hit;
    for (int i = 0; i < 2; i++) { want.clear(); int rc = k.op(want); if (k.after) k.after(); if (rc != 1) { c.fail("oom-return", "%s: fails though nothing was refused", k.what.c_str()); return; } }
    got.clear();
    hx::failAlloc(0); int rc = k.op(got); long n = hx::allocsSeen(hit); if (k.after) k.after();
    c.check(rc == 1 && got == want, "oom-return", (k.what + ": not repeatable").c_str());
    std::vector<long> ks;
    if (n <= 32) for (long i = 1; i <= n; i++) ks.push_back(i);
    else { ks = {1, 2, 3, n / 2, n - 1, n}; for (int i = 0; i < 14; i++) ks.push_back(1 + (long)c.rng.below((uint64_t)n)); }
    for (long i : ks) {
        std::string w = strf("%s, allocation %ld of %ld refused", k.what.c_str(), i, n);
        int grown = 0; long b0, y0, b1, y1;
        for (int rep = 0; rep < 4; rep++) {                         // growth must persist to count as a leak
            Bytes().swap(got);
            hx::liveMem(b0, y0);
            hx::failAlloc(i); rc = k.op(got); hx::allocsSeen(hit);
            bool same = got == want;
            if (k.after) k.after();
            Bytes().swap(got);
            hx::liveMem(b1, y1);
            if (!hit) { break; }
            if (rc == 1 && !same) c.fail("oom-wrong-result", "%s: reports success with a wrong result", w.c_str());
            if (rc != 0 && rc != 1) c.fail("oom-return", "%s: returned %d", w.c_str(), rc);
            if (k.intact && rc == 0 && !k.intact()) c.fail("oom-state", "%s: the failed call changed its object", w.c_str());
            if (b1 <= b0) break;
            grown++;
        }
        if (grown == 4) c.fail("oom-leak", "%s: every such failure leaks (%ld bytes)", w.c_str(), y1 - y0);
        if (hit) { c.observe(hx::hashBytes(w.data(), w.size(), (uint64_t)c.idx)); c.stat(rc ? "refused allocations made up for" : "refused allocations reported"); }
        got.clear();
        rc = k.op(got); if (k.after) k.after();
        c.check(rc == 1 && got == want, "oom-after", (w + ": the same call no longer works afterwards").c_str());
    }
    c.stat("calls explored"); c.stat("allocations seen", n);
    if (c.idx % 61 == 7) c.sample(strf("%s: %ld allocations, %zu of them refused in turn", k.what.c_str(), n, ks.size()));
}
}
