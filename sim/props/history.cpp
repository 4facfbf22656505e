// Properties decided by histories of one index: durability, visibility, isolation, ordering, merging.
#include "world.h"
using namespace lu;
using namespace Lucene;

static void runPlain(const Plan& p) {
    World w(p);
    w.start();
    w.run();
    w.finish();
    w.closeAll();
}

static int opCount(sim::Rng& r, int tier, int quick, int deep) {
    return 8 + (int)r.below((uint64_t)(tier && r.below(3) == 0 ? deep : quick));
}

// ------------------------------------------------- C07 refinement: one thread of operations, any configuration
static void genRefine(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    genSched(p, r, false);
    OpMix m;
    m.add(O_ADD, 30).add(O_UPD, 20).add(O_DELID, 8).add(O_DELGRP, 2).add(O_DELNUM, 3).add(O_DELTERMS, 3).add(O_COMMIT, 4).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 2).add(O_MAYBEMERGE, 1).add(O_WAITMERGES, 1).add(O_GETREADER, 4).add(O_OPENREADER, 3).add(O_CLOSEREOPEN, 2).add(O_ADDINDEXES, 1).add(O_ADDREADERS, 1).add(O_DELALL, 1).add(O_SETTING, 2).add(O_COUNTS, 2).add(O_REOPENNRT, 2).add(O_ROLLBACK, 1);
    if (r.below(8)) {
        genOps(p, r, m, 1, opCount(r, tier, 65, 220), 2 + (int)r.below(12));
        return;
    }
    // many documents in few segments: long posting lists, with skip data
    genOps(p, r, m, 1, 4 + (int)r.below(12), 20 + (int)r.below(400));
    p.set("rich", r.below(4) == 0);
    if (r.below(3) == 0) {
        p.set("rich", 3); // every document with payloads
    }
    p.set("ramkb", 0);
    p.set("mbd", 20 + (int64_t)r.below(200));
    p.set("mbdel", 0);
    if (p.get("mp") == 0) {
        p.set("minmerge", 10);
    }
    p.set("maxmerge", 0);
    p.set("v.bits", V_STORED | V_TERMS | V_SEEK);
    p.set("v.calm", 1);
    size_t n = 40 + (size_t)r.below(r.below(4) ? 80 : tier ? 700 : 330), at = p.ops.size() / 3;
    std::vector<Op> adds;
    for (size_t i = 0; i < n; ++i) {
        adds.push_back(Op{0, r.below(12) ? O_ADD : O_DELID, (int64_t)r.below(100000), (int64_t)r.below(100000), 0});
    }
    p.ops.insert(p.ops.begin() + (long)at, adds.begin(), adds.end());
}
static RegisterProp r7("C07", genRefine, runPlain, lu::opName);

// ------------------------------------------------- C01 crash durability
static void genCrash(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", 1 + (int64_t)r.below(2));
    genSched(p, r, true);
    int th = r.below(3) ? 1 : 2 + (int)r.below(3);
    OpMix m;
    m.add(O_ADD, 30).add(O_UPD, 20).add(O_DELID, 6).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_COMMIT, 12).add(O_PREPARE, 2).add(O_FINISH, 2).add(O_ROLLBACK, 2).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 1).add(O_GETREADER, 2).add(O_CLOSEREOPEN, 3).add(O_ADDINDEXES, 1).add(O_DELALL, 1).add(O_SETTING, 1);
    genOps(p, r, m, th, opCount(r, tier, th == 1 ? 40 : 16, th == 1 ? 120 : 50), 2 + (int)r.below(8));
    p.set("crashes", 4 + (int64_t)r.below(8));
    if (r.below(4) == 0) {
        p.set("io.latency", 2000LL << r.below(14));
    }
    p.set("v.bits", r.below(2) ? V_ALL : V_STORED);
}
static void runCrash(const Plan& p) {
    World w(p);
    if (p.get("io.latency")) {
        sim::setIoLatency(1000, p.get("io.latency"));
    }
    w.start();
    w.run();
    w.finish();
    sim::Rng rng(sim::mix(p.seed, 77));
    w.crashChecks((int)p.get("crashes", 6), rng, true);
    w.closeAll();
}
static RegisterProp r1("C01", genCrash, runCrash, lu::opName);

// ------------------------------------------------- C02 two-phase commit, rollback, user data
static void gen2pc(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(4) ? 1 + (int64_t)r.below(2) : 0);
    genSched(p, r, true);
    OpMix m;
    m.add(O_ADD, 20).add(O_UPD, 16).add(O_DELID, 6).add(O_DELGRP, 2).add(O_PREPARE, 10).add(O_FINISH, 7).add(O_ROLLBACK, 6).add(O_COMMIT, 3).add(O_OPENREADER, 5).add(O_HOLD, 2).add(O_RECHECK, 2).add(O_RELEASE, 1).add(O_OPTIMIZE, 1).add(O_EXPUNGE, 1).add(O_MAYBEMERGE, 1).add(O_GETREADER, 3).add(O_CLOSEREOPEN, 2).add(O_CRASH, 3).add(O_DELALL, 1).add(O_ADDINDEXES, 1);
    genOps(p, r, m, 1, opCount(r, tier, 50, 150), 2 + (int)r.below(8));
    p.set("crashes", (int64_t)r.below(5));
    p.set("v.bits", r.below(2) ? V_ALL : V_STORED);
}
static RegisterProp r2("C02", gen2pc, runCrash, lu::opName);

// ------------------------------------------------- C04 snapshot isolation of readers
static void genSnap(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    genSched(p, r, true);
    int th = 1 + (int)r.below(4);
    OpMix m;
    m.add(O_ADD, 20).add(O_UPD, 20).add(O_DELID, 8).add(O_DELGRP, 3).add(O_DELNUM, 2).add(O_COMMIT, 6).add(O_OPTIMIZE, 3).add(O_EXPUNGE, 3).add(O_HOLD, 12).add(O_RECHECK, 16).add(O_RELEASE, 4).add(O_REOPENNRT, 3).add(O_CLOSEREOPEN, 2).add(O_ROLLBACK, 2).add(O_ADDINDEXES, 1).add(O_DELALL, 1).add(O_OPENREADER, 2);
    genOps(p, r, m, th, opCount(r, tier, th == 1 ? 50 : 24, th == 1 ? 150 : 60), 2 + (int)r.below(8));
    p.set("v.bits", r.below(2) ? V_ALL : V_STORED | V_QUERIES);
}
static RegisterProp r4("C04", genSnap, runPlain, lu::opName);

// ------------------------------------------------- C05 near-real-time readers
static void genNrt(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    genSched(p, r, true);
    int th = 1 + (int)r.below(4);
    OpMix m;
    m.add(O_ADD, 16).add(O_UPD, 24).add(O_DELID, 8).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_DELTERMS, 2).add(O_COMMIT, 3).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 2).add(O_MAYBEMERGE, 1).add(O_GETREADER, 14).add(O_REOPENNRT, 14).add(O_ADDINDEXES, 1).add(O_SETTING, 1);
    genOps(p, r, m, th, opCount(r, tier, th == 1 ? 50 : 24, th == 1 ? 150 : 60), 2 + (int)r.below(8));
    p.set("v.bits", r.below(3) ? V_STORED : V_ALL);
}
static RegisterProp r5("C05", genNrt, runPlain, lu::opName);

// ------------------------------------------------- C06 concurrent indexing
static void genConc(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    genSched(p, r, true);
    int th = 2 + (int)r.below(4);
    OpMix m;
    m.add(O_ADD, 30).add(O_UPD, 20).add(O_DELID, 6).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_DELTERMS, 2).add(O_COMMIT, 5).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 1).add(O_MAYBEMERGE, 1).add(O_WAITMERGES, 1).add(O_GETREADER, 2).add(O_OPENREADER, 2).add(O_ADDINDEXES, 1).add(O_ADDREADERS, 1).add(O_SETTING, 1).add(O_SLEEP, 1).add(O_THROWDOC, 1);
    genOps(p, r, m, th, opCount(r, tier, 24, 70), 2 + (int)r.below(8));
}
static RegisterProp r6("C06", genConc, runPlain, lu::opName);

// ------------------------------------------------- C21 a failing document does not affect the others
static void genDocFail(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    genSched(p, r, true);
    int th = 1 + (int)r.below(3);
    OpMix m;
    m.add(O_ADD, 24).add(O_UPD, 14).add(O_DELID, 5).add(O_DELGRP, 2).add(O_THROWDOC, 24).add(O_COMMIT, 4).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 1).add(O_GETREADER, 4).add(O_OPENREADER, 2).add(O_CLOSEREOPEN, 1);
    genOps(p, r, m, th, opCount(r, tier, th == 1 ? 50 : 24, th == 1 ? 150 : 60), 2 + (int)r.below(8));
    p.set("v.bits", V_ALL);
}
static RegisterProp r21("C21", genDocFail, runPlain, lu::opName);
