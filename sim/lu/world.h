// An index, the threads that use it and the history of what they did, checked against a reference model.
#pragma once
#include "model.h"
#include "plan.h"
#include <deque>
#include <memory>

namespace lu {

enum OpKind {
    O_NONE = 0,
    O_ADD, O_UPD, O_DELID, O_DELGRP, O_DELNUM, O_DELTERMS,
    O_COMMIT, O_PREPARE, O_FINISH, O_ROLLBACK,
    O_OPTIMIZE, O_EXPUNGE, O_MAYBEMERGE, O_WAITMERGES,
    O_GETREADER, O_REOPENNRT, O_OPENREADER, O_HOLD, O_RECHECK, O_RELEASE,
    O_CLOSEREOPEN, O_ADDINDEXES, O_ADDREADERS, O_DELALL, O_SETTING,
    O_THROWDOC, O_SLEEP, O_CRASH, O_COUNTS, O_FAULTS, O_NKINDS
};
const char* opName(int k);

struct Stamp {
    uint64_t ev = 0, log = 0;
};
struct HOp {
    int kind = 0;
    std::vector<uint64_t> adds;
    std::set<uint64_t> delKeys;
    int delGrp = -1;
    int numLo = 0, numHi = -1;
    bool delAll = false;
    bool reset = false;
    std::vector<uint64_t> to;
    Stamp inv, done;
    bool isDone = false, failed = false;
    bool bulk = false; // addIndexes: while it runs, near-real-time readers show the segments copied so far
    std::vector<uint64_t> full; // of a bulk operation that failed: what it would have made of the state
};
struct CommitRec {
    Stamp inv, done;
    bool acked = false, failed = false, rolledBack = false;
    int tag = 0;
    std::set<int> also;        // other tags it may carry
    std::vector<int> lo, hi;   // operations of each thread that must / may be in it
};
struct Held {
    Lucene::IndexReaderPtr r;
    uint64_t dump;
    Snapshot snap;
    bool nrt;
    std::string what;
    int owner = -1; // thread that keeps reopening it
    int users = 0;  // threads looking at it
};
typedef std::shared_ptr<Held> HeldPtr;

class World {
public:
    World(const Plan& plan, const std::string& mountName = "d0", int proc = 1);
    ~World();
    // --- configuration
    const Plan& p;
    std::string mnt;
    int proc;
    sim::Disk* disk;
    int nth;
    bool ram;
    uint64_t salt;

    Lucene::DirectoryPtr openDir(const std::string& m, bool forWriter);
    void configure(const Lucene::IndexWriterPtr& w);
    Lucene::IndexWriterPtr openWriter(const Lucene::DirectoryPtr& d, bool create);

    Lucene::DirectoryPtr dir;
    Lucene::IndexWriterPtr w;
    Lucene::IndexDeletionPolicyPtr policy;
    Lucene::AnalyzerPtr analyzer;

    // --- history
    std::vector<std::vector<uint64_t>> base;           // documents at the start, by thread
    std::vector<std::vector<HOp>> hist;
    std::vector<std::deque<std::vector<uint64_t>>> states; // states[t][k]: documents of thread t after k operations
    std::vector<CommitRec> commits;
    std::vector<uint64_t> ver;
    std::vector<HeldPtr> held;
    int nextTag;
    bool exact;          // one thread: order of all documents is known
    bool stop;           // threads stop taking operations
    int mount_n;
    sim::Rng hrng;       // harness choices that depend on the plan only
    int verifyBits;
    bool prepared;
    bool failedOnce;

    Stamp stamp();
    const std::vector<uint64_t>& stateAt(int t, int k);
    std::vector<uint64_t> finalState(int t);
    size_t beginOp(int t, const HOp& h);
    void endOp(int t, size_t idx, bool failed);
    int opsDone(int t) const;      // number of finished operations (prefix)
    int opsInvoked(int t) const;
    size_t beginCommit(int tag);
    void inheritTags(size_t c);
    void endCommit(size_t c, bool ok);

    // --- running
    void start(bool create = true);         // opens directory and writer, makes the first commit
    void run();                             // runs the plan's operations with nth threads
    void exec(int t, const Op& op);         // one operation; exceptions go to onError
    virtual void body(int t);
    virtual void onError(int t, const Op& op, const Lucene::LuceneException& e);
    void finish();                          // close the writer and check the final content
    void closeAll();

    // --- checks
    typedef std::vector<std::vector<uint64_t>> ByThread;
    ByThread split(const std::vector<uint64_t>& uids, const char* ctx);
    // every thread's visible documents must be its state after some number of operations in [lo,hi]
    void checkWindow(const std::vector<uint64_t>& uids, const std::vector<int>& lo, const std::vector<int>& hi, const char* cls, const std::string& ctx, bool parts = false);
    bool inWindow(const std::vector<uint64_t>& uids, const std::vector<int>& lo, const std::vector<int>& hi, std::string* why, bool parts = false);
    // committed content as seen by a reader opened between begin and end, or (byLog) found on a disk crashed at end.log
    void checkCommitted(const std::vector<uint64_t>& uids, const std::string& tag, Stamp begin, Stamp end, bool byLog, const char* cls, const std::string& ctx);
    virtual bool nrtExcused() { return false; } // a rollback is under way: near-real-time readers can show it
    void checkNrt(const Lucene::IndexReaderPtr& r, const std::vector<int>& lo, const std::vector<int>& hi, const std::string& ctx);
    void checkOpen(const Op& op, int t);
    void crashCheck(uint64_t seq, sim::CrashMode mode, uint64_t seed, bool recover);
    void crashChecks(int n, sim::Rng& rng, bool recover, uint64_t fromLog = 0);
    void recheckHeld(HeldPtr h);
    void retireNrt();
    std::vector<int> doneNow(), invokedNow();
    std::string tagOf(const Lucene::IndexReaderPtr& r);
    std::string ctx(const char* what);
    uint64_t newUid(int t, uint64_t id);
    bool noDelNow;
    std::function<void(int, const Op&)> extraOp;
    std::function<void(World&, const std::string&, sim::Disk*, sim::Rng&)> afterRecovery;
};

// plan generation
void genConfig(Plan& p, sim::Rng& r, int tier);       // index and writer settings
void genSched(Plan& p, sim::Rng& r, bool threads);    // scheduling chaos
struct OpMix {
    std::vector<std::pair<int, int>> w;               // kind, weight
    OpMix& add(int kind, int weight) {
        w.push_back(std::make_pair(kind, weight));
        return *this;
    }
};
void genOps(Plan& p, sim::Rng& r, const OpMix& mix, int threads, int perThread, int ids);
Lucene::MapStringString tagMap(int tag);
std::string pathOf(const std::string& mnt);
std::vector<std::string> indexFiles(sim::Disk* d);
}
