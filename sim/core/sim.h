// Deterministic simulator: threads, clock, disk and allocator all live behind this interface.
#pragma once
#include <stdint.h>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed) { s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL; next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    // number of trials until first success, >= 1
    uint64_t geometric(double p);
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- decisions (schedule trace)
enum DevKind : uint8_t {
    DEV_PICK = 'P',   // at step `at` run thread `arg`
    DEV_BB = 'B',     // at basic block `at` preempt and run thread `arg`
    DEV_JUMP = 'T',   // at step `at` jump the clock to the next deadline
    DEV_STALL = 'S',  // at step `at` deschedule the running thread for `arg` ns
    DEV_SPUR = 'W',   // at step `at` spuriously wake condition waiter `arg`
    DEV_CLOCK = 'C',  // at step `at` move the wall clock by `arg` ns
};
struct Dev {
    uint8_t kind;
    uint64_t at;
    int64_t arg;
};

enum FaultKind : uint8_t {
    F_NONE = 0,
    F_EIO,         // operation fails with EIO, no effect
    F_ENOSPC,      // fails with ENOSPC, no effect
    F_SHORT,       // short read / short write (legal, success)
    F_SHORT_ENOSPC,// writes a prefix, then fails with ENOSPC on the rest
    F_EINTR,       // EINTR, no effect (legal)
    F_EACCES,      // open/unlink/rename refused
    F_EMFILE,      // open: too many files
    F_FSYNC_EIO,   // fsync fails; data stays dirty
    F_SLOW,        // the operation takes a long simulated time
    F_NKINDS
};
const char* faultName(int k);

enum OpClass : uint8_t { OC_OPENR = 0, OC_OPENW, OC_READ, OC_WRITE, OC_FSYNC, OC_UNLINK, OC_RENAME, OC_MKDIR, OC_STAT, OC_LIST, OC_TRUNC, OC_LOCK, OC_CLOSE, OC_MMAP, OC_N };
const char* opClassName(int c);

struct FaultHit {
    uint8_t cls;
    uint8_t kind;
    uint64_t at;  // index of the operation inside its class
};

// Parameters of one run, all derived from the plan.
struct SchedParams {
    uint64_t seed = 1;
    int policy = 0;          // 0: random switch with probability p; 1: priorities with change points
    double pSwitch = 0.05;
    double bbMean = 0;       // mean basic blocks between forced preemptions; 0 = off
    int pctDepth = 3;
    uint64_t pctLen = 20000; // estimated steps, for change points
    double pJump = 0;        // probability per step of a clock jump to the next deadline
    double pStall = 0;
    int64_t stallNs = 0;
    double pSpurious = 0;
    double pClock = 0;       // wall clock jumps (CLOCK_REALTIME only)
    int64_t clockNs = 0;
    uint64_t maxSteps = 4000000;
    uint64_t maxBB = 400000000;
    int64_t maxTimeNs = 3600LL * 1000000000LL;
    int64_t stepNs = 300;
    bool explicitDevs = false;
    std::vector<Dev> devs;
};
struct FaultParams {
    uint64_t seed = 1;
    double rate[OC_N][F_NKINDS] = {};
    int maxFaults = 3;
    int burst[OC_N] = {};    // a fault repeats for this many operations of the class in a row
    std::string only;        // if not empty only paths that contain this
    bool explicitHits = false;
    std::vector<FaultHit> hits;
};

// ---------------------------------------------------------------- threads
typedef int Tid;
Tid go(const std::function<void()>& fn, int group = -1);
void join(Tid t);
Tid self();
int currentGroup();
void yield();                       // a scheduling point
void sleepNs(int64_t ns);
int64_t now();                      // simulated monotonic ns
int64_t wallNow();
void killGroup(int group);          // threads of this group never run again
bool threadDone(Tid t);
int liveThreads();                  // threads not finished (simulated)
int liveThreadsInGroup(int group);
void waitThreadsBelow(int n);       // block until at most n unfinished threads remain
void progress();                    // the workload advanced: the step budget starts again
void setChaos(bool on);             // schedule chaos (preemption stays on; stalls/jumps/clock stop when off)
bool inSim();
uint64_t stepCount();
uint64_t eventSeq();                // global event sequence number, one per call
void event(const char* what, int64_t a = 0, int64_t b = 0); // into the trace hash (and log when verbose)
void describeThreads(std::string& out);
void clockSkew(int64_t ns);

struct Calm {                       // this thread is not preempted, but still blocks, and its steps still count
    explicit Calm(bool on = true);
    ~Calm();
    bool m_on;
};
struct NoPreempt {                  // harness-side critical section: scheduling points become no-ops
    NoPreempt();
    ~NoPreempt();
};

// ---------------------------------------------------------------- outcome
[[noreturn]] void violation(const char* cls, const std::string& msg);
[[noreturn]] void internalError(const std::string& msg);
[[noreturn]] void finishOk();
void stat(const char* name, int64_t add = 1);
void statMax(const char* name, int64_t v);
extern bool g_verbose;
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- allocator
void armOom(uint64_t countdown);    // the countdown-th allocation of a non-exempt thread fails
void disarmOom();
bool oomFired();
struct NoOom {
    NoOom();
    ~NoOom();
};
uint64_t liveBytes();
uint64_t liveBlocks();
void heapCheck();

// ---------------------------------------------------------------- disk
struct Disk;
struct CrashMode {
    int metadata = 0;   // 0: journal order, a prefix of un-forced metadata operations survives; 1: independent
    int data = 0;       // 0: all unsynced lost; 1: all kept; 2: random mixture per file (prefix/torn/zero/garbage)
};
Disk* newDisk();
void mount(const std::string& name, Disk* d, int proc);   // visible as /sim/<name>/...
void unmount(const std::string& name);
uint64_t diskSeq(Disk* d);                                  // number of log records so far
// disk as found after a crash when the first `seq` log records had happened
Disk* crashImage(Disk* d, uint64_t seq, CrashMode mode, Rng& rng, uint64_t* hashOut = nullptr);
Disk* cloneDisk(Disk* d);                                   // exact copy of the current content
void freeDisk(Disk* d);
bool seqIsWrite(Disk* d, uint64_t seq);
std::vector<uint64_t> interestingSeqs(Disk* d);            // positions right after/before fsync, unlink, rename, create
std::string describeLog(Disk* d, uint64_t from, uint64_t to);
std::vector<std::string> listFiles(Disk* d, const std::string& dir);
bool readFile(Disk* d, const std::string& path, std::string& out);
bool writeFile(Disk* d, const std::string& path, const std::string& bytes);
bool removeFile(Disk* d, const std::string& path);
uint64_t diskHash(Disk* d);
int openFds(int proc = -1);
std::string describeOpenFds(int proc = -1);
int openMaps(int proc = -1);
void dropProc(int proc);                                    // process death: fds and record locks go
bool fcntlLockHeld(Disk* d, const std::string& path, int* procOut);
void setDiskFull(Disk* d, int64_t bytesLeft);               // -1: unlimited
int64_t diskBytes(Disk* d);
void setFaults(const FaultParams& p);
void enableFaults(bool on);
void resetFaultCounters();
int faultsFired();
int backgroundFaults();                                      // fired in a thread other than the first one
const std::vector<FaultHit>& firedFaults();
uint64_t vfsOps();
void setIoLatency(int64_t minNs, int64_t maxNs);
void setShuffleReaddir(uint64_t seed);
struct VfsWatcher {                                          // harness hook; no scheduling inside
    virtual void op(int cls, const std::string& path, int result) = 0;
    virtual ~VfsWatcher() {}
};
void setWatcher(VfsWatcher* w);

// ---------------------------------------------------------------- run control (used by the runner)
struct RunResult {
    int status;            // 0 running, 1 ok, 2 violation, 3 internal error
    char cls[64];
    char msg[6000];
    uint64_t traceHash, schedHash, steps, bb, vfsops;
    int64_t simNs;
    uint32_t nDev, nHit, nStat, nBt;
    uint64_t bt[48];
    struct { char name[40]; int64_t v; uint8_t isMax; } stats[160];
    FaultHit hits[512];
    uint32_t logLen;
    char log[1 << 20];
    Dev devs[1 << 18];
};
void startRun(RunResult* shared, const SchedParams& sp, const FaultParams& fp, const std::function<void()>& body);
extern uint8_t* g_edges;     // shared edge map
extern uint32_t g_nEdges;
void initProcess();
void installCrashHandlers();

}
