// Shared between the files of the simulator core only.
#pragma once
#include "sim.h"
#include "raw.h"
#include <pthread.h>
#include <string.h>

namespace sim {

enum TState : uint8_t { T_FREE = 0, T_RUNNABLE, T_BLOCKED, T_DONE };
enum WaitKind : uint8_t { W_NONE = 0, W_MUTEX, W_COND, W_SLEEP, W_JOIN, W_RWLOCK, W_ONCE, W_FUTEX, W_FLOCK, W_COUNT, W_STALL };
enum WakeReason : uint8_t { R_NONE = 0, R_SIGNAL, R_TIMEOUT, R_SPURIOUS };

static const int MAX_THREADS = 256;
static const int MAX_KEYS = 128;

struct Thread {
    int tid = 0;
    int futexWord = 0;
    TState state = T_FREE;
    uint8_t waitKind = W_NONE;
    uint8_t wakeReason = R_NONE;
    bool realClock = false;
    bool hasDeadline = false;
    bool dead = false;       // killed with its group
    bool detached = false;
    bool joined = false;
    int group = 0;
    int inSim = 0;           // > 0: inside the simulator, basic blocks are not counted
    int noPreempt = 0;
    int calm = 0;
    int noOom = 0;
    int64_t deadline = 0;    // ns, monotonic (or real when realClock)
    const void* waitObj = nullptr;
    uint64_t waitSeq = 0;    // FIFO order
    uint64_t prio = 0;
    uint64_t runSteps = 0;   // consecutive steps while others are runnable
    int savedErrno = 0;
    void* (*entry)(void*) = nullptr;
    void* arg = nullptr;
    void* retval = nullptr;
    void* tss[MAX_KEYS] = {};
    bool realStarted = false;
    char* stackLo = nullptr;
    size_t stackSize = 0;
    void* simJump = nullptr;
};

extern Thread* g_cur;           // running simulated thread; null before the run starts
extern Thread g_threads[MAX_THREADS];
extern int g_nThreads;
extern bool g_running;          // inside a run
extern RunResult* g_res;
extern int64_t g_now;
extern int64_t g_wallOffset;
extern SchedParams g_sp;
extern FaultParams g_fp;

struct Enter {                   // marks simulator code
    Thread* t;
    Enter() : t(g_cur) {
        if (t) {
            ++t->inSim;
        }
    }
    ~Enter() {
        if (t) {
            --t->inSim;
        }
    }
};

void traceMix(uint64_t v);
void schedPoint(int what);                 // may switch threads
// Block the current thread; returns the wake reason.
int block(int kind, const void* obj, bool hasDeadline, int64_t deadline, bool realClock);
void wake(Thread* t, int reason);
int wakeWaiters(int kind, const void* obj, int max, int reason);
void advance(int64_t ns);
void heapInit();
void vfsReset();
void* simAlloc(size_t n);
const char* threadName(Thread* t);
void finishRun(int status, const char* cls, const char* msg);
void captureBacktrace(void* uctx);
const char* waitName(int k);

}
