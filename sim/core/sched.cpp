// Deterministic scheduler: simulated threads are real threads that hand one baton around.
// The pthread and time functions of the whole process end here.
#include "internal.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <exception>
#include <math.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {

Thread* g_cur = nullptr;
Thread g_threads[MAX_THREADS];
int g_nThreads = 0;
bool g_running = false;
RunResult* g_res = nullptr;
int64_t g_now = 0;
int64_t g_wallOffset = 0;
SchedParams g_sp;
FaultParams g_fp;
bool g_verbose = false;
uint8_t* g_edges = nullptr;
uint32_t g_nEdges = 0;
static Thread g_preMain;                 // used before a run starts
static Rng g_rng(1);
static bool g_chaos = false;
static uint64_t g_stepLimit, g_bbLimit; // budgets up to the next operation of the workload
static uint64_t g_steps = 0, g_seq = 0, g_waitSeq = 0;
static uint64_t g_bbDone = 0;            // basic blocks executed up to the start of the current countdown
static uint64_t g_bbPeriod = 0;          // countdown started with this value
static int64_t g_bbLeft = INT64_MAX;
static bool g_bbIsPreempt = false;       // what to do when the countdown ends
static int g_lastRun = 0;
static uint64_t g_nextChange = 0;        // PCT: next priority change point
static const Dev* g_devs = nullptr;      // explicit decisions, sorted by position
static size_t g_nDevs = 0;
static size_t g_devStep = 0;             // cursor over step decisions
static const Dev* g_bbDevs = nullptr;
static size_t g_nBbDevs = 0, g_devBb = 0;
static std::function<void()>* g_body = nullptr;
static const int64_t WALL_BASE = 1300000000LL * 1000000000LL;
static const uint64_t PTHREAD_BASE = 0x7e0000000000ULL;
static const uintptr_t STACK_BASE = 0x300000000000ULL;
static const size_t STACK_SIZE = 1 << 20;

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
uint64_t Rng::geometric(double p) {
    if (p >= 1) {
        return 1;
    }
    double u = unit();
    double v = log(1 - u) / log(1 - p);
    if (v > 1e15) {
        v = 1e15;
    }
    return 1 + (uint64_t)v;
}

void traceMix(uint64_t v) {
    if (g_res) {
        g_res->traceHash = mix(g_res->traceHash, v);
    }
}
void logf(const char* fmt, ...) {
    if (!g_verbose || !g_res) {
        return;
    }
    Enter e;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n < 0) {
        return;
    }
    if (n > (int)sizeof buf - 2) {
        n = sizeof buf - 2;
    }
    char head[64];
    int h = snprintf(head, sizeof head, "%10llu t%-2d %9.3fms ", (unsigned long long)g_steps, g_cur ? g_cur->tid : -1, (double)g_now / 1e6);
    RunResult* r = g_res;
    if (r->logLen + n + h + 2 < sizeof r->log) {
        memcpy(r->log + r->logLen, head, h);
        memcpy(r->log + r->logLen + h, buf, n);
        r->log[r->logLen + h + n] = '\n';
        r->logLen += h + n + 1;
    }
}
void event(const char* what, int64_t a, int64_t b) {
    uint64_t h = 1469598103934665603ULL;
    for (const char* p = what; *p; ++p) {
        h = (h ^ (uint8_t)*p) * 1099511628211ULL;
    }
    traceMix(mix(h, mix((uint64_t)a, (uint64_t)b)));
    if (g_verbose) {
        logf("%s %lld %lld", what, (long long)a, (long long)b);
    }
}
uint64_t eventSeq() {
    return ++g_seq;
}
uint64_t stepCount() {
    return g_steps;
}
static inline uint64_t bbNow() {
    return g_bbDone + (g_bbPeriod - (uint64_t)g_bbLeft);
}

const char* waitName(int k) {
    static const char* n[] = {"running", "mutex", "condition", "sleep", "join", "rwlock", "once", "futex", "file lock", "count", "stalled"};
    return n[k];
}

// ---------------------------------------------------------------- ending a run
static void stashCounters() {
    RunResult* r = g_res;
    r->steps = g_steps;
    r->bb = bbNow();
    r->simNs = g_now;
    r->vfsops = vfsOps();
    const std::vector<FaultHit>& h = firedFaults();
    r->nHit = 0;
    for (size_t i = 0; i < h.size() && r->nHit < 512; ++i) {
        r->hits[r->nHit++] = h[i];
    }
}
void captureBacktrace(void*) {
    void* bt[48];
    int n = backtrace(bt, 48);
    g_res->nBt = n;
    for (int i = 0; i < n; ++i) {
        g_res->bt[i] = (uint64_t)bt[i];
    }
}
void finishRun(int status, const char* cls, const char* msg) {
    static int once = 0;
    if (once++) {
        raw::exitGroup(3);
    }
    if (g_cur) {
        ++g_cur->inSim;
    }
    RunResult* r = g_res;
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    snprintf(r->msg, sizeof r->msg, "%s", msg);
    if (status != 1) {
        traceMix(mix(g_steps, bbNow()));
        captureBacktrace(nullptr);
    }
    stashCounters();
    __atomic_store_n(&r->status, status, __ATOMIC_SEQ_CST);
    raw::exitGroup(0);
}
void violation(const char* cls, const std::string& msg) {
    if (!g_res) {
        fprintf(stderr, "violation outside a run: %s %s\n", cls, msg.c_str());
        raw::exitGroup(96);
    }
    finishRun(2, cls, msg.c_str());
    __builtin_unreachable();
}
void internalError(const std::string& msg) {
    if (!g_res) {
        fprintf(stderr, "internal error outside a run: %s\n", msg.c_str());
        raw::exitGroup(96);
    }
    finishRun(3, "internal", msg.c_str());
    __builtin_unreachable();
}
void finishOk() {
    finishRun(1, "", "");
    __builtin_unreachable();
}
static int statIndex(const char* name, bool isMax) {
    RunResult* r = g_res;
    for (uint32_t i = 0; i < r->nStat; ++i) {
        if (!strcmp(r->stats[i].name, name)) {
            return (int)i;
        }
    }
    if (r->nStat >= sizeof r->stats / sizeof r->stats[0]) {
        return -1;
    }
    snprintf(r->stats[r->nStat].name, sizeof r->stats[0].name, "%s", name);
    r->stats[r->nStat].v = 0;
    r->stats[r->nStat].isMax = isMax;
    return (int)r->nStat++;
}
void stat(const char* name, int64_t add) {
    int i = statIndex(name, false);
    if (i >= 0) {
        g_res->stats[i].v += add;
    }
}
void statMax(const char* name, int64_t v) {
    int i = statIndex(name, true);
    if (i >= 0 && v > g_res->stats[i].v) {
        g_res->stats[i].v = v;
    }
}
void describeThreads(std::string& out) {
    for (int i = 0; i < g_nThreads; ++i) {
        Thread& t = g_threads[i];
        if (t.state == T_FREE || t.state == T_DONE) {
            continue;
        }
        char buf[160];
        snprintf(buf, sizeof buf, "  t%d %s%s", t.tid, t.state == T_RUNNABLE ? "runnable" : "waiting for ", t.state == T_RUNNABLE ? "" : waitName(t.waitKind));
        out += buf;
        if (t.state == T_BLOCKED && t.waitKind == W_MUTEX) {
            int owner = ((const int*)t.waitObj)[0] - 1;
            snprintf(buf, sizeof buf, " held by t%d", owner);
            out += buf;
        }
        if (t.hasDeadline) {
            snprintf(buf, sizeof buf, " (deadline in %.3f ms)", (double)(t.deadline - (t.realClock ? wallNow() : g_now)) / 1e6);
            out += buf;
        }
        if (t.dead) {
            out += " (killed)";
        }
        out += "\n";
    }
}

// ---------------------------------------------------------------- time
int64_t now() {
    return g_now;
}
int64_t wallNow() {
    return WALL_BASE + g_now + g_wallOffset;
}
static int64_t monoDeadline(Thread& t) {
    return t.realClock ? t.deadline - WALL_BASE - g_wallOffset : t.deadline;
}
static void fireDeadlines() {
    for (int i = 0; i < g_nThreads; ++i) {
        Thread& t = g_threads[i];
        if (t.state == T_BLOCKED && t.hasDeadline && !t.dead && monoDeadline(t) <= g_now) {
            wake(&t, R_TIMEOUT);
        }
    }
}
static bool earliestDeadline(int64_t& out) {
    bool any = false;
    for (int i = 0; i < g_nThreads; ++i) {
        Thread& t = g_threads[i];
        if (t.state == T_BLOCKED && t.hasDeadline && !t.dead) {
            int64_t d = monoDeadline(t);
            if (!any || d < out) {
                out = d;
                any = true;
            }
        }
    }
    return any;
}
void advance(int64_t ns) {
    g_now += ns;
}
void clockSkew(int64_t ns) {
    g_wallOffset += ns;
}

// ---------------------------------------------------------------- core switching
void wake(Thread* t, int reason) {
    t->state = T_RUNNABLE;
    t->wakeReason = (uint8_t)reason;
    t->hasDeadline = false;
}
static void recordDev(uint8_t kind, uint64_t at, int64_t arg) {
    RunResult* r = g_res;
    if (r->nDev < sizeof r->devs / sizeof r->devs[0]) {
        r->devs[r->nDev].kind = kind;
        r->devs[r->nDev].at = at;
        r->devs[r->nDev].arg = arg;
    }
    ++r->nDev;
}
static void waitBaton(Thread* me) {
    while (__atomic_load_n(&me->futexWord, __ATOMIC_ACQUIRE) == 0) {
        raw::futexWait(&me->futexWord, 0);
    }
    __atomic_store_n(&me->futexWord, 0, __ATOMIC_RELAXED);
}
static void giveBaton(Thread* t) {
    g_cur = t;
    g_lastRun = t->tid;
    t->runSteps = 0;
    __atomic_store_n(&t->futexWord, 1, __ATOMIC_RELEASE);
    raw::futexWake(&t->futexWord);
}
static void switchTo(Thread* me, Thread* next, int why) {
    g_res->schedHash = mix(g_res->schedHash, ((uint64_t)next->tid << 8) | (uint64_t)why);
    traceMix(((uint64_t)next->tid << 32) ^ g_steps);
    giveBaton(next);
    waitBaton(me);
}
static int runnables(Thread** out) {
    int n = 0;
    for (int i = 0; i < g_nThreads; ++i) {
        Thread& t = g_threads[i];
        if (t.state == T_RUNNABLE && !t.dead) {
            out[n++] = &t;
        }
    }
    return n;
}
static Thread* defaultNext(Thread** r, int n) {
    for (int i = 0; i < n; ++i) {
        if (r[i]->tid > g_lastRun) {
            return r[i];
        }
    }
    return r[0];
}
static Thread* highestPrio(Thread** r, int n) {
    Thread* b = r[0];
    for (int i = 1; i < n; ++i) {
        if (r[i]->prio > b->prio) {
            b = r[i];
        }
    }
    return b;
}
static void deadlock() {
    std::string m = "no thread can run and nothing will wake one:\n";
    describeThreads(m);
    violation("deadlock", m);
}
static void budget(const char* what) {
    std::string m = std::string("no progress: ") + what + " used up\n";
    describeThreads(m);
    violation("no-progress", m);
}
// choose the thread to run when the current one cannot go on
static Thread* chooseBlocked() {
    Thread* r[MAX_THREADS];
    for (;;) {
        int n = runnables(r);
        if (n == 0) {
            int64_t d = 0;
            if (!earliestDeadline(d)) {
                deadlock();
            }
            if (d > g_now) {
                g_now = d;
            }
            if (g_now > g_sp.maxTimeNs) {
                budget("simulated time");
            }
            fireDeadlines();
            continue;
        }
        Thread* def = defaultNext(r, n);
        Thread* pick = def;
        if (g_sp.explicitDevs) {
            while (g_devStep < g_nDevs && g_devs[g_devStep].at < g_steps) {
                ++g_devStep;
            }
            for (size_t i = g_devStep; i < g_nDevs && g_devs[i].at == g_steps; ++i) {
                if (g_devs[i].kind == DEV_PICK) {
                    for (int k = 0; k < n; ++k) {
                        if (r[k]->tid == g_devs[i].arg) {
                            pick = r[k];
                        }
                    }
                }
            }
        } else if (n > 1) {
            pick = g_sp.policy == 1 ? highestPrio(r, n) : r[g_rng.below((uint64_t)n)];
            if (pick != def) {
                recordDev(DEV_PICK, g_steps, pick->tid);
            }
        }
        return pick;
    }
}
int block(int kind, const void* obj, bool hasDeadline, int64_t deadline, bool realClock) {
    Thread* me = g_cur;
    me->state = T_BLOCKED;
    me->waitKind = (uint8_t)kind;
    me->waitObj = obj;
    me->hasDeadline = hasDeadline;
    me->deadline = deadline;
    me->realClock = realClock;
    me->waitSeq = ++g_waitSeq;
    me->wakeReason = R_NONE;
    ++g_steps;
    g_now += g_sp.stepNs;
    fireDeadlines();
    Thread* next = chooseBlocked();
    if (next != me) {
        switchTo(me, next, 1 + kind);
    }
    me->waitKind = W_NONE;
    me->waitObj = nullptr;
    return me->wakeReason;
}
int wakeWaiters(int kind, const void* obj, int max, int reason) {
    int n = 0;
    while (n < max) {
        Thread* best = nullptr;
        for (int i = 0; i < g_nThreads; ++i) {
            Thread& t = g_threads[i];
            if (t.state == T_BLOCKED && t.waitKind == kind && t.waitObj == obj && (!best || t.waitSeq < best->waitSeq)) {
                best = &t;
            }
        }
        if (!best) {
            break;
        }
        wake(best, reason);
        ++n;
    }
    return n;
}

static void applyStall(int64_t ns) {
    block(W_STALL, nullptr, true, g_now + ns, false);
}
// A scheduling point of a running thread.
void schedPoint(int what) {
    Thread* me = g_cur;
    if (!me || !g_running || me->noPreempt) {
        return;
    }
    int savedErrno = errno;
    Enter en;
    ++g_steps;
    g_now += g_sp.stepNs;
    traceMix(((uint64_t)what << 40) ^ ((uint64_t)me->tid << 32) ^ g_steps);
    if (g_steps > g_stepLimit) {
        budget("steps");
    }
    if (g_now > g_sp.maxTimeNs) {
        budget("simulated time");
    }
    fireDeadlines();
    Thread* pick = me;
    int64_t stall = 0;
    Thread* r[MAX_THREADS];
    if (g_sp.explicitDevs) {
        while (g_devStep < g_nDevs && g_devs[g_devStep].at < g_steps) {
            ++g_devStep;
        }
        for (size_t i = g_devStep; i < g_nDevs && g_devs[i].at == g_steps; ++i) {
            const Dev& d = g_devs[i];
            switch (d.kind) {
            case DEV_PICK: {
                int n = runnables(r);
                for (int k = 0; k < n; ++k) {
                    if (r[k]->tid == d.arg) {
                        pick = r[k];
                    }
                }
                break;
            }
            case DEV_JUMP: {
                int64_t e;
                if (earliestDeadline(e)) {
                    if (e > g_now) {
                        g_now = e;
                    }
                    fireDeadlines();
                }
                break;
            }
            case DEV_STALL:
                stall = d.arg;
                break;
            case DEV_SPUR:
                if (d.arg >= 0 && d.arg < g_nThreads && g_threads[d.arg].state == T_BLOCKED && g_threads[d.arg].waitKind == W_COND && !g_threads[d.arg].dead) {
                    wake(&g_threads[d.arg], R_SPURIOUS);
                }
                break;
            case DEV_CLOCK:
                g_wallOffset += d.arg;
                break;
            }
        }
    } else {
        bool calm = me->calm && me->runSteps <= 20000;
        if (g_chaos && !calm) {
            if (g_sp.pJump > 0 && g_rng.chance(g_sp.pJump)) {
                int64_t e;
                if (earliestDeadline(e)) {
                    if (e > g_now) {
                        g_now = e;
                    }
                    recordDev(DEV_JUMP, g_steps, 0);
                    fireDeadlines();
                    stat("sched.clock_jump_to_deadline");
                }
            }
            if (g_sp.pSpurious > 0 && g_rng.chance(g_sp.pSpurious)) {
                int n = 0;
                for (int i = 0; i < g_nThreads; ++i) {
                    if (g_threads[i].state == T_BLOCKED && g_threads[i].waitKind == W_COND && !g_threads[i].dead) {
                        r[n++] = &g_threads[i];
                    }
                }
                if (n) {
                    Thread* t = r[g_rng.below((uint64_t)n)];
                    recordDev(DEV_SPUR, g_steps, t->tid);
                    wake(t, R_SPURIOUS);
                    stat("sched.spurious_wakeup");
                }
            }
            if (g_sp.pClock > 0 && g_rng.chance(g_sp.pClock)) {
                int64_t d = g_rng.range(-g_sp.clockNs, g_sp.clockNs);
                recordDev(DEV_CLOCK, g_steps, d);
                g_wallOffset += d;
                stat("sched.wall_clock_jump");
            }
            if (g_sp.pStall > 0 && g_rng.chance(g_sp.pStall)) {
                stall = 1 + (int64_t)g_rng.below((uint64_t)g_sp.stallNs);
                recordDev(DEV_STALL, g_steps, stall);
                stat("sched.stall");
            }
        }
        if (!stall && !calm) {
            if (g_sp.policy == 1) {
                if (g_steps >= g_nextChange) {
                    me->prio = g_rng.next() >> 34;   // change point: below every initial priority
                    g_nextChange = g_steps + g_rng.geometric((double)g_sp.pctDepth / (double)g_sp.pctLen);
                }
                if (me->runSteps > 3000) {       // fairness
                    me->prio = g_rng.next() >> 34;
                    me->runSteps = 0;
                }
                int n = runnables(r);
                pick = highestPrio(r, n);
            } else if (g_rng.chance(g_sp.pSwitch) || me->runSteps > 20000) {
                int n = runnables(r);
                if (n > 1) {
                    pick = r[g_rng.below((uint64_t)n)];
                }
            }
            if (pick != me) {
                recordDev(DEV_PICK, g_steps, pick->tid);
            }
        }
    }
    ++me->runSteps;
    if (stall) {
        applyStall(stall);
    } else if (pick != me) {
        switchTo(me, pick, 16 + what);
    }
    errno = savedErrno;
}

// ---------------------------------------------------------------- basic blocks
static void bbArm() {
    g_bbDone = bbNow();
    uint64_t cap = g_bbLimit > g_bbDone ? g_bbLimit - g_bbDone : 1;
    uint64_t next = UINT64_MAX;
    if (g_sp.explicitDevs) {
        while (g_devBb < g_nBbDevs && g_bbDevs[g_devBb].at <= g_bbDone) {
            ++g_devBb;
        }
        if (g_devBb < g_nBbDevs) {
            next = g_bbDevs[g_devBb].at - g_bbDone;
        }
    } else if (g_sp.bbMean > 0) {
        next = g_rng.geometric(1.0 / g_sp.bbMean);
    }
    g_bbIsPreempt = next < cap;
    g_bbPeriod = g_bbIsPreempt ? next : cap;
    g_bbLeft = (int64_t)g_bbPeriod;
}
static void __attribute__((noinline)) bbFire() {
    int savedErrno = errno;
    Thread* me = g_cur;
    ++me->inSim;
    uint64_t at = bbNow();
    if (at >= g_bbLimit) {
        budget("instructions (endless loop?)");
    }
    if (g_bbIsPreempt) {
        Thread* r[MAX_THREADS];
        Thread* pick = me;
        int n = runnables(r);
        if (g_sp.explicitDevs) {
            if (g_devBb < g_nBbDevs && g_bbDevs[g_devBb].at == at) {
                for (int k = 0; k < n; ++k) {
                    if (r[k]->tid == g_bbDevs[g_devBb].arg) {
                        pick = r[k];
                    }
                }
            }
        } else if (n > 1 && !me->calm) {
            int k = (int)g_rng.below((uint64_t)n - 1);
            int idx = 0;
            for (int i = 0; i < n; ++i) {
                if (r[i] == me) {
                    continue;
                }
                if (idx++ == k) {
                    pick = r[i];
                }
            }
            recordDev(DEV_BB, at, pick->tid);
            stat("sched.basic_block_preemption");
        }
        bbArm();
        if (pick != me) {
            if (g_sp.policy == 1 && !g_sp.explicitDevs && pick->prio < me->prio) {
                uint64_t p = pick->prio;
                pick->prio = me->prio;
                me->prio = p;
            }
            switchTo(me, pick, 15);
        }
    } else {
        bbArm();
    }
    --me->inSim;
    errno = savedErrno;
}

// ---------------------------------------------------------------- threads
static void runTssDestructors(Thread* t);
static Thread* newThread() {
    for (int i = 0; i < MAX_THREADS; ++i) {
        Thread& t = g_threads[i];
        if (t.state == T_FREE || (t.state == T_DONE && (t.joined || t.detached))) {
            t.tid = i;
            t.dead = t.detached = t.joined = false;
            t.inSim = t.noPreempt = t.noOom = t.calm = 0;
            t.waitKind = W_NONE;
            t.hasDeadline = false;
            t.retval = nullptr;
            t.runSteps = 0;
            memset(t.tss, 0, sizeof t.tss);
            if (i >= g_nThreads) {
                g_nThreads = i + 1;
            }
            return &t;
        }
    }
    internalError("too many threads");
}
static void threadEnd(Thread* t, void* ret) {
    runTssDestructors(t);
    ++t->inSim;
    t->retval = ret;
    t->state = T_DONE;
    ++g_steps;
    g_now += g_sp.stepNs;
    wakeWaiters(W_JOIN, t, MAX_THREADS, R_SIGNAL);
    wakeWaiters(W_COUNT, &g_nThreads, MAX_THREADS, R_SIGNAL);
    Thread* next = chooseBlocked();
    g_res->schedHash = mix(g_res->schedHash, ((uint64_t)next->tid << 8) | 14);
    giveBaton(next);
}
static void* realMain(void* p) {
    Thread* t = (Thread*)p;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = t->stackLo;
    ss.ss_size = 65536;
    raw::sc3(SYS_sigaltstack, (long)&ss, 0);
    for (;;) {
        waitBaton(t);
        void* ret = nullptr;
        ret = t->entry(t->arg);
        threadEnd(t, ret);
    }
    return nullptr;
}
static void startReal(Thread* t) {
    if (!t->realStarted) {
        t->realStarted = true;
        t->stackLo = (char*)(STACK_BASE + (uintptr_t)t->tid * (STACK_SIZE + 131072));
        t->stackSize = STACK_SIZE + 65536;
        void* p = (void*)raw::sc6(SYS_mmap, (long)t->stackLo, (long)t->stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0);
        if (p != t->stackLo) {
            internalError("cannot map a thread stack");
        }
        raw::sc3(SYS_mprotect, (long)(t->stackLo + 65536), 4096, PROT_NONE);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, t->stackLo + 69632, t->stackSize - 69632);
        pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
        pthread_t real;
        int rc = real_pthread_create(&real, &a, realMain, t);
        pthread_attr_destroy(&a);
        if (rc) {
            internalError("real pthread_create failed");
        }
    }
}
static Thread* spawn(void* (*fn)(void*), void* arg, int group) {
    Thread* t = newThread();
    t->entry = fn;
    t->arg = arg;
    t->group = group;
    t->prio = (1ULL << 60) | (g_rng.next() >> 4);
    t->state = T_RUNNABLE;
    startReal(t);
    return t;
}
static void* goMain(void* p) {
    std::function<void()>* f = (std::function<void()>*)p;
    (*f)();
    {
        Enter e;
        delete f;
    }
    return nullptr;
}
Tid go(const std::function<void()>& fn, int group) {
    Thread* t;
    {
        Enter e;
        t = spawn(goMain, new std::function<void()>(fn), group < 0 ? g_cur->group : group);
    }
    schedPoint(1);
    return t->tid;
}
void join(Tid id) {
    Thread* t = &g_threads[id];
    schedPoint(2);
    Enter e;
    while (t->state != T_DONE) {
        block(W_JOIN, t, false, 0, false);
    }
    t->joined = true;
}
Tid self() {
    return g_cur ? g_cur->tid : -1;
}
int currentGroup() {
    return g_cur ? g_cur->group : 0;
}
void yield() {
    schedPoint(3);
}
void sleepNs(int64_t ns) {
    schedPoint(4);
    if (ns <= 0) {
        return;
    }
    Enter e;
    block(W_SLEEP, nullptr, true, g_now + ns, false);
}
void killGroup(int group) {
    for (int i = 0; i < g_nThreads; ++i) {
        if (g_threads[i].group == group && g_threads[i].state != T_DONE) {
            g_threads[i].dead = true;
        }
    }
}
bool threadDone(Tid t) {
    return g_threads[t].state == T_DONE;
}
int liveThreads() {
    int n = 0;
    for (int i = 0; i < g_nThreads; ++i) {
        n += (g_threads[i].state == T_RUNNABLE || g_threads[i].state == T_BLOCKED) && !g_threads[i].dead;
    }
    return n;
}
int liveThreadsInGroup(int group) {
    int n = 0;
    for (int i = 0; i < g_nThreads; ++i) {
        n += (g_threads[i].state == T_RUNNABLE || g_threads[i].state == T_BLOCKED) && !g_threads[i].dead && g_threads[i].group == group;
    }
    return n;
}
void waitThreadsBelow(int n) {
    Enter e;
    while (liveThreads() > n) {
        block(W_COUNT, &g_nThreads, false, 0, false);
    }
}
void progress() {
    g_stepLimit = g_steps + g_sp.maxSteps;
    g_bbLimit = bbNow() + g_sp.maxBB;
    // a run as a whole is bounded too
    g_stepLimit = g_stepLimit < 20 * g_sp.maxSteps ? g_stepLimit : 20 * g_sp.maxSteps;
    g_bbLimit = g_bbLimit < 4 * g_sp.maxBB ? g_bbLimit : 4 * g_sp.maxBB;
}
void setChaos(bool on) {
    g_chaos = on;
}
bool inSim() {
    return g_running && g_cur;
}
Calm::Calm(bool on) : m_on(on && g_cur) {
    if (m_on) {
        ++g_cur->calm;
    }
}
Calm::~Calm() {
    if (m_on) {
        --g_cur->calm;
    }
}
NoPreempt::NoPreempt() {
    if (g_cur) {
        ++g_cur->noPreempt;
    }
}
NoPreempt::~NoPreempt() {
    if (g_cur) {
        --g_cur->noPreempt;
    }
}

static bool devLess(const Dev& a, const Dev& b) {
    return a.at < b.at;
}
static void* bodyMain(void*) {
    (*g_body)();
    finishOk();
    return nullptr;
}
void startRun(RunResult* shared, const SchedParams& sp, const FaultParams& fp, const std::function<void()>& body) {
    g_res = shared;
    memset(shared, 0, offsetof(RunResult, log));
    g_sp = sp;
    g_fp = fp;
    g_rng.reseed(sp.seed);
    g_chaos = true;
    g_stepLimit = g_sp.maxSteps;
    g_bbLimit = g_sp.maxBB;
    g_steps = g_seq = 0;
    g_now = 1000000;
    g_wallOffset = 0;
    std::vector<Dev>* st = new std::vector<Dev>();
    std::vector<Dev>* bb = new std::vector<Dev>();
    for (size_t i = 0; i < sp.devs.size(); ++i) {
        (sp.devs[i].kind == DEV_BB ? bb : st)->push_back(sp.devs[i]);
    }
    for (std::vector<Dev>* v : {st, bb}) {
        std::vector<Dev>& w = *v;
        for (size_t i = 1; i < w.size(); ++i) {       // insertion sort keeps the order of equals
            for (size_t k = i; k > 0 && devLess(w[k], w[k - 1]); --k) {
                std::swap(w[k], w[k - 1]);
            }
        }
    }
    g_devs = st->data();
    g_nDevs = st->size();
    g_bbDevs = bb->data();
    g_nBbDevs = bb->size();
    g_nextChange = 1 + g_rng.below(sp.pctLen ? sp.pctLen : 1);
    setFaults(fp);
    resetFaultCounters();
    g_bbLeft = 0;
    g_bbPeriod = 0;
    g_bbDone = 0;
    bbArm();
    g_body = new std::function<void()>(body);
    Thread* t = spawn(bodyMain, nullptr, 0);
    g_running = true;
    giveBaton(t);
    static int forever = 0;
    for (;;) {
        raw::futexWait(&forever, 0);
    }
}

// ---------------------------------------------------------------- crashes of the code under test
static void onSignal(int sig, siginfo_t* si, void* uc) {
    if (!g_res || !g_running) {
        const char m[] = "sim: crash outside a run\n";
        raw::writeAll(2, m, sizeof m - 1);
        void* bt[40];
        int n = backtrace(bt, 40);
        backtrace_symbols_fd(bt, n, 2);
        raw::exitGroup(98);
    }
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s)%s at address 0x%llx", sig, strsignal(sig), "", (unsigned long long)(sig == SIGABRT ? 0 : (uintptr_t)si->si_addr));
    (void)uc;
    finishRun(2, "crash", b);
}
static void onTerminate() {
    std::string m = "std::terminate";
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (g_cur) {
        ++g_cur->inSim;
    }
    if (ti) {
        int st = 0;
        char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        m += std::string(" with an exception of type ") + (d ? d : ti->name());
    }
    if (g_res && g_running) {
        finishRun(2, "terminate", m.c_str());
    }
    raw::writeAll(2, m.c_str(), m.size());
    raw::writeAll(2, "\n", 1);
    raw::exitGroup(98);
}
void installCrashHandlers() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
    for (int s : sigs) {
        sigaction(s, &sa, nullptr);
    }
    std::set_terminate(onTerminate);
    void* bt[4];
    backtrace(bt, 4);   // loads what it needs now
}
void initProcess() {
    heapInit();
    if (!real_pthread_create) {
        *(void**)&real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    }
}

// ---------------------------------------------------------------- pthread: mutexes
struct Mx {              // overlays pthread_mutex_t; kind stays where glibc has it
    int owner;           // tid + 1, 0 free
    int count;
    int pad1;
    int pad2;
    int kind;            // offset 16
};
static inline int meId() {
    return g_cur ? g_cur->tid + 1 : MAX_THREADS + 1;
}
static int mxLock(Mx* m, bool hasDeadline, int64_t deadline, bool realClock) {
    int me = meId();
    if (m->owner == me) {
        int k = m->kind & 3;
        if (k == PTHREAD_MUTEX_RECURSIVE) {
            ++m->count;
            return 0;
        }
        if (k == PTHREAD_MUTEX_ERRORCHECK) {
            return EDEADLK;
        }
    }
    while (m->owner) {
        if (!g_running) {
            return EDEADLK;
        }
        if (block(W_MUTEX, m, hasDeadline, deadline, realClock) == R_TIMEOUT && m->owner) {
            return ETIMEDOUT;
        }
    }
    m->owner = me;
    m->count = 1;
    return 0;
}
static int mxUnlock(Mx* m) {
    int k = m->kind & 3;
    if (m->owner != meId()) {
        if (k == PTHREAD_MUTEX_RECURSIVE || k == PTHREAD_MUTEX_ERRORCHECK) {
            if (g_running) {
                stat("sched.unlock_not_owner");
            }
            return EPERM;
        }
    } else if (k == PTHREAD_MUTEX_RECURSIVE && --m->count > 0) {
        return 0;
    }
    m->owner = 0;
    m->count = 0;
    if (g_running) {
        wakeWaiters(W_MUTEX, m, MAX_THREADS, R_SIGNAL);
    }
    return 0;
}
static inline int64_t tsNs(const struct timespec* ts) {
    return (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
}
struct Cv {              // overlays pthread_cond_t
    int clock;
};
struct Rw {              // overlays pthread_rwlock_t
    int writer;          // tid + 1
    int readers;
};

static void (*g_keyDtor[MAX_KEYS])(void*);
static bool g_keyUsed[MAX_KEYS];
static int g_nKeys = 0;
static void runTssDestructors(Thread* t) {
    for (int round = 0; round < 4; ++round) {
        bool any = false;
        for (int k = 0; k < g_nKeys; ++k) {
            void* v = t->tss[k];
            if (v && g_keyUsed[k]) {
                t->tss[k] = nullptr;
                if (g_keyDtor[k]) {
                    any = true;
                    g_keyDtor[k](v);
                }
            }
        }
        if (!any) {
            break;
        }
    }
}
static inline Thread* tssThread() {
    return g_cur ? g_cur : &g_preMain;
}
static inline pthread_t handleOf(Thread* t) {
    return (pthread_t)(PTHREAD_BASE + (uint64_t)t->tid * 0x801000ULL);
}
static inline Thread* fromHandle(pthread_t h) {
    uint64_t v = (uint64_t)h - PTHREAD_BASE;
    if (v % 0x801000ULL || v / 0x801000ULL >= (uint64_t)MAX_THREADS) {
        return nullptr;
    }
    return &g_threads[v / 0x801000ULL];
}

}

using namespace sim;

extern "C" {

void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    static uint32_t n = 0;
    if (start == stop || *start) {
        return;
    }
    for (uint32_t* p = start; p < stop; ++p) {
        *p = ++n;
    }
    g_nEdges = n + 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    Thread* t = g_cur;
    if (!t || (t->inSim | t->noPreempt)) {
        return;
    }
    g_edges[*guard] = 1;
    if (--g_bbLeft <= 0) {
        bbFire();
    }
}

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        ((Mx*)m)->kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (g_running && ((Mx*)m)->owner) {
        stat("sched.destroy_locked_mutex");
        return EBUSY;
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    schedPoint(5);
    Enter e;
    return mxLock((Mx*)m, false, 0, false);
}
int pthread_mutex_trylock(pthread_mutex_t* mm) {
    schedPoint(5);
    Enter e;
    Mx* m = (Mx*)mm;
    if (m->owner) {
        if (m->owner == meId() && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            ++m->count;
            return 0;
        }
        return EBUSY;
    }
    m->owner = meId();
    m->count = 1;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    schedPoint(5);
    Enter e;
    return mxLock((Mx*)m, true, tsNs(ts), true);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    schedPoint(5);
    Enter e;
    return mxLock((Mx*)m, true, tsNs(ts), c == CLOCK_REALTIME);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    int rc;
    {
        Enter e;
        rc = mxUnlock((Mx*)m);
    }
    schedPoint(6);
    return rc;
}

int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) {
    *(int*)a = (int)c;
    return 0;
}
int pthread_condattr_getclock(const pthread_condattr_t* a, clockid_t* c) {
    *c = *(const int*)a;
    return 0;
}
int pthread_condattr_init(pthread_condattr_t* a) {
    memset(a, 0, sizeof *a);
    return 0;
}
int pthread_condattr_destroy(pthread_condattr_t*) {
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    memset(c, 0, sizeof *c);
    ((Cv*)c)->clock = a ? *(const int*)a : CLOCK_REALTIME;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) {
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* mm, bool hasDeadline, int64_t deadline, bool realClock) {
    schedPoint(7);
    Enter e;
    if (!g_running) {
        return ETIMEDOUT;
    }
    Mx* m = (Mx*)mm;
    int count = m->count;
    if (m->owner == meId()) {
        m->count = 1;
        mxUnlock(m);
    }
    int r = block(W_COND, c, hasDeadline, deadline, realClock);
    mxLock(m, false, 0, false);
    m->count = count;
    return r == R_TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    return condWait(c, m, false, 0, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    return condWait(c, m, true, tsNs(ts), ((Cv*)c)->clock == CLOCK_REALTIME);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    return condWait(c, m, true, tsNs(ts), clk == CLOCK_REALTIME);
}
int pthread_cond_signal(pthread_cond_t* c) {
    schedPoint(8);
    Enter e;
    if (g_running) {
        wakeWaiters(W_COND, c, 1, R_SIGNAL);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    schedPoint(8);
    Enter e;
    if (g_running) {
        wakeWaiters(W_COND, c, MAX_THREADS, R_SIGNAL);
    }
    return 0;
}

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) {
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    schedPoint(5);
    Enter e;
    Rw* r = (Rw*)l;
    while (r->writer && g_running) {
        block(W_RWLOCK, l, false, 0, false);
    }
    ++r->readers;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    schedPoint(5);
    Enter e;
    Rw* r = (Rw*)l;
    while ((r->writer || r->readers) && g_running) {
        block(W_RWLOCK, l, false, 0, false);
    }
    r->writer = meId();
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    Rw* r = (Rw*)l;
    if (r->writer) {
        return EBUSY;
    }
    ++r->readers;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    Rw* r = (Rw*)l;
    if (r->writer || r->readers) {
        return EBUSY;
    }
    r->writer = meId();
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    {
        Enter e;
        Rw* r = (Rw*)l;
        if (r->writer) {
            r->writer = 0;
        } else if (r->readers) {
            --r->readers;
        }
        if (g_running) {
            wakeWaiters(W_RWLOCK, l, MAX_THREADS, R_SIGNAL);
        }
    }
    schedPoint(6);
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    int* s = (int*)o;
    if (*s == 2) {
        return 0;
    }
    schedPoint(5);
    {
        Enter e;
        while (*s == 1 && g_running) {
            block(W_ONCE, o, false, 0, false);
        }
        if (*s == 2) {
            return 0;
        }
        *s = 1;
    }
    try {
        fn();
    } catch (...) {
        *s = 0;
        Enter e;
        if (g_running) {
            wakeWaiters(W_ONCE, o, MAX_THREADS, R_SIGNAL);
        }
        throw;
    }
    Enter e;
    *s = 2;
    if (g_running) {
        wakeWaiters(W_ONCE, o, MAX_THREADS, R_SIGNAL);
    }
    return 0;
}

int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    for (int i = 0; i < MAX_KEYS; ++i) {
        if (!g_keyUsed[i]) {
            g_keyUsed[i] = true;
            g_keyDtor[i] = d;
            if (i >= g_nKeys) {
                g_nKeys = i + 1;
            }
            *k = (pthread_key_t)i;
            return 0;
        }
    }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) {
    if (k < (unsigned)MAX_KEYS) {
        g_keyUsed[k] = false;
        for (int i = 0; i < g_nThreads; ++i) {
            g_threads[i].tss[k] = nullptr;
        }
        g_preMain.tss[k] = nullptr;
    }
    return 0;
}
void* pthread_getspecific(pthread_key_t k) {
    return k < (unsigned)MAX_KEYS ? tssThread()->tss[k] : nullptr;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    if (k >= (unsigned)MAX_KEYS) {
        return EINVAL;
    }
    tssThread()->tss[k] = (void*)v;
    return 0;
}

pthread_t pthread_self(void) {
    return handleOf(g_cur ? g_cur : &g_preMain);
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!g_running) {
        return EAGAIN;
    }
    Thread* t;
    {
        Enter e;
        t = spawn(fn, arg, g_cur->group);
        int ds = 0;
        if (a && pthread_attr_getdetachstate(a, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) {
            t->detached = true;
        }
        *out = handleOf(t);
        stat("sched.threads_created_by_code_under_test");
    }
    schedPoint(1);
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    schedPoint(2);
    Enter e;
    Thread* t = fromHandle(h);
    if (!t) {
        return ESRCH;
    }
    if (t == g_cur) {
        return EDEADLK;
    }
    while (t->state != T_DONE) {
        block(W_JOIN, t, false, 0, false);
    }
    t->joined = true;
    if (ret) {
        *ret = t->retval;
    }
    return 0;
}
int pthread_timedjoin_np(pthread_t h, void** ret, const struct timespec* ts) {
    schedPoint(2);
    Enter e;
    Thread* t = fromHandle(h);
    if (!t) {
        return ESRCH;
    }
    while (t->state != T_DONE) {
        if (block(W_JOIN, t, true, tsNs(ts), true) == R_TIMEOUT) {
            return ETIMEDOUT;
        }
    }
    t->joined = true;
    if (ret) {
        *ret = t->retval;
    }
    return 0;
}
int pthread_detach(pthread_t h) {
    Thread* t = fromHandle(h);
    if (t) {
        t->detached = true;
    }
    return 0;
}
int sched_yield(void) {
    schedPoint(3);
    return 0;
}

// ---------------------------------------------------------------- time
int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!g_running) {
        return (int)raw::sc3(SYS_nanosleep, (long)req, (long)rem);
    }
    sim::sleepNs(tsNs(req));
    if (rem) {
        rem->tv_sec = 0;
        rem->tv_nsec = 0;
    }
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
    if (!g_running) {
        return (int)-raw::sc6(SYS_clock_nanosleep, c, flags, (long)req, (long)rem, 0, 0);
    }
    if (flags & TIMER_ABSTIME) {
        schedPoint(4);
        Enter e;
        bool real = c == CLOCK_REALTIME;
        if (tsNs(req) > (real ? wallNow() : g_now)) {
            block(W_SLEEP, nullptr, true, tsNs(req), real);
        }
    } else {
        sim::sleepNs(tsNs(req));
    }
    return 0;
}
int usleep(useconds_t us) {
    if (!g_running) {
        struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000};
        return (int)raw::sc3(SYS_nanosleep, (long)&ts, 0);
    }
    sim::sleepNs((int64_t)us * 1000);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!g_running) {
        struct timespec ts = {(time_t)s, 0};
        raw::sc3(SYS_nanosleep, (long)&ts, 0);
        return 0;
    }
    sim::sleepNs((int64_t)s * 1000000000LL);
    return 0;
}
static void clockRead() {
    if (g_cur && !g_cur->inSim) {
        g_now += 20000;    // reading the clock takes time: loops that spin on it end
        schedPoint(9);
    }
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!g_running) {
        return (int)raw::sc3(SYS_clock_gettime, c, (long)ts);
    }
    clockRead();
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wallNow() : g_now;
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!g_running) {
        return (int)raw::sc3(SYS_gettimeofday, (long)tv, 0);
    }
    clockRead();
    int64_t v = wallNow();
    tv->tv_sec = v / 1000000000LL;
    tv->tv_usec = v % 1000000000LL / 1000;
    return 0;
}
time_t time(time_t* t) {
    int64_t v;
    if (!g_running) {
        struct timespec ts;
        raw::sc3(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts);
        v = ts.tv_sec;
    } else {
        clockRead();
        v = wallNow() / 1000000000LL;
    }
    if (t) {
        *t = v;
    }
    return v;
}
clock_t clock(void) {
    return g_running ? (clock_t)(g_now / 1000) : 0;
}

// libstdc++ guards of static locals wait with the raw futex call
int simFutex(int* addr, int op, int val, const struct timespec* ts) {
    int cmd = op & 127;
    if (cmd == 0 || cmd == 9) {
        schedPoint(5);
        Enter e;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        int64_t d = 0;
        if (ts) {
            d = cmd == 0 ? g_now + tsNs(ts) : tsNs(ts);
        }
        if (block(W_FUTEX, addr, ts != nullptr, d, cmd == 9 && (op & 256)) == R_TIMEOUT) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == 1 || cmd == 10) {
        int n;
        {
            Enter e;
            n = wakeWaiters(W_FUTEX, addr, val, R_SIGNAL);
        }
        schedPoint(6);
        return n;
    }
    errno = ENOSYS;
    return -1;
}

}
