// Seeded search over runs, minimisation and replay.
#include "internal.h"
#include "plan.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

using namespace sim;

static std::vector<PropDef>& props() {
    static std::vector<PropDef> v;
    return v;
}
void registerProp(const PropDef& d) {
    props().push_back(d);
}
const PropDef* findProp(const std::string& id) {
    for (PropDef& d : props()) {
        if (id == d.id) {
            return &d;
        }
    }
    return nullptr;
}
void Plan::setRate(int cls, int kind, double r) {
    char k[64];
    snprintf(k, sizeof k, "f.%s.%s", opClassName(cls), faultName(kind));
    cfg[k] = (int64_t)(r * 1e6);
}
void schedFromPlan(const Plan& p, SchedParams& sp, FaultParams& fp) {
    sp.seed = p.seed ^ (uint64_t)p.get("s.reseed", 0) * 7919;
    sp.policy = (int)p.get("s.policy", 0);
    sp.pSwitch = (double)p.get("s.switch_ppm", 50000) * 1e-6;
    sp.bbMean = (double)p.get("s.bb", 0);
    sp.pctDepth = (int)p.get("s.pct_depth", 3);
    sp.pctLen = (uint64_t)p.get("s.pct_len", 20000);
    sp.pJump = (double)p.get("s.jump_ppm", 0) * 1e-6;
    sp.pStall = (double)p.get("s.stall_ppm", 0) * 1e-6;
    sp.stallNs = p.get("s.stall_ns", 50000000);
    sp.pSpurious = (double)p.get("s.spurious_ppm", 0) * 1e-6;
    sp.pClock = (double)p.get("s.clock_ppm", 0) * 1e-6;
    sp.clockNs = p.get("s.clock_ns", 0);
    sp.maxSteps = (uint64_t)p.get("s.max_steps", 6000000);
    sp.maxBB = (uint64_t)p.get("s.max_bb", 1500000000LL);
    sp.maxTimeNs = p.get("s.max_time_ns", 7200LL * 1000000000LL);
    sp.explicitDevs = p.explicitDevs;
    sp.devs = p.devs;
    fp.seed = p.seed ^ 0xf417 ^ (uint64_t)p.get("f.reseed", 0) * 104729;
    fp.maxFaults = (int)p.get("f.max", 3);
    int64_t only = p.get("f.only");
    fp.only = only == 1 ? "/sim/s" : only == 2 ? "/sim/d0" : "";
    for (int c = 0; c < OC_N; ++c) {
        for (int k = 1; k < F_NKINDS; ++k) {
            char key[64];
            snprintf(key, sizeof key, "f.%s.%s", opClassName(c), faultName(k));
            fp.rate[c][k] = (double)p.get(key, 0) * 1e-6;
        }
        char key[64];
        snprintf(key, sizeof key, "f.burst.%s", opClassName(c));
        fp.burst[c] = (int)p.get(key, 0);
    }
    fp.explicitHits = p.explicitHits;
    fp.hits = p.hits;
}
std::string planText(const Plan& p) {
    std::ostringstream o;
    o << "prop " << p.prop << "\nseed " << p.seed << "\nexplicit_hits " << p.explicitHits << "\nexplicit_devs " << p.explicitDevs << "\n";
    for (auto& kv : p.cfg) {
        o << "cfg " << kv.first << " " << kv.second << "\n";
    }
    const PropDef* d = findProp(p.prop);
    for (const Op& x : p.ops) {
        o << "op " << x.th << " " << x.kind << " " << x.a << " " << x.b << " " << x.c;
        if (d && d->opName && d->opName(x.kind)) {
            o << "  # " << d->opName(x.kind);
        }
        o << "\n";
    }
    for (const FaultHit& h : p.hits) {
        o << "hit " << (int)h.cls << " " << (int)h.kind << " " << h.at << "  # " << opClassName(h.cls) << " " << faultName(h.kind) << "\n";
    }
    for (const Dev& v : p.devs) {
        o << "dev " << (char)v.kind << " " << v.at << " " << v.arg << "\n";
    }
    return o.str();
}
bool parsePlan(const std::string& text, Plan& p, std::map<std::string, std::string>& extra) {
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "prop") {
            l >> p.prop;
        } else if (k == "seed") {
            l >> p.seed;
        } else if (k == "explicit_hits") {
            l >> p.explicitHits;
        } else if (k == "explicit_devs") {
            l >> p.explicitDevs;
        } else if (k == "cfg") {
            std::string n;
            int64_t v;
            l >> n >> v;
            p.cfg[n] = v;
        } else if (k == "op") {
            Op o;
            l >> o.th >> o.kind >> o.a >> o.b >> o.c;
            p.ops.push_back(o);
        } else if (k == "hit") {
            int c, kd;
            FaultHit h;
            l >> c >> kd >> h.at;
            h.cls = (uint8_t)c;
            h.kind = (uint8_t)kd;
            p.hits.push_back(h);
        } else if (k == "dev") {
            char c;
            Dev d;
            l >> c >> d.at >> d.arg;
            d.kind = (uint8_t)c;
            p.devs.push_back(d);
        } else {
            std::string rest;
            std::getline(l, rest);
            extra[k] = rest.empty() ? "" : rest.substr(1);
        }
    }
    return findProp(p.prop) != nullptr;
}

// ---------------------------------------------------------------- one run in a child
static RunResult* newResult() {
    RunResult* r = (RunResult*)::mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) {
        perror("mmap");
        _exit(90);
    }
    return r;
}
static uint8_t* newShared(size_t n) {
    uint8_t* p = (uint8_t*)::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(90);
    }
    return p;
}
static const int REAL_TIMEOUT_S = 150;
static pid_t forkRun(const Plan& p, RunResult* r) {
    r->status = 0;
    r->nStat = 0;
    r->nDev = 0;
    r->logLen = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(REAL_TIMEOUT_S);
        const PropDef* d = findProp(p.prop);
        SchedParams sp;
        FaultParams fp;
        schedFromPlan(p, sp, fp);
        Plan* copy = new Plan(p);
        startRun(r, sp, fp, [d, copy]() { d->run(*copy); });
        _exit(0);
    }
    return pid;
}
static void reap(pid_t pid, RunResult* r) {
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (r->status == 0) {
        r->status = 3;
        snprintf(r->cls, sizeof r->cls, "died");
        snprintf(r->msg, sizeof r->msg, "the run's process ended without a result (wait status 0x%x)", st);
    }
}
static void runPlan(const Plan& p, RunResult* r) {
    reap(forkRun(p, r), r);
}
static Plan makePlan(const PropDef* d, uint64_t seed, int tier) {
    Plan p;
    p.prop = d->id;
    p.seed = seed;
    Rng rng(mix(seed, 0xabcdef));
    d->gen(p, rng, tier);
    return p;
}

struct Known {
    std::string prop, cls, match;
};
static std::vector<Known> g_known;
static int knownIndex(const std::string& prop, RunResult* r) {
    for (size_t i = 0; i < g_known.size(); ++i) {
        if (g_known[i].prop == prop && g_known[i].cls == r->cls && strstr(r->msg, g_known[i].match.c_str())) {
            return (int)i;
        }
    }
    return -1;
}

// ---------------------------------------------------------------- batches and minimisation
struct Lite {
    int status = 0;
    std::string cls, msg;
    uint64_t hash = 0;
    bool known = false;
    std::vector<FaultHit> hits;
    std::vector<Dev> devs;
    bool devsComplete = true;
    std::vector<uint64_t> bt;
};
static Lite lite(RunResult* r, const std::string& prop) {
    Lite l;
    l.status = r->status;
    l.cls = r->cls;
    l.msg = r->msg;
    l.hash = r->traceHash;
    l.known = r->status == 2 && knownIndex(prop, r) >= 0;
    l.hits.assign(r->hits, r->hits + r->nHit);
    uint32_t cap = sizeof r->devs / sizeof r->devs[0];
    l.devsComplete = r->nDev <= cap;
    l.devs.assign(r->devs, r->devs + std::min(r->nDev, cap));
    l.bt.assign(r->bt, r->bt + r->nBt);
    return l;
}
static std::vector<RunResult*> g_batch;
static std::vector<Lite> evalBatch(const std::vector<Plan>& v, int jobs) {
    while ((int)g_batch.size() < jobs) {
        g_batch.push_back(newResult());
    }
    std::vector<Lite> out(v.size());
    for (size_t i = 0; i < v.size(); i += (size_t)jobs) {
        std::vector<pid_t> pids;
        size_t n = std::min(v.size() - i, (size_t)jobs);
        for (size_t k = 0; k < n; ++k) {
            pids.push_back(forkRun(v[i + k], g_batch[k]));
        }
        for (size_t k = 0; k < n; ++k) {
            reap(pids[k], g_batch[k]);
            out[i + k] = lite(g_batch[k], v[i + k].prop);
        }
    }
    return out;
}
static double g_minEnd = 0;
static bool minTime() {
    return raw::realSeconds() < g_minEnd;
}
static bool same(const Lite& a, const std::string& cls) {
    return a.status == 2 && a.cls == cls && !a.known;
}
// generic delta debugging over the items of a plan
template <class T, class Put> static bool ddmin(Plan& best, Lite& bestRes, std::vector<T> items, Put put, const std::string& cls, int jobs) {
    bool any = false;
    size_t chunk = std::max<size_t>(1, items.size() / 2);
    while (!items.empty() && minTime()) {
        bool progress = false;
        for (size_t i = 0; i < items.size() && minTime();) {
            std::vector<Plan> cand;
            std::vector<std::vector<T>> sets;
            for (int j = 0; j < jobs && i + (size_t)j * chunk < items.size(); ++j) {
                std::vector<T> s;
                size_t lo = i + (size_t)j * chunk, hi = std::min(items.size(), lo + chunk);
                s.insert(s.end(), items.begin(), items.begin() + (long)lo);
                s.insert(s.end(), items.begin() + (long)hi, items.end());
                Plan p = best;
                put(p, s);
                cand.push_back(p);
                sets.push_back(s);
            }
            std::vector<Lite> res = evalBatch(cand, jobs);
            bool hit = false;
            for (size_t k = 0; k < res.size(); ++k) {
                if (same(res[k], cls)) {
                    items = sets[k];
                    best = cand[k];
                    bestRes = res[k];
                    progress = any = hit = true;
                    i += k * chunk;
                    break;
                }
            }
            if (!hit) {
                i += (size_t)jobs * chunk;
            }
        }
        if (chunk == 1 && !progress) {
            break;
        }
        if (!progress || chunk > items.size()) {
            chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    return any;
}
static bool tryCfg(Plan& best, Lite& bestRes, const char* key, int64_t v, const std::string& cls, int jobs) {
    if (best.get(key, 0) == v || !best.cfg.count(key)) {
        return false;
    }
    std::vector<Plan> cand;
    for (int k = 0; k < 4; ++k) {
        Plan p = best;
        p.cfg[key] = v;
        if (k) {
            p.cfg["s.reseed"] = best.get("s.reseed", 0) + k;
        }
        cand.push_back(p);
    }
    std::vector<Lite> r = evalBatch(cand, jobs);
    for (size_t k = 0; k < r.size(); ++k) {
        if (same(r[k], cls)) {
            best = cand[k];
            bestRes = r[k];
            return true;
        }
    }
    return false;
}
static void minimise(Plan& best, Lite& bestRes, double seconds, int jobs) {
    g_minEnd = raw::realSeconds() + seconds;
    std::string cls = bestRes.cls;
    auto putOps = [](Plan& p, const std::vector<Op>& s) { p.ops = s; };
    ddmin(best, bestRes, best.ops, putOps, cls, jobs);
    static const char* zero[] = {"s.bb", "s.jump_ppm", "s.stall_ppm", "s.spurious_ppm", "s.clock_ppm", "io.latency", "io.shuffle", "s.policy"};
    for (const char* k : zero) {
        if (minTime()) {
            tryCfg(best, bestRes, k, 0, cls, jobs);
        }
    }
    std::vector<std::string> rates;
    for (auto& kv : best.cfg) {
        if (kv.first.compare(0, 2, "f.") == 0 && kv.first != "f.max" && kv.second) {
            rates.push_back(kv.first);
        }
    }
    for (std::string& k : rates) {
        if (minTime()) {
            tryCfg(best, bestRes, k.c_str(), 0, cls, jobs);
        }
    }
    int64_t sw[] = {1000, 10000};
    for (int64_t v : sw) {
        if (minTime() && best.get("s.switch_ppm", 50000) > v && tryCfg(best, bestRes, "s.switch_ppm", v, cls, jobs)) {
            break;
        }
    }
    ddmin(best, bestRes, best.ops, putOps, cls, jobs);
    // explicit faults
    if (!best.explicitHits) {
        Plan p = best;
        p.explicitHits = true;
        p.hits = bestRes.hits;
        std::vector<Lite> r = evalBatch({p}, jobs);
        if (same(r[0], cls)) {
            best = p;
            bestRes = r[0];
            ddmin(best, bestRes, best.hits, [](Plan& q, const std::vector<FaultHit>& s) { q.hits = s; }, cls, jobs);
        }
    }
    if (!best.explicitDevs && bestRes.devsComplete) {
        Plan p = best;
        p.explicitDevs = true;
        p.devs = bestRes.devs;
        std::vector<Lite> r = evalBatch({p}, jobs);
        if (same(r[0], cls)) {
            best = p;
            bestRes = r[0];
            ddmin(best, bestRes, best.devs, [](Plan& q, const std::vector<Dev>& s) { q.devs = s; }, cls, jobs);
        }
    }
}

// ---------------------------------------------------------------- exploration
struct WorkerShared {
    volatile uint64_t runs, violations, internal, steps, bb, vfsops, nondet, detChecked;
    volatile int64_t simNs;
    volatile uint64_t knownHits[64];
    volatile int found;              // 1: violation, 2: internal error
    volatile uint64_t foundSeed;
    char foundMsg[4000];
    uint32_t nStat;
    struct { char name[40]; int64_t v; uint8_t isMax; } stats[400];
    uint32_t nHash;
    uint64_t trace[1 << 19], sched[1 << 19];
};
static void addStats(WorkerShared* w, RunResult* r) {
    for (uint32_t i = 0; i < r->nStat; ++i) {
        uint32_t k = 0;
        while (k < w->nStat && strcmp(w->stats[k].name, r->stats[i].name)) {
            ++k;
        }
        if (k == w->nStat) {
            if (k == 400) {
                continue;
            }
            memcpy(w->stats[k].name, r->stats[i].name, 40);
            w->stats[k].v = 0;
            w->stats[k].isMax = r->stats[i].isMax;
            ++w->nStat;
        }
        if (r->stats[i].isMax) {
            w->stats[k].v = std::max(w->stats[k].v, r->stats[i].v);
        } else {
            w->stats[k].v += r->stats[i].v;
        }
    }
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}
static std::map<std::string, std::string> g_args;
static std::string arg(const char* k, const char* def = "") {
    return g_args.count(k) ? g_args[k] : def;
}
static std::string slurp(const std::string& path) {
    std::ifstream f(path);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static volatile int* g_stopAll;

static int explore() {
    std::string id = arg("prop");
    const PropDef* d = findProp(id);
    if (!d) {
        fprintf(stderr, "unknown property %s\n", id.c_str());
        return 2;
    }
    uint64_t base = strtoull(arg("seed", "1").c_str(), nullptr, 10) * 1000003ULL;
    uint64_t n = strtoull(arg("n", "1000").c_str(), nullptr, 10);
    double secs = atof(arg("secs", "60").c_str());
    int jobs = atoi(arg("jobs", "8").c_str());
    int tier = arg("tier", "quick") == "thorough" ? 1 : 0;
    int detEvery = atoi(arg("det", "50").c_str());
    double minSecs = atof(arg("minsecs", "60").c_str());
    bool keepGoing = arg("keepgoing", "0") == "1";
    double t0 = raw::realSeconds();
    std::vector<WorkerShared*> ws;
    std::vector<uint8_t*> edges;
    std::vector<pid_t> pids;
    g_stopAll = (volatile int*)newShared(4096);
    long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    for (int w = 0; w < jobs; ++w) {
        ws.push_back((WorkerShared*)newShared(sizeof(WorkerShared)));
        edges.push_back(newShared(g_nEdges + 4096));
    }
    fflush(stdout);
    for (int w = 0; w < jobs; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            cpu_set_t cs;
            CPU_ZERO(&cs);
            CPU_SET(w % ncpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            WorkerShared* me = ws[w];
            g_edges = edges[w];
            RunResult* r = newResult();
            RunResult* r2 = newResult();
            for (uint64_t i = (uint64_t)w + strtoull(arg("from", "0").c_str(), nullptr, 10); i < n && !*g_stopAll && raw::realSeconds() - t0 < secs; i += (uint64_t)jobs) {
                uint64_t seed = base + i;
                Plan p = makePlan(d, seed, tier);
                runPlan(p, r);
                me->runs = me->runs + 1;
                me->steps += r->steps;
                me->bb += r->bb;
                me->vfsops += r->vfsops;
                me->simNs += r->simNs;
                addStats(me, r);
                if (me->nHash < (1u << 19)) {
                    me->trace[me->nHash] = r->traceHash;
                    me->sched[me->nHash] = r->schedHash;
                    ++me->nHash;
                }
                if (detEvery && (i / (uint64_t)jobs) % (uint64_t)detEvery == 0) {
                    // the same seed again must be the same execution
                    runPlan(p, r2);
                    me->detChecked = me->detChecked + 1;
                    if (r2->traceHash != r->traceHash || r2->status != r->status) {
                        me->nondet = me->nondet + 1;
                        snprintf(me->foundMsg, sizeof me->foundMsg, "seed %llu is not reproducible: %llx/%llx status %d/%d %s", (unsigned long long)seed, (unsigned long long)r->traceHash, (unsigned long long)r2->traceHash, r->status, r2->status, r->msg);
                        me->foundSeed = seed;
                        me->found = 2;
                        *g_stopAll = 1;
                        break;
                    }
                }
                if (r->status == 2) {
                    int k = knownIndex(id, r);
                    if (k >= 0) {
                        me->knownHits[k] = me->knownHits[k] + 1;
                        continue;
                    }
                    me->violations = me->violations + 1;
                    if (keepGoing) {
                        char line[300];
                        int ln = snprintf(line, sizeof line, "seed %llu %s: %.180s\n", (unsigned long long)seed, r->cls, r->msg);
                        for (int q = 0; q < ln - 1; ++q) {
                            if (line[q] == '\n') {
                                line[q] = ' ';
                            }
                        }
                        if (write(1, line, (size_t)ln) < 0) {
                        }
                        continue;
                    }
                    me->foundSeed = seed;
                    me->found = 1;
                    *g_stopAll = 1;
                } else if (r->status == 3) {
                    me->internal = me->internal + 1;
                    snprintf(me->foundMsg, sizeof me->foundMsg, "seed %llu: %s: %.3000s", (unsigned long long)seed, r->cls, r->msg);
                    if (keepGoing) {
                        char line[300];
                        int ln = snprintf(line, sizeof line, "seed %llu INTERNAL %s: %.180s\n", (unsigned long long)seed, r->cls, r->msg);
                        if (write(1, line, (size_t)ln) < 0) {
                        }
                        continue;
                    }
                    me->foundSeed = seed;
                    me->found = 2;
                    *g_stopAll = 1;
                }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (pid_t p : pids) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            fprintf(stderr, "a worker ended abnormally: 0x%x\n", st);
            return 2;
        }
    }
    double wall = raw::realSeconds() - t0;
    g_edges = newShared(g_nEdges + 4096);
    uint64_t runs = 0, steps = 0, bb = 0, vfs = 0, det = 0;
    int64_t simNs = 0;
    int found = 0;
    uint64_t seed = 0;
    std::string fmsg;
    std::map<std::string, int64_t> stats;
    std::set<uint64_t> tr, sc;
    uint64_t edgesHit = 0;
    for (uint32_t e = 0; e < g_nEdges; ++e) {
        bool h = false;
        for (int w = 0; w < jobs; ++w) {
            h |= edges[w][e] != 0;
        }
        edgesHit += h;
    }
    std::vector<uint64_t> known(g_known.size(), 0);
    for (int w = 0; w < jobs; ++w) {
        runs += ws[w]->runs;
        steps += ws[w]->steps;
        bb += ws[w]->bb;
        vfs += ws[w]->vfsops;
        simNs += ws[w]->simNs;
        det += ws[w]->detChecked;
        for (uint32_t i = 0; i < ws[w]->nStat; ++i) {
            if (ws[w]->stats[i].isMax) {
                stats[ws[w]->stats[i].name] = std::max(stats[ws[w]->stats[i].name], ws[w]->stats[i].v);
            } else {
                stats[ws[w]->stats[i].name] += ws[w]->stats[i].v;
            }
        }
        tr.insert(ws[w]->trace, ws[w]->trace + ws[w]->nHash);
        sc.insert(ws[w]->sched, ws[w]->sched + ws[w]->nHash);
        for (size_t k = 0; k < known.size(); ++k) {
            known[k] += ws[w]->knownHits[k];
        }
        // a violation before an internal error; the lowest seed first
        if (ws[w]->found && (!found || (ws[w]->found == found && ws[w]->foundSeed < seed) || (ws[w]->found == 1 && found == 2))) {
            found = ws[w]->found;
            seed = ws[w]->foundSeed;
            fmsg = ws[w]->foundMsg;
        }
    }
    int rc = 0;
    std::string vtext;
    std::string replayPath;
    if (found == 2) {
        fprintf(stderr, "ERROR of the check: %s\n", fmsg.c_str());
        rc = 2;
    } else if (found == 1) {
        std::vector<Plan> two(2, makePlan(d, seed, tier));
        std::vector<Lite> r = evalBatch(two, 2);
        if (r[0].status != 2 || r[1].status != 2 || r[0].hash != r[1].hash) {
            fprintf(stderr, "ERROR of the check: seed %llu violated the property but does not repeat exactly (%d/%d %llx/%llx)\n", (unsigned long long)seed, r[0].status, r[1].status, (unsigned long long)r[0].hash, (unsigned long long)r[1].hash);
            rc = 2;
        } else {
            Plan best = two[0];
            Lite res = r[0];
            size_t ops0 = best.ops.size(), devs0 = res.devs.size(), hits0 = res.hits.size();
            minimise(best, res, minSecs, jobs);
            std::vector<Plan> chk(2, best);
            r = evalBatch(chk, 2);
            if (!(r[0].status == 2 && r[1].status == 2 && r[0].hash == r[1].hash && r[0].hash == res.hash)) {
                fprintf(stderr, "ERROR of the check: the minimised plan of seed %llu does not repeat exactly\n", (unsigned long long)seed);
                rc = 2;
            } else {
                replayPath = arg("replay_dir", ".") + "/" + id + "-" + std::to_string(seed) + ".replay";
                std::ofstream f(replayPath);
                f << "# replay with: lsim replay " << replayPath << "\n";
                f << "# original: " << ops0 << " operations, " << devs0 << " schedule decisions, " << hits0 << " faults; minimised: " << best.ops.size() << ", " << (best.explicitDevs ? best.devs.size() : res.devs.size()) << ", " << res.hits.size() << "\n";
                std::istringstream ml(res.cls + ": " + res.msg);
                std::string line;
                while (std::getline(ml, line)) {
                    f << "# " << line << "\n";
                }
                f << "expect_class " << res.cls << "\nexpect_hash " << res.hash << "\n" << planText(best);
                f.close();
                rc = 1;
                std::ostringstream o;
                o << res.cls << ": " << res.msg << "\nseed " << seed << "; minimised to " << best.ops.size() << " operations (from " << ops0 << "), " << (best.explicitDevs ? best.devs.size() : res.devs.size()) << " schedule decisions (from " << devs0 << "), " << res.hits.size() << " faults (from " << hits0 << ")\n";
                vtext = o.str();
                printf("%s", vtext.c_str());
                printf("backtrace");
                for (uint64_t a : res.bt) {
                    printf(" 0x%llx", (unsigned long long)a);
                }
                printf("\n");
            }
        }
    }
    std::string out = arg("out");
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"prop\":" << jstr(id) << ",\"runs\":" << runs << ",\"wall_s\":" << wall << ",\"steps\":" << steps << ",\"basic_blocks\":" << bb << ",\"vfs_ops\":" << vfs << ",\"sim_ns\":" << simNs << ",\"edges_hit\":" << edgesHit << ",\"edges_total\":" << g_nEdges
          << ",\"distinct_traces\":" << tr.size() << ",\"distinct_schedules\":" << sc.size() << ",\"determinism_rechecks\":" << det << ",\"base_seed\":" << base << ",\"rc\":" << rc << ",\"jobs\":" << jobs << ",\"stats\":{";
        bool first = true;
        for (auto& kv : stats) {
            f << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second;
            first = false;
        }
        f << "},\"known\":[";
        for (size_t k = 0; k < known.size(); ++k) {
            f << (k ? "," : "") << known[k];
        }
        f << "],\"samples\":[";
        for (int i = 0; i < 2; ++i) {
            Plan p = makePlan(d, base + (uint64_t)i, tier);
            std::string t = planText(p);
            if (t.size() > 3000) {
                t = t.substr(0, 3000) + "...";
            }
            f << (i ? "," : "") << jstr(t);
        }
        f << "],\"violation\":" << jstr(vtext) << ",\"replay\":" << jstr(replayPath) << "}\n";
    }
    return rc;
}

static int replay(const std::string& path, bool verbose) {
    Plan p;
    std::map<std::string, std::string> extra;
    if (!parsePlan(slurp(path), p, extra)) {
        fprintf(stderr, "cannot parse %s\n", path.c_str());
        return 2;
    }
    g_edges = newShared(g_nEdges + 4096);
    g_verbose = verbose;
    RunResult* r = newResult();
    runPlan(p, r);
    if (verbose) {
        if (write(1, r->log, r->logLen) < 0) {
        }
    }
    static const char* st[] = {"?", "ok", "VIOLATION", "INTERNAL ERROR"};
    printf("%s %s\n%s\n", st[r->status], r->cls, r->msg);
    printf("trace hash %llu, %llu steps, %.3f simulated s, %u decisions, %u faults\n", (unsigned long long)r->traceHash, (unsigned long long)r->steps, (double)r->simNs * 1e-9, r->nDev, r->nHit);
    if (r->status >= 2) {
        printf("backtrace");
        for (uint32_t i = 0; i < r->nBt; ++i) {
            printf(" 0x%llx", (unsigned long long)r->bt[i]);
        }
        printf("\n");
    }
    if (extra.count("expect_hash")) {
        bool ok = r->status == 2 && strtoull(extra["expect_hash"].c_str(), nullptr, 10) == r->traceHash && extra["expect_class"] == r->cls;
        printf("%s\n", ok ? "REPRODUCED exactly" : "NOT reproduced");
        return ok ? 1 : r->status == 2 ? 3 : 0;
    }
    return r->status == 2 ? 1 : r->status == 1 ? 0 : 2;
}
static int single(bool verbose) {
    const PropDef* d = findProp(arg("prop"));
    if (!d) {
        return 2;
    }
    uint64_t seed = strtoull(arg("seed", "1").c_str(), nullptr, 10);
    Plan p = makePlan(d, seed, arg("tier", "quick") == "thorough");
    std::ofstream f("/tmp/lsim.plan");
    f << planText(p);
    f.close();
    return replay("/tmp/lsim.plan", verbose);
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE)) {
        personality((unsigned long)pers | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
        perror("exec");
        return 2;
    }
    setenv("LC_ALL", "C.UTF-8", 1);
    initProcess();
    installCrashHandlers();
    std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0 && a.find('=') != std::string::npos) {
            g_args[a.substr(2, a.find('=') - 2)] = a.substr(a.find('=') + 1);
        } else {
            pos.push_back(a);
        }
    }
    if (!arg("known").empty()) {
        std::istringstream k(slurp(arg("known")));
        std::string line;
        while (std::getline(k, line)) {
            size_t a = line.find('\t'), b = a == std::string::npos ? a : line.find('\t', a + 1);
            if (b != std::string::npos && g_known.size() < 64) {
                Known x;
                x.prop = line.substr(0, a);
                x.cls = line.substr(a + 1, b - a - 1);
                x.match = line.substr(b + 1);
                g_known.push_back(x);
            }
        }
    }
    if (cmd == "explore") {
        return explore();
    }
    if (cmd == "replay" && !pos.empty()) {
        return replay(pos[0], pos.size() > 1 && pos[1] == "-v");
    }
    if (cmd == "seed") {
        return single(!pos.empty() && pos[0] == "-v");
    }
    if (cmd == "list") {
        for (PropDef& d : props()) {
            printf("%s\n", d.id);
        }
        return 0;
    }
    fprintf(stderr, "usage: lsim explore --prop=ID --seed=S --n=N --secs=T --jobs=J [--out=F] | replay FILE [-v] | seed --prop=ID --seed=S [-v] | list\n");
    return 2;
}
