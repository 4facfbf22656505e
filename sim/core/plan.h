// A run is fully described by a plan: seed, configuration, operations, and (for replays) explicit decisions.
#pragma once
#include "sim.h"

struct Op {
    int th = 0;
    int kind = 0;
    int64_t a = 0, b = 0, c = 0;
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    bool explicitHits = false, explicitDevs = false;
    std::vector<sim::FaultHit> hits;
    std::vector<sim::Dev> devs;
    int64_t get(const char* k, int64_t def = 0) const {
        std::map<std::string, int64_t>::const_iterator it = cfg.find(k);
        return it == cfg.end() ? def : it->second;
    }
    void set(const char* k, int64_t v) { cfg[k] = v; }
    void setRate(int cls, int kind, double r);
};
typedef void (*GenFn)(Plan& p, sim::Rng& rng, int tier);
typedef void (*RunFn)(const Plan& p);
struct PropDef {
    const char* id;
    GenFn gen;
    RunFn run;
    const char* (*opName)(int kind);
};
void registerProp(const PropDef& d);
const PropDef* findProp(const std::string& id);
std::string planText(const Plan& p);
bool parsePlan(const std::string& text, Plan& p, std::map<std::string, std::string>& extra);
void schedFromPlan(const Plan& p, sim::SchedParams& sp, sim::FaultParams& fp);
struct RegisterProp {
    RegisterProp(const char* id, GenFn g, RunFn r, const char* (*n)(int) = nullptr) {
        PropDef d = {id, g, r, n};
        registerProp(d);
    }
};
