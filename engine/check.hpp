// Lockstep execution of an episode on the real shell and on the model, with attribution of divergences.
#pragma once
#include "model.hpp"
#include "real.hpp"

struct Stats {
    std::map<std::string, uint64_t> n;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0, foreign = 0;
    std::map<std::string, uint64_t> foreignBy;
    void add(const std::string& k, uint64_t v = 1) { n[k] += v; }
    void maxOf(const std::string& k, uint64_t v) { uint64_t& x = n["max." + k]; if (v > x) x = v; }
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
};

struct Outcome {
    bool ok = true;
    std::string kind;        // "output", "event", "order" or the kind of a protocol violation
    uint32_t domain = 0;
    std::string text;
    size_t step = 0;
};

struct Lock {
    const Episode& ep;
    Model m;
    RealShell r;
    size_t eo = 0, ro = 0, e0 = 0;
    Outcome bad;
    std::vector<uint32_t> stepDomains;
    Stats* st;
    uint32_t own;
    Lock(const Episode& e, uint64_t seed, const Sched& s, Stats* st, uint32_t own);
    bool start();              // init + setup + welcome
    bool step(const Step& s);
    bool all();                // start + every step + finish
    bool compare(const std::string& what);
    bool finish();
    void resync();             // what was shown until now is left unjudged
    void collectViol(const std::string& what);
};

// Runs the episode; a divergence is reported when it concerns the own domains, directly or as a consequence of
// own commands executed before (decided by running the episode again without them).
struct Verdict {
    bool violation = false;
    std::string text;
};
Verdict judge(const Episode& ep, uint64_t seed, const Sched& s, Stats& st, uint32_t own, const std::set<std::string>& kinds);
extern const std::set<std::string> KINDS_DEFAULT, KINDS_ALL;
