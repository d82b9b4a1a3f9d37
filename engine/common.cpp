#include "common.hpp"

std::map<std::string, ProfileFn>& profiles() {
    static auto* reg = new std::map<std::string, ProfileFn>();
    return *reg;
}
Sched anySched(uint64_t seed, int pctStalled) {
    Rng r(seed ^ 0xabcdef);
    if (!r.chance(pctStalled)) return Sched::smooth();
    return Sched::make(seed, r.range(1, 4));
}

void runJudge(Ctx& c, const Episode& ep, uint64_t seed, const Sched& s, uint32_t own, const std::set<std::string>& kinds) {
    setCurrentText(describe(ep));
    c.st.add("sessions");
    Verdict v = judge(ep, seed, s, c.st, own, kinds);
    if (v.violation) c.report(v.text);
    if (c.st.samples.empty() && !ep.steps.empty()) c.st.sample(describe(ep).substr(0, 2500));
}

Knobs quiet() {
    Knobs k;
    k.noise = k.tab = k.escSeq = 0;
    k.ctrlc = k.apiPrint = k.apiTree = k.apiPath = k.reset = k.overlong = 0;
    k.syntax = 0;
    return k;
}

RunResult runReal(const Episode& ep, uint64_t seed, const Sched& s, int feed, Rng* r, bool garbage, uint64_t gap) {
    RealShell sh(&ep.world, seed, garbage);
    sh.poolNodes = false;
    sh.sched = s;
    sh.init();
    for (auto& st : ep.setup) sh.op(st.op);
    sh.outLimit = 500000000;
    sh.run();
    for (auto& st : ep.steps) {
        if (sh.dead) break;
        if (st.kind == ST_API) { sh.run(); sh.step(st); continue; }
        if (feed == 0) sh.step(st);                           // the whole chunk available at once
        else if (feed == 1) for (char ch : st.bytes) { sh.feedBytes(std::string(1, ch)); sh.run(); }
        else {                                               // chunks cut at random, not even idle in between
            size_t i = 0;
            while (i < st.bytes.size()) {
                size_t n = 1 + r->below(6);
                sh.feedBytes(st.bytes.substr(i, n));
                sh.run(r->below(30));
                i += n;
            }
            if (r->chance(50)) sh.run();
        }
        for (uint64_t i = 0; i < gap; i++) sh.service();
    }
    sh.run();
    sh.finish();
    RunResult res;
    res.out = sh.out; res.ev = sh.ev; res.viols = sh.viols; res.services = sh.services;
    res.refusedW = sh.sched.refusedW; res.refusedR = sh.sched.refusedR;
    return res;
}
std::string diffText(const RunResult& a, const RunResult& b, const char* an, const char* bn) {
    size_t i = 0;
    while (i < a.out.size() && i < b.out.size() && a.out[i] == b.out[i]) i++;
    std::string t;
    if (i < a.out.size() || i < b.out.size()) {
        size_t f = i > 80 ? i - 80 : 0;
        t += "output differs at byte " + std::to_string(i) + "\n  " + an + ": " + esc(a.out.substr(f, i - f)) + " >>> " + esc(a.out.substr(i, 150)) +
             "\n  " + bn + ": " + esc(b.out.substr(f, i - f)) + " >>> " + esc(b.out.substr(i, 150)) + "\n";
    }
    for (size_t k = 0; k < std::max(a.ev.size(), b.ev.size()); k++) {
        bool both = k < a.ev.size() && k < b.ev.size();
        if (both && a.ev[k] == b.ev[k] && a.ev[k].outPos == b.ev[k].outPos) continue;
        t += "callback " + std::to_string(k) + " differs\n  " + an + ": " + (k < a.ev.size() ? describe(a.ev[k]) + " at " + std::to_string(a.ev[k].outPos) : "(none)") +
             "\n  " + bn + ": " + (k < b.ev.size() ? describe(b.ev[k]) + " at " + std::to_string(b.ev[k].outPos) : "(none)") + "\n";
        break;
    }
    return t;
}

// State a line may legitimately depend on is carried over to a fresh shell.
void carry(const Model& m, const Episode& ep, Episode& fresh) {
    fresh.world = ep.world;
    std::function<void(const std::string&)> add = [&](const std::string& p) {
        const MNode& n = m.tree.at(p);
        fresh.mount(p, n.dir);
        for (auto it = n.children.rbegin(); it != n.children.rend(); ++it) add(*it);
    };
    add("/");
    bool usual = !m.groups.empty() && m.groups.back() == -1;     // the builtin commands are the oldest group
    bool have = !BUILTIN.empty() && FEAT.commands;
    if (have && !usual) fresh.api(fresh.setup, OP_REMOVE, "", -1);
    for (auto it = m.groups.rbegin(); it != m.groups.rend(); ++it) if (*it >= 0 || !usual) fresh.add(*it);
    fresh.api(fresh.setup, OP_CD, m.cwd);
    for (auto& kv : m.contents) {
        auto& l = kv.first.first >= 0 ? fresh.world.dirs[kv.first.first] : fresh.world.groups[-2 - kv.first.first];
        l.files[kv.first.second].content = kv.second;
    }
}
