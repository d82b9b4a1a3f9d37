#pragma once
#include "profiles.hpp"
#include <algorithm>

struct Reg { Reg(const char* n, ProfileFn f) { profiles()[n] = f; } };
#define PROFILE(name) static void name##_fn(Ctx& c, uint64_t idx, uint64_t seed); static Reg name##_reg(#name, name##_fn); \
    static void name##_fn([[maybe_unused]] Ctx& c, [[maybe_unused]] uint64_t idx, [[maybe_unused]] uint64_t seed)

Sched anySched(uint64_t seed, int pctStalled);
void runJudge(Ctx& c, const Episode& ep, uint64_t seed, const Sched& s, uint32_t own, const std::set<std::string>& kinds);
Knobs quiet();
struct RunResult {
    std::string out;
    std::vector<Event> ev;
    std::vector<Viol> viols;
    uint64_t services = 0, refusedW = 0, refusedR = 0;
};
RunResult runReal(const Episode& ep, uint64_t seed, const Sched& s, int feed, Rng* r, bool garbage = true, uint64_t gap = 0);
std::string diffText(const RunResult& a, const RunResult& b, const char* an, const char* bn);
void carry(const Model& m, const Episode& ep, Episode& fresh);   // the same world in a fresh shell
