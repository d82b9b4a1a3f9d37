#pragma once
#include "check.hpp"
#include "gen.hpp"
#include <functional>

struct Ctx {
    Stats st;
    bool violated = false;
    std::string text;
    uint64_t seed = 1;
    int tier = 0;            // 0 quick, 1 thorough
    void report(const std::string& t) { if (!violated) { violated = true; text = t; } }
};
typedef std::function<void(Ctx&, uint64_t idx, uint64_t seed)> ProfileFn;
std::map<std::string, ProfileFn>& profiles();
void setCurrentText(const std::string& s);   // what to show when the process dies
