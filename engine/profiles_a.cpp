#include "common.hpp"

// ---- P01: memory safety -----------------------------------------------------------------------
// Anything may be typed and any valid call may be made at any moment; only the monitors judge.
static void hostile(Gen& g, Episode& ep, Rng& r, int percent) {
    if (r.chance(15))                                   // nameless files
        for (auto* v : {&ep.world.dirs, &ep.world.groups})
            for (auto& l : *v)
                for (auto& f : l.files) if (r.chance(25)) f.name.clear();
    // hostile mutations of the typed bytes
    for (auto& s : ep.steps) {
        if (s.kind != ST_TYPE || !r.chance(percent)) continue;
        int n = r.range(1, 6);
        for (int i = 0; i < n; i++) {
            static const char* tok[] = {"\t", "\r", "\n", "\x1b", "\x1b[", "\x1b[A", "\x08", "\x7f", "\x03", "\\", "\"", "\\x", " ", "  ", "/", "//", "..", "./", "../",
                                        ">", "\\\\", "\x1bO", "cat ", "ls ", "xxd ", "echo ", "cd ", "help ", "pwd", "echo a > "};
            std::string t;
            int w = (int)r.below(10);
            if (w < 5) t = tok[r.below(30)];
            else if (w < 6) t = std::string(1, '\0');
            else if (w < 8) t = std::string(1, (char)r.next());
            else if (w < 9) t = std::string(r.below(2 * ep.world.inSize + 4), (char)r.range(32, 126));
            else if (!g.pool.empty()) t = r.pick(g.pool);
            size_t at = r.below(s.bytes.size() + 1);
            if (r.chance(20) && !s.bytes.empty()) s.bytes.erase(at ? at - 1 : 0, 1);
            at = std::min(at, s.bytes.size());
            s.bytes.insert(at, t);
        }
    }
}

static void fuzzEpisode(Ctx& c, uint64_t seed, int flavour, bool garbage = true) {
    Knobs k;
    Rng r(seed);
    k.inMin = 1; k.inMax = flavour == 0 ? 24 : 200;
    k.outMin = 4; k.outMax = flavour == 1 ? 40 : 120;
    k.pathMin = 0; k.pathMax = r.chance(50) ? 2 : 40;
    k.weird = 30;
    k.lines = 24;
    k.overlong = 4; k.reset = 2; k.apiPrint = 4; k.apiTree = 6; k.apiPath = 3;
    k.noise = 25; k.tab = 40; k.escSeq = 20;
    k.longText = 30;
    k.quoteStyle = 60;
    k.treeProg = 25; k.dropBuiltin = 8;
    if (flavour == 2) { k.files = 60; k.groupFiles = 60; k.nodes = 40; k.nameLen = 40; k.inMax = 600; k.lines = 10; }
    if (flavour == 3) { k.content = 3000; k.inMax = 2000; k.lines = 10; k.cat = 10; k.xxd = 10; k.echo = 20; }
    Gen g(seed, k);
    Episode ep = g.make();
    hostile(g, ep, r, flavour == 4 ? 90 : 30);
    setCurrentText(describe(ep));
    RealShell s(&ep.world, seed, garbage);
    s.sched = anySched(seed, 40);
    s.init();
    std::set<int> groups;
    for (auto& st : ep.setup) { s.op(st.op); if (st.op.kind == OP_ADD) groups.insert(st.op.n); }
    s.outLimit = 200000000;
    for (auto& st : ep.steps) {
        if (s.dead) break;
        if (st.kind == ST_API) {
            if (st.op.kind == OP_ADD && s.groupNodes.count(st.op.n)) continue;
            s.op(st.op);
            if (!s.run()) break;
        } else {
            s.feedBytes(st.bytes);
            if (r.chance(80)) { if (!s.run()) break; }
            else {
                s.run(r.below(200));
                if (r.chance(30)) { Op o; o.kind = OP_RESET; s.op(o); }
            }
        }
    }
    if (!s.dead) s.run();
    s.finish();
    c.st.evals++;
    c.st.add("bytes.in", s.inPos);
    c.st.add("bytes.out", s.out.size());
    c.st.add("services", s.services);
    for (auto& e : s.ev) c.st.add(std::string("callbacks.") + (e.kind == EV_GENERAL ? "general" : e.kind == EV_EXEC ? "exec" : e.kind == EV_GET ? "get" : e.kind == EV_SET ? "set" : "api"));
    if (!s.ev.empty() || s.out.size() > 200) c.st.distinct.insert(hashStr(s.out));
    for (auto& v : s.viols) {
        if (!KINDS_ALL.count(v.kind)) continue;
        if (v.kind == "const-data" || v.kind == "argv" || v.kind == "isolation" || v.kind == "progress")
            c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
    }
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
    if (s.run() && r.chance(50)) s.deinit();
}
PROFILE(P01) { fuzzEpisode(c, seed, (int)(idx % 5)); }
// for memcheck: memory of the shell comes uninitialized
PROFILE(P01init) { fuzzEpisode(c, seed, idx % 3 == 0 ? 1 : idx % 3 == 1 ? 0 : 4, false); c.st.add("sessions.memcheck"); }

// well-formed sessions with exact boundary sizes, under sanitizers and compared with nothing
PROFILE(P01edge) {
    Rng r(seed);
    Knobs k;
    k.inMin = 16; k.inMax = 80; k.outMin = 4; k.outMax = 48; k.pathMin = 0; k.pathMax = 1;
    k.nameLen = 24; k.nodes = 10; k.lines = 10;
    Gen g(seed, k);
    g.world();
    // file names for which the full path takes the path limit exactly, or is a char longer / shorter
    for (auto& s : g.ep.setup) {
        if (s.op.kind != OP_MOUNT || s.op.n < 0) continue;
        auto& l = g.ep.world.dirs[s.op.n].files;
        if (l.empty() || !r.chance(60)) continue;
        long room = (long)g.ep.world.pathMax - 1 - (long)(s.op.text == "/" ? 0 : s.op.text.size()) - 1;
        long len = room + r.range(-1, 1);
        if (len > 0) l[r.below(l.size())].name = std::string((size_t)len, (char)('a' + r.below(3)));
    }
    g.begin();
    for (int i = 0; i < 8; i++) {
        g.action();
        if (idx % 5 == 3 && r.chance(15)) g.rootSwap();
        // line which fills the buffer
        std::string l = g.lineFor((int)r.below(11));
        size_t want = g.ep.world.inSize - 1 - (size_t)r.below(2);
        if (l.size() < want) {
            if (r.chance(50)) l += std::string(want - l.size(), r.chance(70) ? ' ' : 'a');
            else l = std::string(want - l.size(), ' ') + l;
        }
        if (g.typeLine(l, 0, r.chance(30) ? 100 : 0, 0)) g.enter();
    }
    Episode ep = g.finish();
    setCurrentText(describe(ep));
    Lock l(ep, seed, anySched(seed, 20), &c.st, D_ALL);
    l.all();
    c.st.add("sessions.edge");
    for (auto& v : l.r.viols) if (v.kind == "const-data" || v.kind == "argv") c.report(v.text + "\n" + describe(ep));
}

// The sanitizer reports a mismatching call once per place: every process begins with another command.
PROFILE(P01functions) {
    static bool first = true;
    if (!first) { profiles()["P01edge"](c, idx, seed); return; }
    first = false;
    static const char* cmd[] = {"help", "ls", "cat f", "xxd f"};
    Episode ep;
    ep.world.pathMax = 32;
    ListSpec l;
    FileSpec f;
    f.name = "f"; f.get = GET_STATIC; f.content = "data";
    l.files.push_back(f);
    ep.world.dirs.push_back(l);
    ep.mount("/", 0);
    ep.type(std::string(cmd[idx / 40 % 4]) + "\r");
    setCurrentText(describe(ep));
    Lock k(ep, seed, Sched::smooth(), &c.st, D_ALL);
    k.all();
}

// ---- P02: never blocks, always gets back to waiting for input ----------------------------------
PROFILE(P02) {
    Rng r(seed);
    Knobs k;
    k.lines = 10; k.treeProg = 20; k.overlong = 2; k.reset = 1; k.tab = 30; k.noise = 20;
    k.typeAhead = r.chance(50) ? 60 : 0;
    if (idx % 7 == 0) { k.files = 60; k.groupFiles = 40; k.nodes = 30; k.lines = 5; k.inMax = 400; k.tab = 70; k.nameLen = 20; }
    if (idx % 11 == 0) { k.content = 4000; k.cat = 20; k.xxd = 10; }
    if (idx % 6 == 1) { k.inMin = 2; k.inMax = 40; k.outMin = 4; k.outMax = 30; }
    Gen g(seed, k);
    Episode ep = g.make();
    if (idx % 4 == 2) hostile(g, ep, r, 20);
    setCurrentText(describe(ep));
    int mode = idx % 40 == 3 ? 5 : (int)(idx % 5);
    std::set<std::string> kinds = {"progress", "io-discipline", "return-value", "retry"};
    RealShell s(&ep.world, seed);
    s.sched = Sched::make(seed, mode);
    s.init();
    for (auto& st : ep.setup) s.op(st.op);
    s.outLimit = 500000000;
    s.run();
    for (auto& st : ep.steps) {
        if (s.dead) break;
        s.step(st);
        c.st.evals++;
        c.st.distinct.insert(hashStr(st.bytes, hashStr(describe(st.op), (uint64_t)mode)));
        // waiting for input: whatever long it takes, nothing may happen
        size_t o = s.out.size(), e = s.ev.size();
        uint64_t n = r.chance(1) ? 70000 : r.below(12);
        for (uint64_t i = 0; i < n; i++) {
            bool busy = s.service();
            if (busy || s.out.size() != o || s.ev.size() != e) {
                c.report("idle shell is active without any input (idle call " + std::to_string(i) + ")\n" + describe(ep));
                break;
            }
        }
        c.st.add("idle.calls", n);
    }
    c.st.add("mode." + std::to_string(mode));
    c.st.add("services", s.services);
    c.st.add("bytes.out", s.out.size());
    c.st.add("callbacks", s.ev.size());
    c.st.add("refused.writes", s.sched.refusedW);
    c.st.add("refused.reads", s.sched.refusedR);
    c.st.maxOf("calls_without_progress", s.maxSinceProgress);
    for (auto& v : s.viols) if (kinds.count(v.kind)) c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
}

// ---- P03: the result does not depend on when the interface is ready ---------------------------
PROFILE(P03) {
    Rng r(seed);
    Knobs k;
    k.lines = 8; k.overlong = 1; k.tab = 25; k.noise = 20; k.treeProg = 10; k.reset = 1; k.longText = 30; k.prog = 90;
    if (idx % 9 == 0) { k.content = 3000; k.cat = 20; k.xxd = 10; k.lines = 4; }
    if (idx % 13 == 0) { k.files = 30; k.groupFiles = 30; k.nodes = 20; k.tab = 70; }
    Gen g(seed, k);
    Episode ep = g.make();
    setCurrentText(describe(ep));
    RunResult ref = runReal(ep, seed, Sched::smooth(), 0, &r);
    c.st.add("sessions");
    int runs = 4;
    for (int i = 0; i < runs; i++) {
        int mode = idx % 50 == 7 && i == 0 ? 5 : (int)r.range(1, 4);
        int feed = i == 0 ? 1 : (int)r.below(3);
        uint64_t gap = r.chance(1) && i == 1 ? 70000 / (ep.steps.size() + 1) : r.chance(20) ? r.below(100) : 0;
        // type-ahead across API calls would reorder them: keep random cuts to sessions without API steps
        bool api = false;
        for (auto& s : ep.steps) api |= s.kind == ST_API;
        if (api && feed == 2) feed = 1;
        RunResult x = runReal(ep, seed, Sched::make(seed * 31 + (uint64_t)i, mode), feed, &r, true, gap);
        c.st.evals++;
        c.st.add("schedule.mode" + std::to_string(mode) + ".feed" + std::to_string(feed));
        c.st.add("refused.writes", x.refusedW);
        c.st.add("refused.reads", x.refusedR);
        c.st.add("bytes.out", x.out.size());
        c.st.add("services", x.services);
        c.st.distinct.insert(hashStr(ref.out, seed ^ (uint64_t)(x.services * 977)));
        std::string d = diffText(ref, x, "always ready", "stalled");
        if (!d.empty()) c.report("schedule mode " + std::to_string(mode) + " feed " + std::to_string(feed) + " gap " + std::to_string(gap) + "\n" + d + describe(ep));
        for (auto& v : x.viols) if (v.kind == "retry" || v.kind == "progress") c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
    }
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
}

