#include "common.hpp"
#include <atomic>
#include <thread>

// ---- P17: instances ---------------------------------------------------------------------------
struct Solo { std::string out; std::vector<Event> ev; };
static Episode sideEpisode(uint64_t seed, int lines = 8) {
    Knobs k;
    k.lines = lines; k.tab = 25; k.noise = 20; k.treeProg = 10; k.overlong = 1; k.reset = 1; k.apiTree = 2;
    k.typeAhead = 40;
    Rng r(seed);
    if (r.chance(10)) { k.files = 20; k.groupFiles = 20; k.content = 600; }
    Gen g(seed, k);
    return g.make();
}
PROFILE(P17) {
    Rng r(seed);
    int n = r.range(2, 4);
    std::vector<Episode> eps;
    for (int i = 0; i < n; i++) eps.push_back(sideEpisode(seed * 16 + (uint64_t)i));
    if (r.chance(30)) eps[1] = eps[0];              // twins: the same world and input
    std::string all;
    for (auto& e : eps) all += describe(e) + "----\n";
    setCurrentText(all);
    std::vector<Solo> solo;
    for (int i = 0; i < n; i++) {
        RunResult x = runReal(eps[i], seed + (uint64_t)i, Sched::smooth(), 0, &r);
        solo.push_back({x.out, x.ev});
    }
    std::vector<std::unique_ptr<RealShell>> sh;
    std::vector<size_t> at((size_t)n, 0);
    for (int i = 0; i < n; i++) {
        sh.emplace_back(new RealShell(&eps[i].world, seed + (uint64_t)i));
        sh.back()->poolNodes = false;
        sh.back()->outLimit = 500000000;
        sh.back()->sched = anySched(seed * 77 + (uint64_t)i, 50);
    }
    bool nest = r.chance(30);
    // initialisation interleaved with service of the others
    std::vector<bool> up((size_t)n, false), started((size_t)n, false);
    uint64_t switches = 0, done = 0, guard = 0;
    std::vector<bool> fin((size_t)n, false);
    int last = -1;
    while (done < (uint64_t)n && ++guard < 30000000) {
        int i = (int)r.below((uint64_t)n);
        if (fin[i]) continue;
        RealShell& s = *sh[i];
        if (i != last) { switches++; last = i; }
        if (!up[i]) {
            s.init();
            for (auto& st : eps[i].setup) s.op(st.op);
            up[i] = true;
            if (nest && i == 0) s.nested = nullptr;
            continue;
        }
        size_t burst = r.chance(70) ? 1 : 1 + r.below(30);
        for (size_t b = 0; b < burst && s.idleCount < 3; b++) {
            s.service();
            if (s.sinceProgress > s.maxNoProgress) { c.report("no progress in an interleaved session\n" + all); return; }
        }
        if (nest && up[0] && up[1] && !sh[0]->nested) { sh[0]->nested = sh[1].get(); }
        if (s.idleCount >= 3) {
            s.settle();
            if (at[i] >= eps[i].steps.size()) { fin[i] = true; done++; s.finish(); if (i == 1) sh[0]->nested = nullptr; continue; }
            const Step& st = eps[i].steps[at[i]++];
            s.idleCount = 0;
            if (st.kind == ST_TYPE) s.feedBytes(st.bytes); else s.op(st.op);
        }
    }
    c.st.add("sessions", (uint64_t)n);
    c.st.add("switches", switches);
    c.st.add("nested.services", sh[0]->nestedServices);
    if (done < (uint64_t)n) { c.report("interleaved sessions do not end\n" + all); return; }
    for (int i = 0; i < n; i++) {
        RunResult a, b;
        a.out = solo[i].out; a.ev = solo[i].ev;
        b.out = sh[i]->out; b.ev = sh[i]->ev;
        for (auto& e : a.ev) e.outPos = 0;
        for (auto& e : b.ev) e.outPos = 0;
        std::string d = diffText(a, b, "alone", "with others");
        c.st.evals++;
        c.st.distinct.insert(hashStr(b.out, switches));
        if (!d.empty()) { c.report("shell " + std::to_string(i) + " of " + std::to_string(n) + (nest ? " (nested)" : "") + ":\n" + d + all); return; }
        for (auto& v : sh[i]->viols) if (v.kind == "isolation" || v.kind == "progress" || v.kind == "const-data") { c.report(v.kind + ": " + v.text + "\n" + all); return; }
    }
    if (c.st.samples.empty()) c.st.sample(all.substr(0, 2500));
}

// the same with real threads, one per shell, for the race detector
PROFILE(P17threads) {
    Rng r(seed);
    const int n = 4;
    std::vector<Episode> eps;
    for (int i = 0; i < n; i++) eps.push_back(sideEpisode(seed * 16 + (uint64_t)i, 5));
    if (r.chance(50)) eps[1] = eps[0];
    std::string all;
    for (auto& e : eps) all += describe(e) + "----\n";
    setCurrentText(all);
    std::vector<RunResult> solo((size_t)n), par((size_t)n);
    for (int i = 0; i < n; i++) solo[i] = runReal(eps[i], seed + (uint64_t)i, Sched::smooth(), 0, &r);
    std::vector<std::thread> th;
    std::atomic<int> ready{0};
    for (int i = 0; i < n; i++) {
        th.emplace_back([&, i] {
            Rng rr(seed + (uint64_t)i);
            ready++;
            while (ready.load() < n) std::this_thread::yield();
            par[i] = runReal(eps[i], seed + (uint64_t)i, anySched(seed * 77 + (uint64_t)i, 50), 0, &rr);
        });
    }
    for (auto& t : th) t.join();
    c.st.add("threads", n);
    for (int i = 0; i < n; i++) {
        for (auto& e : solo[i].ev) e.outPos = 0;
        for (auto& e : par[i].ev) e.outPos = 0;
        std::string d = diffText(solo[i], par[i], "alone", "in parallel threads");
        c.st.evals++;
        c.st.add("thread.services", par[i].services);
        c.st.distinct.insert(hashStr(par[i].out, 0x7eed));
        if (!d.empty()) { c.report("shell " + std::to_string(i) + " in its own thread:\n" + d + all); return; }
    }
}

// ---- P22: tree changes while a command is in progress -------------------------------------------
PROFILE(P22) {
    Rng r(seed);
    Knobs k;
    k.lines = 14; k.tab = 40; k.treeProg = 30; k.ls = 20; k.help = 12; k.cat = 16; k.xxd = 6; k.nodes = 10; k.files = 6; k.groups = 5; k.apiTree = 4; k.nameLen = 3; k.weird = 3; k.quoteStyle = 3; k.badArgs = 5;
    if (idx % 10 == 0) { k.nodes = 40; k.files = 20; }
    bool follow = idx % 3 != 0;       // the model follows the whole session
    if (follow) { k.treeProg = 0; k.apiPrint = 0; k.cd = 8; k.user = 12; }
    bool inner = idx % 3 == 2;        // the changes come from callbacks of the commands
    if (inner) { k.cbTree = 25; k.treeProg = 20; k.user = 14; k.cat = 30; k.echo = 14; k.xxd = 10; k.general = 40; k.getProg = 10; }
    Gen g(seed, k);
    g.world();
    for (auto* v : {&g.ep.world.dirs, &g.ep.world.groups})
        for (auto& l : *v) for (auto& f : l.files) {
            if (f.get == GET_COUNTER) f.get = GET_STATIC;
            if (f.set == SET_STORE) f.set = SET_DROP;
            // no reset nor cd from callbacks: the current directory has to be known
        }
    g.begin(); g.session();
    Episode ep = g.finish();
    g.ep.world = ep.world;            // the operations below are made from it
    setCurrentText(describe(ep));
    Lock l(ep, seed, anySched(seed, 20), nullptr, 0);
    l.r.poolNodes = false;
    if (!l.start()) { c.st.foreign++; return; }
    std::string log;
    bool touched = false;
    Model before = l.m;
    size_t lineStart = 0;
    for (size_t i = 0; i < ep.steps.size(); i++) {
        const Step& st = ep.steps[i];
        bool disturb = !inner && st.kind == ST_TYPE && r.chance(follow ? 25 : 60);
        if (!disturb) {
            if (l.m.line.empty() && l.m.esc == 0) { before = l.m; lineStart = i; }
            if (touched) c.st.add("later.steps");
            bool ok = l.step(st);
            bool now = !l.stepDomains.empty() && (l.stepDomains.back() & D_CBTREE);
            if (now) { c.st.add("op.inner"); c.st.evals++; c.st.distinct.insert(hashStr(st.bytes, l.r.out.size())); }
            if (!ok) {
                if (now) {
                    // the same line with callbacks which leave the tree alone
                    Episode fresh;
                    carry(before, ep, fresh);
                    auto calm = [](std::vector<Op>& v) { std::vector<Op> o; for (auto& x : v) if (x.kind < OP_MOUNT || x.kind > OP_PARENT) o.push_back(x); v = o; };
                    calm(fresh.world.generalProg);
                    for (auto* v : {&fresh.world.dirs, &fresh.world.groups}) for (auto& fl : *v) for (auto& f : fl.files) { calm(f.prog); calm(f.getProg); calm(f.setProg); }
                    for (size_t j = lineStart; j <= i; j++) fresh.steps.push_back(ep.steps[j]);
                    Lock f(fresh, seed, Sched::smooth(), nullptr, 0);
                    if (f.all()) {
                        c.report("a line whose callbacks change the tree does not behave as it should\n" + l.bad.text + "\n" + describe(ep));
                        return;
                    }
                }
                if (touched) {
                    // the same line in a fresh shell with the same directories
                    Episode fresh;
                    carry(before, ep, fresh);
                    for (size_t j = lineStart; j <= i; j++) fresh.steps.push_back(ep.steps[j]);
                    Lock f(fresh, seed, Sched::smooth(), nullptr, 0);
                    if (f.all()) {
                        c.report("after changes of the tree during earlier commands a line behaves differently than in a fresh shell with the same tree\n" + l.bad.text + "\n" + log + describe(ep));
                        return;
                    }
                }
                c.st.foreign++; c.st.foreignBy["lockstep"]++;
                return;
            }
            if (now) touched = true;
            continue;
        }
        std::vector<Op> done;
        l.r.outLimit = l.r.out.size() + 5000000;
        // operations issued by the application between service calls, in the middle of whatever the shell is doing
        l.r.hold = true;
        bool helps = (l.m.line + st.bytes).find("help") != std::string::npos;
        for (char ch : st.bytes) l.m.feed(ch);
        size_t evAt = l.m.ev.size();
        l.r.feedBytes(st.bytes);
        int n = r.range(1, 3);
        bool skip = false;
        for (int j = 0; j < n; j++) {
            if (r.chance(50)) l.r.run(1 + r.below(j == 0 ? 400 : 60));
            else {
                // counted in steps which show nothing: the moments between two pieces of output
                uint64_t quiet = 1 + r.below(j == 0 ? 60 : 12);
                for (int x = 0; x < 4000 && quiet; x++) {
                    size_t shown = l.r.out.size();
                    l.r.run(1);
                    quiet -= l.r.out.size() == shown;
                }
            }
            Op o = g.treeOp();
            for (int x = 0; x < 6 && helps && o.kind != OP_ADD && o.kind != OP_REMOVE; x++) o = g.treeOp();
            if (o.kind == OP_NODE || o.kind == OP_PARENT) o.kind = OP_MOUNT;
            if (o.kind == OP_MOUNT && (o.text == "/" || o.text.find("//") != std::string::npos)) continue;
            if ((o.kind == OP_ADD || o.kind == OP_REMOVE) && (o.n < 0 || ep.world.groups.empty())) continue;
            // the application knows what is mounted from the results it got
            if (o.kind == OP_ADD && l.r.groupNodes.count(o.n)) continue;
            bool mounted = l.r.nodes.count(o.text) != 0;
            size_t before = l.r.ev.size();
            std::string parent = Model::parentOf(o.text);
            bool parentMounted = l.r.nodes.count(parent) != 0;
            bool hasKids = false;
            for (auto& kv : l.r.nodes) if (Model::parentOf(kv.first) == o.text) hasKids = true;
            bool groupIn = l.r.groupNodes.count(o.n) != 0;
            l.r.op(o);
            done.push_back(o);
            log += describe(o) + " during \"" + esc(st.bytes) + "\"\n";
            std::string res = l.r.ev.size() > before ? l.r.ev.back().args[1] : "?";
            std::string want = o.kind == OP_MOUNT ? (mounted ? "4" : parentMounted ? "0" : "3") : o.kind == OP_UNMOUNT ? (!mounted ? "1" : hasKids ? "2" : "0") : o.kind == OP_ADD ? "0" : groupIn ? "0" : "1";
            c.st.add("op." + std::to_string(o.kind) + ".result" + res);
            c.st.evals++;
            c.st.distinct.insert(hashStr(st.bytes, hashStr(describe(o), l.r.out.size())));
            if (res != want) { c.report("result of " + describe(o) + " is " + res + ", expected " + want + "\n" + log + describe(ep)); return; }
            (void)skip;
        }
        if (!l.r.run()) { c.report("shell does not finish the command after a change of the tree\n" + log + describe(ep)); return; }
        l.r.hold = false;
        l.r.settle();
        (void)evAt;
        for (auto& o : done) l.m.runOp(o, nullptr);
        bool look = !follow || r.chance(40);
        // resynchronize: drop what was shown, take the tree as the application knows it
        std::map<std::string, MNode> t;
        Model& m = l.m;
        // rebuild order of children through the public view: newest first is not observable here, so continue in a fresh lockstep
        Episode rest;
        rest.world = ep.world;
        std::vector<std::string> ps;
        for (auto& kv : l.r.nodes) ps.push_back(kv.first);
        std::sort(ps.begin(), ps.end(), [](const std::string& x, const std::string& y) { return std::count(x.begin(), x.end(), '/') * (x != "/") < std::count(y.begin(), y.end(), '/') * (y != "/"); });
        // every node which is mounted is found, everything else is not
        if (look) for (auto& p : ps) {
            Op o; o.kind = OP_NODE; o.text = p;
            l.r.op(o);
            if (l.r.ev.back().args[1] != p) { c.report("mounted directory " + p + " is not found after a change of the tree during a command\n" + log + describe(ep)); return; }
        }
        if (look) for (auto& p : g.mountable) {
            if (l.r.nodes.count(p)) continue;
            Op o; o.kind = OP_NODE; o.text = p;
            l.r.op(o);
            if (l.r.ev.back().args[1] != "none") { c.report("unmounted directory " + p + " is still found after a change of the tree during a command\n" + log + describe(ep)); return; }
        }
        // listing of every directory contains exactly its children
        Step cc; cc.kind = ST_TYPE; cc.bytes = "\x03";
        l.r.step(cc);
        if (look) for (auto& p : ps) {
            if (!FEAT.ls) break;
            Op o; o.kind = OP_CD; o.text = p;
            l.r.op(o);
            if (l.r.ev.back().args[1] != "0") { c.report("cannot enter " + p + "\n" + log + describe(ep)); return; }
            // skip when a user group shadows the command
            Op fo; fo.kind = OP_FIND; fo.text = "ls";
            l.r.op(fo);
            if (l.r.ev.back().args[1] != "builtin:ls" || ep.world.inSize < 4) break;
            size_t at = l.r.out.size();
            Step s2; s2.kind = ST_TYPE; s2.bytes = "ls\r";
            l.r.step(s2);
            std::multiset<std::string> got, want;
            std::string txt = l.r.out.substr(at);
            std::string pre = FEAT.styles ? "d---- \x1b[32m" : "d---- ";
            size_t q = 0;
            while ((q = txt.find(pre, q)) != std::string::npos) {
                q += pre.size();
                size_t e = txt.find("/" + std::string(FEAT.styles ? "\x1b[0m" : "\r\n"), q);
                size_t e2 = txt.find("\r\n", q);
                if (e == std::string::npos || e > e2) continue;
                got.insert(txt.substr(q, e - q));
            }
            for (auto& x : ps) if (x != "/" && Model::parentOf(x) == p) want.insert(Model::lastOf(x));
            c.st.add("listings.checked");
            if (got != want) { c.report("listing of " + p + " does not match the mounted directories after a change during a command\n  shown: " + esc(txt) + "\n" + log + describe(ep)); return; }
            if (txt.size() < 4 || txt.substr(txt.size() - std::string(FEAT.styles ? "]$ \x1b[0m" : "]$ ").size()) != (FEAT.styles ? "]$ \x1b[0m" : "]$ ")) { c.report("no prompt at the end\n" + log + describe(ep)); return; }
        }
        (void)m; (void)t; (void)rest;
        for (auto& v : l.r.viols) if (v.kind == "progress" || v.kind == "const-data" || v.kind == "mount") { c.report(v.kind + ": " + v.text + "\n" + log + describe(ep)); return; }
        if (follow) {
            l.r.step(cc);
            Op o; o.kind = OP_CD; o.text = "/";
            l.r.op(o);
            for (auto& e : cc.bytes) l.m.feed(e);
            l.m.runOp(o, nullptr);
            l.r.run();
            // what was shown during the disturbed command is not compared; a prompt has to be at its end
            std::string pr = l.m.promptText();
            // the prompt was shown before the directory was set
            (void)pr;
            l.resync();
            touched = true;
            continue;
        }
        // the model does not follow any more: the rest of the session is judged by the monitors only
        for (i++; i < ep.steps.size(); i++) {
            const Step& x = ep.steps[i];
            l.r.hold = true;
            if (x.kind == ST_API) { if (x.op.kind == OP_ADD && l.r.groupNodes.count(x.op.n)) continue; l.r.op(x.op); }
            else {
                l.r.feedBytes(x.bytes);
                if (r.chance(50)) {
                    l.r.run(1 + r.below(200));
                    Op o = g.treeOp();
                    if ((o.kind == OP_ADD || o.kind == OP_REMOVE) && (o.n < 0 || ep.world.groups.empty())) continue;
                    if (o.kind == OP_ADD && l.r.groupNodes.count(o.n)) continue;
                    if (o.text == "/") continue;
                    l.r.op(o);
                    c.st.add("op.blind");
                    c.st.evals++;
                    log += describe(o) + " during \"" + esc(x.bytes) + "\"\n";
                }
            }
            if (!l.r.run()) { c.report("shell does not finish the command after a change of the tree\n" + log + describe(ep)); return; }
            l.r.hold = false;
            l.r.settle();
        }
    }
    if (c.st.samples.empty()) c.st.sample(log + describe(ep).substr(0, 1500));
}

