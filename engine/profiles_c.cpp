#include "common.hpp"

// ---- P12: line editing, what is seen is what is executed ----------------------------------------
struct Vt {
    std::string row; size_t col = 0; int esc = 0; size_t used = 0; bool bell = false;
    void put(char c) {
        if (esc == 1) { esc = c == '[' ? 2 : 0; return; }
        if (esc == 2) { if (c >= 0x40 && c <= 0x7e) esc = 0; return; }
        switch (c) {
        case 0x1b: esc = 1; break;
        case '\r': col = 0; break;
        case '\n': row.clear(); col = 0; break;
        case '\b': if (col) col--; else bell = true; break;
        default:
            if (col < row.size()) row[col] = c; else row += c;
            col++;
        }
    }
    void feed(const std::string& s) { for (; used < s.size(); used++) put(s[used]); }
};
PROFILE(P12) {
    Rng r(seed);
    Knobs k;
    k.noise = 90; k.escSeq = 50; k.tab = idx % 3 == 1 ? 30 : 0; k.ctrlc = 15; k.user = 10; k.empty = 6; k.unknown = 4; k.lines = 14;
    k.ls = k.help = k.cat = k.xxd = k.echo = k.cd = k.pwd = 1; k.apiPrint = 0; k.apiTree = k.apiPath = 0; k.syntax = 2;
    k.general = 80; k.quoteStyle = 10; k.prog = 20; k.treeProg = 0; k.crlf = 40;
    k.inMin = idx % 4 == 0 ? 3 : 20; k.inMax = idx % 4 == 0 ? 20 : 160;
    k.outMin = 4;
    Gen g(seed, k);
    g.world(); g.begin();
    int n = r.range(6, 14);
    for (int i = 0; i < n; i++) {
        g.group++;
        if (r.chance(50)) { g.action(); continue; }
        // free mixture of characters, corrections and escape sequences
        int m = r.range(1, 60);
        for (int j = 0; j < m; j++) {
            size_t room = g.ep.world.inSize - 1 - g.m.line.size();
            int w = (int)r.below(100);
            if (w < 55) { if (room) g.typeChars(std::string(1, (char)(r.chance(10) ? r.range(0x80, 0xff) : r.range(33, 126)))); }
            else if (w < 62) { if (room) g.typeChars(" "); }
            else if (w < 85) g.typeChars(std::string((size_t)r.range(1, r.chance(10) ? 40 : 3), r.chance(50) ? '\x08' : '\x7f'));
            else if (w < 93) { std::string e = g.escape(); if (room > 6) g.typeChars(e); }
            else if (w < 95) { g.typeChars("\x1b"); g.typeChars(std::string(1, (char)r.range(97, 122))); }
            else if (w < 96) { g.typeChars("\x1b\x08"); if (r.chance(50)) g.typeChars("q"); }
            else if (w < 97) { g.typeChars("\x03"); }
            else if (k.tab && w < 99) { g.flushStep(); g.typeChars("\t"); }
            g.flushStep();
            if (g.m.esc && r.chance(50)) g.typeChars("x");
        }
        if (g.m.esc) { g.typeChars("\x1b"); g.typeChars("q"); }
        bool dbl = g.m.line.find("//") != std::string::npos;
        for (auto& a : Model::parse(g.m.line)) dbl |= a.find("//") != std::string::npos;
        if (dbl) { g.typeChars("\x03"); g.flushStep(); }
        else g.enter();
    }
    Episode ep = g.finish();
    runJudge(c, ep, seed, anySched(seed, 20), D_EDIT | D_CTRLC | D_EMPTY, {});
    if (c.violated || !ep.setup.size()) return;
    // screen oracle, independent of the model: the row under the cursor is the prompt and the edited line
    RealShell s(&ep.world, seed);
    s.init();
    for (auto& st : ep.setup) s.op(st.op);
    s.run();
    Vt vt;
    vt.feed(s.out);
    std::string prompt = vt.row, line;
    int escState = 0;
    size_t calls = 0;
    bool lost = false;
    for (auto& st : ep.steps) {
        if (s.dead || st.kind != ST_TYPE) break;
        for (char ch : st.bytes) {
            s.feedBytes(std::string(1, ch));
            s.run();
            size_t before = vt.used;
            vt.feed(s.out);
            bool printed = vt.used != before;
            // what a user believes to have typed
            bool newline = false;
            if (ch == '\t') {                       // whatever a completion adds is on the screen
                size_t len = prompt.size() + line.size(), col = std::min(vt.col, vt.row.size());
                bool list = s.out.find('\n', before) != std::string::npos, bad;
                if (list) {                         // candidates, then a prompt and the same line again
                    std::string now = vt.row.substr(0, col);
                    bad = now.size() < line.size() + 3 || now.substr(now.size() - line.size()) != line || now.substr(now.size() - line.size() - 3, 3) != "]$ ";
                    if (!bad) prompt = now.substr(0, now.size() - line.size());
                } else bad = vt.col < len || vt.row.compare(0, len, prompt + line);
                if (bad) {
                    c.report("screen row is \"" + esc(vt.row) + "\" after TAB, the edited line was \"" + esc(line) + "\" after prompt \"" + esc(prompt) + "\"\n" + describe(ep));
                    return;
                }
                c.st.add(list ? "screen.listed" : vt.col > len ? "screen.completed" : "screen.unchanged");
                line = vt.row.substr(prompt.size(), vt.col - prompt.size());
                c.st.add("screen.tabs");
            }
            else if (ch == 0x1b) escState = 1;
            else if (ch == 0x08 || ch == 0x7f) { if (!line.empty()) line.pop_back(); }
            else if (ch == 0x03) newline = true;
            else if (escState == 1) escState = (ch == '[' || ch == 'O') ? 2 : 0;
            else if (escState == 2) escState = 0;
            else if (ch == '\r' || ch == '\n') newline = true;
            else line += ch;
            if (newline) {
                if (ch != 0x03 && ep.world.general) {
                    // the executed arguments are those seen on the screen
                    std::vector<std::string> want = Model::parse(line);
                    const Event* e = nullptr;
                    for (size_t i = calls; i < s.ev.size(); i++) if (s.ev[i].kind == EV_GENERAL) { e = &s.ev[i]; break; }
                    if (!want.empty() && (!e || e->args != want)) { c.report("screen shows line \"" + esc(line) + "\" but executed is " + (e ? describe(*e) : "nothing") + "\n" + describe(ep)); return; }
                    if (want.empty() && e) { c.report("empty line executed as " + describe(*e) + "\n" + describe(ep)); return; }
                }
                if (ch == 0x03) for (size_t i = calls; i < s.ev.size(); i++) if (s.ev[i].kind != EV_RET) { c.report("ctrl-C executed " + describe(s.ev[i]) + "\n" + describe(ep)); return; }
                calls = s.ev.size();
                line.clear(); escState = 0;
                // outputs of commands may contain anything: take the prompt from what is on the row now
                size_t at = vt.row.rfind("]$ ");
                prompt = at == std::string::npos ? vt.row : vt.row;
                lost = vt.row.size() < 4 || vt.col != vt.row.size() || vt.esc;
                if (lost) { vt.row.clear(); vt.col = 0; vt.esc = 0; prompt.clear(); }
                continue;
            }
            (void)printed;
            // after the last visible character only blanks are allowed
            std::string want = prompt + line, row = vt.row;
            if (row.size() > want.size()) {
                bool blank = true;
                for (size_t i = want.size(); i < row.size(); i++) blank &= row[i] == ' ';
                if (blank) row.resize(want.size());
            }
            c.st.add("screen.compared");
            if (row != want || vt.col != want.size()) {
                c.report("screen row is \"" + esc(vt.row) + "\" with cursor at " + std::to_string(vt.col) + ", the edited line is \"" + esc(line) +
                         "\" after prompt \"" + esc(prompt) + "\"\n" + describe(ep));
                return;
            }
        }
    }
}

// ---- P14: a line does not depend on the history -------------------------------------------------
PROFILE(P14) {
    Rng r(seed);
    Knobs k;
    k.lines = idx % 100 == 9 ? 1500 : 24;
    k.ctrlc = 8; k.overlong = 5; k.syntax = 6; k.badArgs = 30; k.noise = 30; k.escSeq = 20; k.tab = 20; k.treeProg = 5; k.reset = 1; k.prog = 70;
    k.longText = 20; k.dropBuiltin = 3;
    if (idx % 3 == 0) { k.inMin = 12; k.inMax = 48; }
    Gen g(seed, k);
    g.world();
    for (auto* v : {&g.ep.world.dirs, &g.ep.world.groups})
        for (auto& l : *v) for (auto& f : l.files) if (f.get == GET_COUNTER) f.get = GET_STATIC;
    g.begin(); g.session();
    Episode ep = g.finish();
    setCurrentText(describe(ep));
    Lock l(ep, seed, anySched(seed, 15), &c.st, D_ALL);
    bool ok = l.start();
    size_t i = 0;
    Model before = l.m;
    size_t lineStart = 0;
    bool cuts = idx % 2 == 0;
    if (cuts) { g.ep.world = ep.world; }
    for (; ok && i < ep.steps.size(); i++) {
        if (cuts && l.m.line.empty() && l.m.esc == 0 && r.chance(12)) {
            // part of the history is a line which was cut anywhere by a reset
            g.m = l.m;
            std::string t = g.lineFor(r.range(1, 9));
            std::vector<std::string> a = Model::parse(t);
            FileRef f = a.empty() ? FileRef() : l.m.findFile(a[0]);
            bool effect = !a.empty() && a[0] == "echo";                          // might write a file
            if (f.valid() && f.list != -1 && l.m.spec(f).exec) effect = true;   // its program may change the tree
            for (auto& x : a) effect |= x.find("//") != std::string::npos;
            if (!effect && t.size() + 1 <= ep.world.inSize) {
                int w = (int)r.below(10);
                if (w < 7) t += "\r"; else if (w < 9) t += "\t"; else t += "\x1b[";
                uint64_t n = r.below(3 * t.size() + (r.chance(60) ? 300 : 20));
                l.r.feedBytes(t);
                l.r.run(n);
                l.r.input.clear(); l.r.inPos = 0;
                Op o; o.kind = OP_RESET;
                l.r.op(o);
                l.r.run();
                l.m.api(o);
                l.resync();
                c.st.add("history.cut");
            }
        }
        if (l.m.line.empty() && l.m.esc == 0) {
            bool fast = k.lines > 1000 && i % 64;
            if (!fast) before = l.m;
            if (!fast) lineStart = i;
        }
        l.bad.step = i;
        ok = l.step(ep.steps[i]);
    }
    c.st.add("sessions");
    c.st.maxOf("session.lines", (uint64_t)g.group);
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
    if (ok) return;
    if (l.bad.kind != "output" && l.bad.kind != "event" && l.bad.kind != "order") {
        if (l.bad.kind == "progress") c.report(l.bad.text + "\n" + describe(ep));
        return;
    }
    // the same line in a fresh shell
    Episode fresh;
    carry(before, ep, fresh);
    for (size_t j = lineStart; j <= i && j < ep.steps.size(); j++) fresh.steps.push_back(ep.steps[j]);
    Lock f(fresh, seed, l.r.sched.mode ? Sched::make(seed, 1) : Sched::smooth(), nullptr, 0);
    if (f.all()) c.report("the line behaves differently than in a fresh shell\n" + l.bad.text + "\n" + describe(ep));
    else { c.st.foreign++; c.st.foreignBy[domainName(l.bad.domain)]++; }
}

// many tens of thousands of lines in one session, then the same questions as at the beginning
PROFILE(P14soak) {
    Rng r(seed);
    Knobs k;
    k.lines = 6; k.apiTree = 0; k.apiPrint = 0; k.treeProg = 0; k.general = 100; k.apiBlockedInCallback = true;
    k.inMin = 40; k.inMax = 60; k.overlong = 0; k.cd = 0; k.nodes = 3; k.files = 3;
    Gen g(seed, k);
    g.world();
    for (auto* v : {&g.ep.world.dirs, &g.ep.world.groups})
        for (auto& l : *v) for (auto& f : l.files) { f.prog.clear(); f.get = f.get ? GET_STATIC : GET_NONE; f.set = f.set ? SET_DROP : SET_NONE; f.setProg.clear(); f.content.resize(std::min<size_t>(f.content.size(), 12)); }
    g.ep.world.generalProg.clear();
    g.begin(); g.session();
    Episode probe = g.finish();
    setCurrentText(describe(probe));
    RealShell s(&probe.world, seed);
    s.init();
    for (auto& st : probe.setup) s.op(st.op);
    s.run();
    auto ask = [&] {
        size_t o = s.out.size(), e = s.ev.size();
        for (auto& st : probe.steps) s.step(st);
        std::string t = s.out.substr(o);
        for (size_t i = e; i < s.ev.size(); i++) t += "\n" + describe(s.ev[i]);
        s.out.clear(); s.ev.clear();
        return t;
    };
    // leave no half-typed line, return to the same directory
    { Step e; e.kind = ST_TYPE; e.bytes = "\x03"; probe.steps.push_back(e); probe.steps.insert(probe.steps.begin(), e); }
    probe.api(probe.steps, OP_CD, "/");
    { Step e = probe.steps.back(); probe.steps.insert(probe.steps.begin(), e); }
    std::string first = ask();
    uint64_t lines = c.tier ? 300000 : 70000, chars = 0;
    static const char* pool[] = {"\r", "a\r", "pwd\r", "ls x\r", "q\x7f\r", "\x03", "\x1b[A", "zz\t", "\t", "echo\r", "a b c d e\r", "\x7f", "\"\r", "\\\r", "xyz\n"};
    for (uint64_t i = 0; i < lines && !s.dead; i++) {
        const char* p = pool[r.below(15)];
        chars += strlen(p);
        s.feedBytes(p);
        if (i % 512 == 0) { s.run(); s.out.clear(); s.ev.clear(); }
    }
    s.feedBytes("\x03");
    s.run();
    s.out.clear(); s.ev.clear();
    std::string last = ask();
    c.st.evals += 2;
    c.st.add("soak.lines", lines);
    c.st.add("soak.chars", chars);
    c.st.distinct.insert(hashStr(first));
    if (first != last) c.report("after " + std::to_string(lines) + " lines the same questions have other answers\n  at start: " + esc(first, 4000) + "\n  now:      " + esc(last, 4000) + "\n" + describe(probe));
}

// ---- P20: life cycle ----------------------------------------------------------------------------
PROFILE(P20) {
    Rng r(seed);
    Knobs k;
    k.lines = 8; k.tab = 25; k.noise = 20; k.treeProg = 5; k.overlong = 1; k.longText = 25; k.apiTree = 2; k.midApi = 30;
    Gen ga(seed, k);
    Episode a = ga.make();
    // second life in the same world
    Gen gb(seed + 1, k);
    gb.ep.world = a.world; gb.pool = ga.pool; gb.mountable = ga.mountable;
    gb.ep.setup = a.setup;
    gb.begin(); gb.session();
    Episode b = gb.finish();
    for (auto* v : {&a.world, &b.world})
        for (auto* ls : {&v->dirs, &v->groups}) for (auto& l : *ls) for (auto& f : l.files) {
            if (f.get == GET_COUNTER) f.get = GET_STATIC;
            if (f.set == SET_STORE) f.set = SET_DROP;
        }
    int mode = (int)(idx % 3);
    setCurrentText(describe(a) + "---- second life, mode " + std::to_string(mode) + "\n" + describe(b));
    auto runB = [&](RealShell& s) {
        size_t o = s.out.size(), e = s.ev.size();
        for (auto& st : b.steps) { if (s.dead) break; s.step(st); }
        RunResult x;
        x.out = s.out.substr(o);
        x.ev.assign(s.ev.begin() + (long)e, s.ev.end());
        for (auto& y : x.ev) y.outPos -= o;
        return x;
    };
    RunResult ref, got;
    std::string what;
    uint64_t cut = r.below(3000);
    auto part = [&](RealShell& s) {   // first life, cut anywhere
        s.init();
        for (auto& st : a.setup) s.op(st.op);
        uint64_t left = cut;
        if (r.chance(20)) { left = UINT64_MAX; }
        uint64_t before = s.services;
        for (auto& st : a.steps) {
            if (st.kind == ST_API) { if (!s.run(left - (s.services - before))) break; s.op(st.op); }
            else s.feedBytes(st.bytes);
            if (s.services - before >= left || !s.run(left - (s.services - before))) break;
        }
        s.input.clear(); s.inPos = 0;
    };
    c.st.add("lifecycle.mode" + std::to_string(mode));
    if (mode == 0) {
        // init works on memory with any content
        what = "init over zeros / over garbage";
        RunResult x = runReal(b, seed, Sched::smooth(), 0, &r, true), y;
        RealShell z(&b.world, seed, false);
        memset(z.obj, 0, vf_sizeof_object()); memset(z.in, 0, b.world.inSize); memset(z.outb, 0, b.world.outSize);
        z.poolNodes = false;
        z.init();
        for (auto& st : b.setup) z.op(st.op);
        z.run();
        for (auto& st : b.steps) { if (z.dead) break; z.step(st); }
        y.out = z.out; y.ev = z.ev;
        ref = y; got = x;
    } else if (mode == 1) {
        what = "init again";
        RealShell s(&a.world, seed);
        s.poolNodes = false;
        part(s);
        bool over = r.chance(35);                                 // straight over the remains of the first life
        c.st.add(over ? "lifecycle.over" : "lifecycle.deinit");
        if (over) s.abandon();
        else {
            s.checkDeinit = true;
            s.deinit();
            c.st.add("deinit.nodes", s.deinitNodes);
            if (r.chance(50)) memset(s.obj, 0, vf_sizeof_object());
        }
        for (auto& l : s.files) for (auto& f : l) f.reads = 0;
        s.init();
        for (auto& st : b.setup) s.op(st.op);
        size_t o = s.out.size();
        s.run();
        std::string bootOut = s.out.substr(o);
        got = runB(s);
        got.out = bootOut + got.out;
        for (auto& v : s.viols) if (v.kind == "deinit" || v.kind == "progress" || v.kind == "const-data") c.report(v.kind + ": " + v.text + "\n" + describe(a));
        RealShell f(&b.world, seed + 5);
        f.poolNodes = false;
        f.init();
        for (auto& st : b.setup) f.op(st.op);
        f.run();
        std::string fb = f.out;
        ref = runB(f);
        ref.out = fb + ref.out;
    } else {
        what = "reset in the middle of anything";
        RealShell s(&a.world, seed);
        s.poolNodes = false;
        part(s);
        Op o; o.kind = OP_RESET;
        size_t at = s.out.size(), ea = s.ev.size();
        s.op(o);
        s.run();
        std::string bootOut = s.out.substr(at);
        if (s.ev.size() != ea) c.report("callback after reset\n" + describe(a));
        // tree as it is now
        std::string tree;
        Episode fe;
        fe.world = a.world;
        RunResult x;
        Model ma;
        ma.init(&a.world);
        // only operations which succeeded count; the tree is read back from the shell through lookups
        std::vector<std::pair<std::string, const ush_node_object*>> mounted;
        got = runB(s);
        got.out = bootOut + got.out;
        // reference: fresh shell which performed the same tree operations, without any typing
        RealShell f(&a.world, seed + 5);
        f.poolNodes = false;
        f.init();
        for (auto& e : s.ev) (void)e;
        for (auto& st : a.setup) f.op(st.op);
        bool treeOps = false;
        for (auto* ls : {&a.world.dirs, &a.world.groups}) for (auto& l : *ls) for (auto& ff : l.files) for (auto& p : ff.prog) treeOps |= p.kind >= OP_MOUNT && p.kind <= OP_REMOVE;
        for (auto& st : a.steps) treeOps |= st.kind == ST_API && st.op.kind >= OP_MOUNT && st.op.kind <= OP_REMOVE;
        if (treeOps) { c.st.add("skipped.tree"); return; }
        f.run();
        std::string fb = f.out;
        ref = runB(f);
        ref.out = fb + ref.out;
    }
    c.st.evals++;
    c.st.distinct.insert(hashStr(got.out, cut));
    c.st.add("bytes.out", got.out.size());
    std::string d = diffText(ref, got, "fresh shell", what.c_str());
    if (!d.empty()) c.report(what + " (cut after " + std::to_string(cut) + " service calls)\n" + d + describe(a) + "---- then\n" + describe(b));
    if (c.st.samples.empty()) c.st.sample(describe(a).substr(0, 1500));
}

// ---- P23: every size of the buffers is good -----------------------------------------------------
PROFILE(P23) {
    Rng r(seed);
    Knobs k;
    k.lines = 10; k.nameLen = 6; k.tab = 25; k.noise = 15; k.overlong = 6; k.weird = 5; k.reset = 1; k.longText = 25;
    int in = 2 + (int)(idx % 47), out = 4 + (int)((idx / 47) % 61);
    k.inMin = k.inMax = in;
    k.outMin = k.outMax = out;
    k.pathMin = 0; k.pathMax = (int)(idx % 5);
    Gen g(seed, k);
    g.world();
    if (in < 12) for (auto* v : {&g.ep.world.dirs, &g.ep.world.groups}) for (auto& l : *v) for (auto& f : l.files) if (r.chance(70)) { f.name = g.word(std::max(1, in - 1)); g.pool.push_back(f.name); }
    g.begin(); g.session();
    // lines which fill the buffer up to the last character
    for (int i = 0; i < 3; i++) {
        g.group++;
        std::string l = g.lineFor((int)r.below(11));
        while (l.size() + 1 < (size_t)in) l += r.chance(60) ? ' ' : 'a';
        l.resize((size_t)in - 1);
        bool dbl = l.find("//") != std::string::npos;
        for (auto& a : Model::parse(l)) dbl |= a.find("//") != std::string::npos;
        if (!dbl && g.typeLine(l, 0, 0, 0)) g.enter();
    }
    Episode ep = g.finish();
    setCurrentText(describe(ep));
    c.st.add("sessions");
    Sched s = anySched(seed, 10);
    Lock l(ep, seed, s, &c.st, D_ALL);
    c.st.distinct.insert((uint64_t)in * 1000 + (uint64_t)out);
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
    if (l.all()) return;
    if (l.bad.kind != "output" && l.bad.kind != "event" && l.bad.kind != "order") {
        if (l.bad.kind == "progress" || l.bad.kind == "const-data" || l.bad.kind == "argv") c.report(l.bad.kind + ": " + l.bad.text + "\n" + describe(ep));
        return;
    }
    // is it the size?  the same session with roomy buffers
    Episode e2 = ep;
    e2.world.inSize = 4000; e2.world.outSize = 4000; e2.world.pathMax = 400;
    e2.steps.resize(std::min(e2.steps.size(), l.bad.step + 1));
    Lock l2(e2, seed, s, nullptr, 0);
    if (l2.all()) c.report(l.bad.text + "\n(fine with roomy buffers)\n" + describe(ep));
    else { c.st.foreign++; c.st.foreignBy[domainName(l.bad.domain)]++; }
}
