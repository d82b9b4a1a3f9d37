#include "common.hpp"

// ---- P04: argument vector ---------------------------------------------------------------------
PROFILE(P04) {
    Rng r(seed);
    Knobs k = quiet();
    k.user = 30; k.syntax = 12; k.empty = 6; k.unknown = 2;
    k.ls = k.help = k.cd = k.pwd = k.cat = k.xxd = k.echo = 0;
    k.weird = 70; k.quoteStyle = 95; k.general = 60; k.prog = 0; k.treeProg = 0;
    k.apiBlockedInCallback = true;
    k.inMax = 220;
    if (idx % 10 == 0) { k.inMin = 1500; k.inMax = 3000; k.lines = 6; }
    Gen g(seed, k);
    g.world(); g.begin();
    int n = r.range(8, 16);
    for (int i = 0; i < n; i++) {
        g.group++;
        if (g.ep.world.inSize > 1000 && r.chance(50)) {
            // hundreds of arguments
            std::string l = g.quote(g.someFile(1));
            while (l.size() + 30 < g.ep.world.inSize) {
                std::string a;
                for (char ch : g.bin(6)) if (ch > 31 && ch != '/') a += ch;
                l += std::string((size_t)r.range(1, 2), ' ') + g.quote(a);
                if (r.chance(2)) break;
            }
            if (l.find("//") == std::string::npos && g.typeLine(l, 0, 0, 0)) g.enter();
        } else if (r.chance(25)) {
            // any sequence of the special characters around letters
            std::string l = r.chance(70) ? g.quote(g.someFile(1)) + " " : "";
            int m = r.range(1, 24);
            for (int j = 0; j < m; j++) { static const char* w[] = {"\"", "\\", " ", "a", "x", "b", "\\\"", "\\\\", "\\x", "\" \"", "\xe9"}; l += w[r.below(11)]; }
            if (l.find("//") == std::string::npos && l.size() + 1 < g.ep.world.inSize && g.typeLine(l, 0, 0, 0)) g.enter();
        } else if (r.chance(12)) {
            // exactly full line
            std::string l = g.quote(g.someFile(1));
            while (l.size() + 1 < g.ep.world.inSize) l += r.chance(30) ? ' ' : r.chance(10) ? '"' : r.chance(10) ? '\\' : (char)r.range(97, 122);
            if (l.find("//") == std::string::npos && g.typeLine(l.substr(0, g.ep.world.inSize - 1), 0, 0, 0)) g.enter();
        } else g.action();
    }
    Episode ep = g.finish();
    runJudge(c, ep, seed, Sched::smooth(), D_USER | D_UNKNOWN | D_EMPTY, {"argv"});
}

// ---- P05: dispatch ----------------------------------------------------------------------------
PROFILE(P05) {
    Knobs k = quiet();
    k.user = 30; k.unknown = 12; k.empty = 3; k.apiTree = 3; k.cd = 8; k.pwd = 2; k.syntax = 2;
    k.ls = k.help = k.cat = k.xxd = k.echo = 1;
    k.weird = 5; k.quoteStyle = 5; k.general = 60; k.prog = 40; k.treeProg = 15; k.cmdNames = 15; k.groups = 5; k.ctrlc = 2; k.dropBuiltin = 8;
    if (idx % 20 == 0) { k.groups = 12; k.groupFiles = 60; k.files = 60; k.nodes = 20; }
    if (idx % 3 == 0) { k.nodes = 14; k.nameLen = 3; k.apiTree = 6; }
    Gen g(seed, k);
    runJudge(c, g.make(), seed, anySched(seed, 30), D_USER | D_UNKNOWN | D_EMPTY | D_CTRLC, {"argv"});
}

// ---- P06: paths -------------------------------------------------------------------------------
PROFILE(P06) {
    Rng r(seed);
    Knobs k = quiet();
    k.user = 1; k.unknown = 1; k.ls = 3; k.help = k.cat = k.xxd = k.echo = 1; k.cd = 25; k.pwd = 8; k.apiPath = 16; k.apiTree = 1;
    k.nodes = 20; k.nameLen = r.chance(50) ? 2 : 8; k.general = 0; k.weird = 10; k.inMax = 200; k.inMin = 100;
    k.pathMin = 0; k.pathMax = r.chance(50) ? 4 : 80; k.quoteStyle = 10; k.lines = 20;
    if (idx % 10 == 0) { k.nodes = 60; k.inMin = 1000; k.inMax = 1500; k.pathMax = 300; }
    Gen g(seed, k);
    runJudge(c, g.make(), seed, Sched::smooth(), D_CD | D_PWD | D_API_PATH, {});
}

// ---- P07 .. P11: builtin commands -------------------------------------------------------------
static Knobs only(uint64_t idx) {
    Knobs k = quiet();
    k.user = k.unknown = k.ls = k.help = k.cat = k.xxd = k.echo = k.pwd = 1;
    k.cd = 5; k.apiTree = 1; k.apiPath = 0; k.weird = 8; k.quoteStyle = 5; k.general = 10;
    k.pathMin = 4; k.inMin = 64;
    k.outMin = idx % 3 == 0 ? 6 : 40;
    return k;
}
PROFILE(P07) {
    Knobs k = only(idx);
    k.ls = 25; k.nodes = 14; k.files = 8; k.apiTree = 5; k.treeProg = 15; k.user = 4;
    if (idx % 25 == 0) { k.nodes = 150; k.files = 320; k.lines = 4; k.inMax = 400; k.shareDirs = 85; }
    Gen g(seed, k);
    runJudge(c, g.make(), seed, anySched(seed, 15), D_LS, {});
}
PROFILE(P08) {
    Knobs k = only(idx);
    k.dropBuiltin = 8;
    k.help = 25; k.groups = 6; k.groupFiles = 8; k.apiTree = 5; k.treeProg = 15; k.user = 4;
    if (idx % 25 == 0) { k.groups = 20; k.groupFiles = 320; k.lines = 4; }
    Gen g(seed, k);
    runJudge(c, g.make(), seed, anySched(seed, 15), D_HELP, {});
}
PROFILE(P09) {
    Rng r(seed);
    Knobs k = only(idx);
    k.cat = 30; k.echo = 6; k.content = r.chance(10) ? 2000 : 80; k.inMax = 240; k.nodes = 6; k.files = 8; k.badArgs = 12; k.getProg = 10; k.cbTree = idx % 3 == 1 ? 6 : 0;
    Gen g(seed, k);
    g.world();
    if (idx % 40 == 0)      // streams much longer than any counter of 16 bits
        for (auto& l : g.ep.world.dirs) for (auto& f : l.files) if (f.get != GET_NONE && r.chance(30)) {
            f.content = std::string(65536 + r.below(5) - 2, 'a');
            for (size_t i = 0; i < f.content.size(); i += 97) f.content[i] = (char)r.next();
        }
    if (idx % 400 == 5 && !g.ep.world.dirs.empty() && !g.ep.world.dirs[0].files.empty()) {
        auto& f = g.ep.world.dirs[0].files[0];
        f.get = GET_STATIC;
        f.content = std::string((size_t)3 << 20, 'b');
        for (size_t i = 0; i < f.content.size(); i += 1009) f.content[i] = (char)r.next();
    }
    g.begin(); g.session();
    runJudge(c, g.finish(), seed, anySched(seed, idx % 40 == 0 ? 0 : 30), D_CAT, {"const-data"});
}
PROFILE(P10) {
    Rng r(seed);
    Knobs k = only(idx);
    k.xxd = 30; k.echo = 5; k.content = 80; k.badArgs = 12;
    Gen g(seed, k);
    g.world();
    for (auto& l : g.ep.world.dirs) for (auto& f : l.files) if (r.chance(50)) {
        f.content.clear();
        size_t n = (size_t)FEAT.columns * r.below(5) + (size_t)r.range(0, 2);
        for (size_t i = 0; i < n; i++) f.content += (char)(r.chance(40) ? r.range(0x1e, 0x21) : r.chance(40) ? r.range(0x7d, 0x81) : r.next());
        if (idx % 60 == 0 && r.chance(10)) { f.content.resize(66000 + r.below(300)); for (auto& ch : f.content) ch = (char)r.next(); }
    }
    g.begin(); g.session();
    runJudge(c, g.finish(), seed, anySched(seed, idx % 60 == 0 ? 0 : 15), D_XXD, {"const-data"});
}
PROFILE(P11) {
    Rng r(seed);
    Knobs k = only(idx);
    k.echo = 40; k.cat = 4; k.files = 8; k.badArgs = 12; k.quoteStyle = 50; k.inMax = 300; k.weird = r.chance(30) ? 60 : 5; k.cbTree = idx % 3 == 1 ? 5 : 0;
    if (idx % 20 == 0) { k.inMin = 2000; k.inMax = 9000; k.lines = 6; }
    Gen g(seed, k);
    g.world(); g.begin();
    int n = r.range(8, 16);
    for (int i = 0; i < n; i++) {
        g.group++;
        if (r.chance(30)) {
            // raw escapes, well formed or not
            std::string a;
            int m = g.ep.world.inSize > 1000 ? r.range(100, 900) : r.range(1, 10);
            for (int j = 0; j < m; j++) {
                static const char* w[] = {"\\x41", "\\x00", "\\xfF", "\\xg1", "\\x4", "\\\\", "\\n", "a", "x", "0", "\\x0a", "\\x7F", "\\\\x41", "~", "\\x"};
                a += w[r.below(15)];
            }
            std::string l = "echo " + (r.chance(60) ? "\"" + a + "\"" : a);
            if (r.chance(70)) l += " > " + g.quote(g.someFile(3));
            if (l.size() + 1 <= g.ep.world.inSize && g.typeLine(l, 0, 0, 0)) g.enter();
        } else if (r.chance(10)) {
            // data which fill the whole line
            std::string f = g.quote(g.someFile(3));
            size_t room = g.ep.world.inSize - 1;
            if (room < f.size() + 12) continue;
            std::string l = "echo " + std::string(room - 5 - 3 - f.size(), 'z') + " > " + f;
            if (g.typeLine(l, 0, 0, 0)) g.enter();
        } else g.action();
    }
    runJudge(c, g.finish(), seed, anySched(seed, 15), D_ECHO, {});
}

// ---- P13: autocompletion ----------------------------------------------------------------------
PROFILE(P13) {
    Rng r(seed);
    Knobs k = quiet();
    k.user = 6; k.unknown = 2; k.cd = 6; k.ls = k.help = k.cat = k.xxd = k.echo = 2; k.apiTree = 2; k.weird = 10; k.quoteStyle = 3; k.prog = 20; k.general = 40;
    k.dropBuiltin = 5;
    k.tab = 100; k.noise = 15; k.nodes = 10; k.files = 8; k.groupFiles = 8; k.nameLen = r.chance(50) ? 4 : 14; k.escSeq = 5;
    k.inMin = idx % 3 == 0 ? 4 : 60; k.inMax = idx % 3 == 0 ? 40 : 200;
    if (idx % 30 == 0) { k.nodes = 120; k.files = 300; k.groupFiles = 300; k.lines = 5; k.shareDirs = 80; k.nameLen = 5; }
    Gen g(seed, k);
    g.world(); g.begin();
    int n = r.range(5, k.lines);
    for (int i = 0; i < n; i++) {
        g.group++;
        if (r.chance(50)) { g.action(); continue; }
        // prefix of something that exists, completed
        std::string pre;
        if (r.chance(50)) pre = r.chance(50) ? "cat " : r.chance(50) ? " " : "ls  ";
        std::string nm = r.chance(90) ? g.pick(g.pool) : "help";
        pre += nm.substr(0, r.below(nm.size() + 1));
        if (pre.size() + 1 > g.ep.world.inSize) continue;
        bool bad = pre.find('/') != std::string::npos;
        if (bad) continue;
        g.typeLine(pre, 0, 0, 0);
        g.flushStep();
        int t = r.range(1, 3);
        for (int j = 0; j < t; j++) {
            g.typeChars("\t"); g.flushStep();
            if (r.chance(30) && g.m.line.size() + 2 < g.ep.world.inSize) { g.typeChars(std::string(1, (char)r.range(97, 100))); g.flushStep(); }
            if (r.chance(15)) { g.typeChars("\x7f"); g.flushStep(); }
        }
        g.enter();
    }
    Episode ep = g.finish();
    runJudge(c, ep, seed, anySched(seed, 15), D_TAB, {});
}

// ---- P15: mount / unmount / command groups ------------------------------------------------------
PROFILE(P15) {
    Rng r(seed);
    Knobs k = quiet();
    k.user = 3; k.unknown = 2; k.ls = 8; k.cd = 8; k.help = 4; k.pwd = 2; k.cat = k.xxd = k.echo = 1; k.apiTree = 40; k.apiPath = 4; k.treeProg = 40;
    k.nodes = 12; k.nameLen = r.chance(60) ? 2 : 8; k.weird = 5; k.quoteStyle = 3; k.lines = 30; k.general = 20; k.prog = 30; k.groups = 5; k.dropBuiltin = 12; k.cbTree = idx % 3 == 1 ? 12 : 0;
    if (idx % 20 == 0) { k.nodes = 100; k.lines = 60; k.groups = 15; }
    Gen g(seed, k);
    g.world(); g.begin();
    int n = r.range(k.lines / 2, k.lines), swaps = idx % 4 == 2 ? r.range(1, 3) : 0;
    for (int i = 0; i < n; i++) {
        if (swaps && r.chance(8)) { g.rootSwap(); swaps--; c.st.add("root.replaced"); }
        g.action();
    }
    Episode ep = g.finish();
    runJudge(c, ep, seed, Sched::smooth(), D_API_TREE, {"mount", "deinit"});
}

// ---- P16: printing API ------------------------------------------------------------------------
PROFILE(P16) {
    Rng r(seed);
    Knobs k = quiet();
    k.user = 30; k.apiPrint = 12; k.reset = 3; k.empty = 2; k.ctrlc = 1; k.unknown = 1; k.ls = k.help = k.cd = k.pwd = k.cat = k.xxd = k.echo = 1;
    k.prog = 100; k.longText = 35; k.quoteStyle = 5; k.weird = 3; k.treeProg = 0; k.outMin = idx % 2 ? 4 : 20; k.outMax = idx % 2 ? 40 : 300; k.noise = 10; k.general = 50; k.midApi = 40; k.escSeq = 5; k.procs = 15;
    Gen g(seed, k);
    g.world();
    for (auto* v : {&g.ep.world.dirs, &g.ep.world.groups})
        for (auto& l : *v) for (auto& f : l.files) if (f.exec && r.chance(40)) {
            // long chains of concatenated printf, possibly finished with something else
            f.prog.clear();
            int n = r.range(2, 8);
            for (int i = 0; i < n; i++) { Op o; o.kind = r.chance(90) ? OP_PRINTF : OP_PRINTF_BAD; o.text = g.text().substr(0, r.chance(60) ? 6 : 60); o.n = (int)r.below(9); f.prog.push_back(o); }
            if (r.chance(25)) f.prog.push_back(g.printOp(true));
        }
    g.begin(); g.session();
    runJudge(c, g.finish(), seed, anySched(seed, 15), D_API_PRINT | D_USER | D_API_RESET, {});
}

// ---- P19: every configuration behaves as documented ----------------------------------------------
PROFILE(P19) {
    Rng r(seed);
    Knobs k;
    k.lines = 12; k.overlong = 1; k.tab = 20; k.reset = 1; k.cmdNames = 15;
    k.outMin = idx % 3 ? 60 : 8; k.outMax = 160;
    if (idx % 5 == 0) { k.xxd = 20; k.content = 100; }
    if (idx % 5 == 1) { k.ls = 20; k.help = 20; }
    if (idx % 5 == 2) { k.badArgs = 70; }
    Gen g(seed, k);
    Episode ep = g.make();
    c.st.add("config.files", BUILTIN.size());
    runJudge(c, ep, seed, anySched(seed, 15), D_ALL, KINDS_ALL);
}

// ---- P26: builds of the library --------------------------------------------------------------
PROFILE(P26) {
    Knobs k;
    k.lines = 14; k.overlong = 1; k.tab = 20; k.noise = 10; k.reset = 1; k.weird = 12; k.longText = 15; k.midApi = 10;
    if (idx % 4 == 0) { k.xxd = 20; k.echo = 15; k.cat = 10; k.content = 200; }
    if (idx % 4 == 1) { k.ls = 20; k.help = 20; }
    if (idx % 4 == 2) { k.badArgs = 50; k.syntax = 4; }
    if (idx % 8 == 3) { k.inMin = 4; k.outMin = 4; k.outMax = 30; }
    Gen g(seed, k);
    Episode ep = g.make();
    runJudge(c, ep, seed, anySched(seed, 15), D_ALL, KINDS_ALL);
}

// ---- P21: failed commands ---------------------------------------------------------------------
PROFILE(P21) {
    Rng r(seed);
    Knobs k = quiet();
    k.badArgs = 85; k.user = 2; k.unknown = 12; k.ls = k.help = k.cd = k.cat = k.xxd = k.echo = 12; k.pwd = 6; k.syntax = 3; k.general = 30; k.lines = 20;
    k.quoteStyle = 10; k.weird = 8; k.apiTree = 1;
    if (idx % 4 == 0) { k.pathMin = 0; k.pathMax = 2; k.nameLen = 16; k.inMin = 100; }
    Gen g(seed, k);
    runJudge(c, g.make(), seed, anySched(seed, 15), D_ERROR, {});
}

