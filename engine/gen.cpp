#include "gen.hpp"
#include <algorithm>

bool canDropBuiltin = false;

static const char* BN[] = {"help", "ls", "cd", "pwd", "cat", "xxd", "echo"};

std::string Gen::word(int maxLen) {
    static const char* al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
    int n = r.range(1, maxLen > 1 ? maxLen : 1);
    std::string s;
    int span = r.chance(40) ? 3 : 63;   // small alphabets give common prefixes
    for (int i = 0; i < n; i++) s += al[r.below((uint64_t)span)];
    return s;
}

std::string Gen::name() {
    if (r.chance(k.cmdNames)) return BN[r.below(7)];
    std::string s;
    if (!pool.empty() && r.chance(45)) {          // related to an existing name
        s = r.pick(pool);
        switch (r.below(4)) {
        case 0: break;
        case 1: s += word(3); break;
        case 2: s = s.substr(0, r.range(1, (int)s.size())); break;
        default: s = s.substr(0, r.range(1, (int)s.size())) + word(4); break;
        }
    } else {
        s = word(k.nameLen);
        if (r.chance(20)) s += "." + word(3);
    }
    if (r.chance(k.weird)) {
        static const char* w = " \"\\'>;*?%$#@!~(){}[]<|&=+,:^`";
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            char c = r.chance(30) ? (char)r.range(0x80, 0xff) : w[r.below(strlen(w))];
            s.insert(r.below(s.size() + 1), 1, c);
        }
    }
    if ((int)s.size() > k.nameLen + 8) s.resize(k.nameLen + 8);
    if (r.chance(6)) s.insert(0, r.chance(50) ? ".." : r.chance(70) ? "." : "...");     // a name that begins like a path
    if (s == "." || s == "..") s += 'q';
    pool.push_back(s);
    return s;
}

std::string Gen::text() {
    std::string s;
    int n = r.chance(k.longText) ? r.range((int)ep.world.outSize - 3, (int)ep.world.outSize * 3) : r.range(0, 30);
    for (int i = 0; i < n; i++) {
        int c = (int)r.below(100);
        if (c < 80) s += (char)r.range(32, 126);
        else if (c < 85) s += "\r\n";
        else if (c < 95) s += (char)r.range(128, 255);
        else s += (char)r.range(1, 31);
    }
    return s;
}

std::string Gen::bin(int maxLen) {
    std::string s;
    int n = (int)r.below((uint64_t)maxLen + 1);
    int mode = (int)r.below(6), period = r.chance(50) ? 1 << r.below(6) : r.range(1, 40);
    for (int i = 0; i < n; i++) {
        switch (mode) {
        case 4: case 5: s += i < period || r.chance(1) ? (char)(mode == 4 ? r.next() : r.chance(50) ? 0 : 0xff) : s[i - period]; break;    // repeats itself
        case 0: s += (char)r.next(); break;
        case 1: s += (char)r.range(32, 126); break;
        case 2: s += r.chance(20) ? '\0' : (char)r.range(0x1e, 0x82); break;
        default: s += (char)('a' + i % 26); break;
        }
    }
    return s;
}

Op Gen::printOp(bool inExec) {
    Op o;
    switch (r.below(inExec ? 9 : 8)) {
    case 0: case 1: o.kind = OP_PRINT; o.text = text(); break;
    case 2: o.kind = OP_PRINT_NN; o.text = text(); break;
    case 3: case 4: case 5: o.kind = OP_PRINTF; o.text = text(); o.n = (int)r.below(9); break;
    case 6: o.kind = OP_STATUS; o.n = (int)r.below(13); break;
    case 7:
        if (r.chance(50)) { o.kind = OP_FLUSH; o.text = text(); }
        else o.kind = OP_PRINTF_BAD;
        break;
    default: o.kind = OP_PRINT_ARG; o.n = (int)r.below(4); break;
    }
    return o;
}

Op Gen::treeOp() {
    Op o;
    switch (r.below(7)) {
    case 0: case 1:
        o.kind = OP_MOUNT;
        o.text = mountable.empty() || r.chance(10) ? "/" + name() + "/" + name() : r.pick(mountable);
        if (o.text.find('\0') != std::string::npos || o.text.size() + 1 > ep.world.pathMax) o.text = "/";
        o.n = (int)r.below(ep.world.dirs.size());
        break;
    case 2: case 3:
        o.kind = OP_UNMOUNT;
        o.text = mountable.empty() || r.chance(10) ? "/nothing" : r.pick(mountable);
        if (o.text.size() + 1 > ep.world.pathMax) o.text = "/n";
        break;
    case 4:
        o.kind = OP_ADD;
        o.n = ep.world.groups.empty() ? -1 : (int)r.below(ep.world.groups.size());
        if (started && FEAT.commands && std::find(m.groups.begin(), m.groups.end(), -1) == m.groups.end() && r.chance(60)) o.n = -1;
        break;
    case 5:
        o.kind = OP_REMOVE;
        o.n = ep.world.groups.empty() ? -1 : (int)r.below(ep.world.groups.size());
        if (r.chance(k.dropBuiltin)) o.n = -1;
        break;
    default:
        o.kind = r.chance(60) ? OP_NODE : OP_PARENT;
        o.text = mountable.empty() || r.chance(20) ? "/nothing/x" : r.pick(mountable);
        if (o.text.size() + 1 > ep.world.pathMax) o.text = "/n";
        break;
    }
    return o;
}

Op Gen::pathOp() {
    Op o;
    switch (r.below(3)) {
    case 0: o.kind = OP_CD; o.text = somePath(); break;
    case 1: o.kind = OP_FIND; o.text = someFile(0); break;
    default: o.kind = OP_ABS; o.text = r.chance(50) ? somePath() : someFile(0); break;
    }
    return o;
}

std::vector<Op> Gen::program(int) {
    std::vector<Op> v;
    int n = r.range(0, 3);
    for (int i = 0; i < n; i++) v.push_back(printOp(true));
    return v;
}

std::string Gen::escape() {
    static const char* e[] = {"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1bOP", "\x1bOA", "\x1bq", "\x1b[H", "\x1b\x1b[A"};
    int c = (int)r.below(100);
    if (c < 60) return e[r.below(9)];
    std::string s = r.chance(50) ? "\x1b[" : "\x1bO";
    if (c < 75) return s + (char)r.range(33, 126);          // any letter, digit or sign ends the sequence
    if (c < 80) return s + (char)r.range(128, 255);
    if (c < 85) return s + (r.chance(50) ? '\x08' : '\x7f') + (r.chance(80) ? std::string(1, (char)r.range(33, 126)) : "");
    if (c < 89) { char x = (char)r.range(33, 126); return std::string("\x1b") + (x == '[' || x == 'O' ? 'N' : x); }
    if (c < 92) return std::string("\x1b") + (r.chance(50) ? '\x08' : '\x7f') + (char)r.range(97, 122);
    if (c < 94) return s + (r.chance(50) ? '\r' : '\n');
    if (c < 96) return s + "\x1b[D";
    if (c < 97) return std::string("\x1b") + (r.chance(50) ? '\r' : '\n');
    static const char* t[] = {"3~", "15~", "1;5C", "2J", "200~"};  // longer ones: the rest is text
    return "\x1b[" + std::string(t[r.below(5)]);
}

FileSpec Gen::file(bool global) {
    FileSpec f;
    f.name = name();
    f.hasDesc = r.chance(50);
    if (f.hasDesc) f.desc = r.chance(10) ? "" : r.chance(10) ? text() : word(20);
    f.hasHelp = r.chance(40);
    if (f.hasHelp) f.help = r.chance(10) ? "" : text() + "\r\n";
    f.exec = r.chance(global ? 85 : 45);
    if (f.exec && r.chance(k.prog)) f.prog = program();
    if (f.exec && r.chance(k.procs)) {
        f.prog.assign(1, Op{OP_PROCESS, "", 0});
        f.proc = r.chance(75);
        int n = r.range(0, 5);
        for (int i = 0; i < n; i++) f.pieces.push_back(r.chance(25) ? "" : text());
        n = r.chance(50) ? 0 : r.range(1, 2);
        for (int i = 0; i < n; i++) f.tail.push_back(printOp(false));
    }
    else if (r.chance(10)) f.proc = 1;                // a process which nothing starts
    if (r.chance(60)) f.get = r.range(1, 4);
    if (r.chance(50)) f.set = r.range(1, 2);
    f.content = bin(r.chance(10) ? k.content * 6 : k.content);
    return f;
}

void Gen::world() {
    World& w = ep.world;
    w.inSize = (size_t)r.range(k.inMin, k.inMax);
    w.outSize = (size_t)r.range(k.outMin, k.outMax);
    if (k.outMin > 4 && r.chance(5)) w.outSize = (size_t)r.range(4, k.outMin);      // never only comfortable sizes
    w.host = r.chance(20) ? "" : word(r.chance(6) ? 100 : 12);
    // names
    for (int i = 0; i < 6; i++) name();
    auto list = [&](int maxFiles, bool global, int minFiles) {
        ListSpec l;
        int n = r.range(minFiles, maxFiles);
        for (int i = 0; i < n; i++) {
            FileSpec f = file(global);
            bool dup = false;
            for (auto& o : l.files) dup |= o.name == f.name;
            if (dup && r.chance(90)) continue;
            l.files.push_back(f);
        }
        if (l.files.empty() && minFiles) l.files.push_back(file(global));
        return l;
    };
    int nodes = r.range(0, k.nodes);
    std::vector<std::string> paths{"/"};
    for (int i = 0; i < nodes; i++) {
        std::string par = r.pick(paths);
        std::string n = name();
        if (n == "/" || n.empty()) continue;
        std::string p = (par == "/" ? "" : par) + "/" + n;
        if (std::find(paths.begin(), paths.end(), p) == paths.end()) paths.push_back(p);
    }
    size_t longest = 16;
    for (auto& p : paths) {
        longest = std::max(longest, p.size());
        if (w.dirs.empty() || !r.chance(k.shareDirs)) w.dirs.push_back(list(k.files, false, 0));
        ep.mount(p, p == "/" ? (int)w.dirs.size() - 1 : r.chance(k.shareDirs) ? (int)r.below(w.dirs.size()) : (int)w.dirs.size() - 1);
        if (p != "/") mountable.push_back(p);
        if (r.chance(5)) ep.mount(r.pick(paths), 0);      // may fail
        if (r.chance(3)) ep.mount("/no/parent", 0);
    }
    for (int i = 0; i < 3 && !mountable.empty(); i++) mountable.push_back(r.pick(paths) == "/" ? "/" + word(4) : r.pick(mountable) + "/" + word(3));
    for (auto& p : mountable) longest = std::max(longest, p.size());
    w.pathMax = longest + 1 + (size_t)r.range(k.pathMin, k.pathMax);
    int g = r.range(0, k.groups);
    for (int i = 0; i < g; i++) {
        w.groups.push_back(list(k.groupFiles, true, 1));
        if (r.chance(8)) {                    // the same array of files again
            size_t all = w.dirs.size() + w.groups.size() - 1, a = all - 1 - r.below(std::min<size_t>(all, 3));
            ListSpec& l = a < w.dirs.size() ? w.dirs[a] : w.groups[a - w.dirs.size()];
            if (l.alias == -1 && !l.files.empty()) { w.groups.back().files = l.files; w.groups.back().alias = a < w.dirs.size() ? (int)a : -2 - (int)(a - w.dirs.size()); }
        }
        if (r.chance(85)) ep.api(ep.setup, OP_ADD, "", i);
    }
    if (r.chance(k.general)) {
        w.general = true;
        if (r.chance(30)) {
            w.generalProg = program();
            for (auto& o : w.generalProg) if (o.kind == OP_PRINT_ARG) o.kind = OP_PRINT; // the arguments belong to the command
        }
    }
    // programs which change or query the tree need the paths to be known
    for (auto* v : {&w.dirs, &w.groups})
        for (auto& l : *v)
            for (auto& f : l.files) {
                if (f.exec && r.chance(k.treeProg) && !k.apiBlockedInCallback) {
                    int n = r.range(1, 3);
                    for (int i = 0; i < n; i++) {
                        Op o = r.chance(70) ? treeOp() : Op{OP_CD, r.chance(70) && !mountable.empty() ? r.pick(mountable) : "..", 0};
                        if (o.kind == OP_ADD || ((o.kind == OP_REMOVE) && o.n < 0)) continue;
                        f.prog.insert(f.prog.begin(), o);     // a process is started by the last operation
                    }
                }
                if (f.get != GET_NONE && r.chance(k.getProg)) f.getProg.push_back({OP_FIND, r.pick(pool), 0});
                if (f.set != SET_NONE && r.chance(20)) f.setProg.push_back(printOp(false));
                auto change = [&](std::vector<Op>& v) {
                    int n = r.range(1, 3);
                    for (int i = 0; i < n; i++) {
                        Op o = r.chance(80) ? treeOp() : Op{OP_CD, r.chance(70) && !mountable.empty() ? r.pick(mountable) : "..", 0};
                        if ((o.kind == OP_ADD || o.kind == OP_REMOVE) && o.n < 0) continue;
                        v.insert(v.begin(), o);
                    }
                };
                if (f.get != GET_NONE && r.chance(k.cbTree)) change(f.getProg);
                if (f.set != SET_NONE && r.chance(k.cbTree)) change(f.setProg);
                if (w.general && r.chance(k.cbTree / 8)) change(w.generalProg);
            }
}

void Gen::begin() {
    m.init(&ep.world);
    for (auto& s : ep.setup) m.setupOp(s.op);
    m.boot();
    started = true;
}

// ---- expressions ------------------------------------------------------------------------------
std::string Gen::quote(const std::string& s, bool force) {
    auto special = [](char c) { return c == ' ' || c == '"' || c == '\\'; };
    bool need = s.empty() || force;
    for (char c : s) need |= special(c);
    bool fancy = r.chance(k.quoteStyle);
    if (!need && !fancy) return s;
    if (s.empty()) return "\"\"";
    std::string o;
    int style = fancy ? (int)r.below(4) : 0;
    bool q = false;
    if (style == 0) { o = "\""; q = true; }
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (style >= 2 && r.chance(15)) { o += '"'; q = !q; }
        if (c == '\\' && i + 1 < s.size() && s[i + 1] == 'x' && r.chance(50)) { o += "\\x"; i++; continue; }
        if (c == '"' || c == '\\' || (c == ' ' && !q) || (style == 3 && c != 'x' && r.chance(15))) o += '\\';
        o += c;
    }
    if (q) o += '"';
    if (style >= 2 && r.chance(10)) o += "\"\"";
    return o;
}

// argument which echo decodes into s (s without restrictions, may contain any byte)
std::string Gen::quoteEcho(const std::string& s) {
    std::string a; // value of the argument after the shell has parsed it
    for (char ch : s) {
        unsigned char c = (unsigned char)ch;
        char b[8];
        bool raw = c >= 32 && c != 127;
        if (!raw || r.chance(20)) {
            snprintf(b, sizeof b, r.chance(50) ? "\\x%02x" : "\\x%02X", c);
            a += b;
        } else if (c == '\\') a += "\\\\";
        else if (c != 'x' && r.chance(4)) { a += '\\'; a += ch; }
        else a += ch;
    }
    return quote(a);
}

std::string Gen::pathTo(const std::string& abs) {
    std::vector<std::string> comps;
    auto split = [](const std::string& p) {
        std::vector<std::string> v;
        size_t i = 1;
        while (i < p.size()) {
            size_t j = p.find('/', i);
            if (j == std::string::npos) j = p.size();
            v.push_back(p.substr(i, j - i));
            i = j + 1;
        }
        return v;
    };
    std::vector<std::string> t = split(abs), c = split(m.cwd.empty() ? "/" : m.cwd);
    bool relative = r.chance(60);
    size_t common = 0;
    if (relative) {
        while (common < t.size() && common < c.size() && t[common] == c[common]) common++;
        size_t keep = r.chance(70) ? common : r.below(common + 1);
        for (size_t i = keep; i < c.size(); i++) comps.push_back("..");
        for (size_t i = keep; i < t.size(); i++) comps.push_back(t[i]);
        if (!comps.empty() && r.chance(6) && keep == 0) comps.insert(comps.begin(), ".."); // above the root
    } else comps = t;
    if (r.chance(25)) {
        int n = r.range(1, 2);
        for (int i = 0; i < n; i++) {
            size_t at = r.below(comps.size() + 1);
            if (r.chance(50)) comps.insert(comps.begin() + at, ".");
            else {
                comps.insert(comps.begin() + at, "..");
                comps.insert(comps.begin() + at, r.chance(50) ? r.pick(pool) : word(3));
            }
        }
    }
    std::string o = relative ? "" : "/";
    for (size_t i = 0; i < comps.size(); i++) o += (i ? "/" : "") + comps[i];
    if (relative && o.empty()) o = r.chance(70) ? "." : "";
    if (!comps.empty() && r.chance(8)) o += "/";
    return o;
}

std::string Gen::somePath() {
    int c = (int)r.below(100);
    if (c < 70) {
        size_t n = r.below(m.tree.size());
        auto it = m.tree.begin();
        std::advance(it, n);
        return pathTo(it->first);
    }
    if (c < 76) return "..";
    if (c < 80) return "/";
    if (c < 84) return ".";
    if (c < 86) return "";
    if (c < 92) return pathTo((m.cwd == "/" ? "" : m.cwd) + "/" + r.pick(pool));
    if (c < 95 && !mountable.empty()) return pathTo(r.pick(mountable) + "/" + r.pick(pool));
    std::string s = word(6);
    if (r.chance(40)) { while (s.size() < ep.world.pathMax + 4) s += "/" + word(5); }
    return s;
}

std::string Gen::someFile(int want) {
    auto good = [&](const FileSpec& f) {
        switch (want) {
        case 1: return f.exec;
        case 2: return f.get != GET_NONE;
        case 3: return f.set != SET_NONE;
        case 4: return f.hasHelp;
        default: return true;
        }
    };
    bool picky = want && r.chance(88);
    for (int i = 0; i < 12; i++) {
        int c = (int)r.below(100);
        if (c < 10 && FEAT.commands) {
            if (BUILTIN.empty()) continue;
            const FileSpec& f = r.pick(BUILTIN);
            if (picky && !good(f)) continue;
            return f.name;
        }
        if (c < 40 && !m.groups.empty()) {
            int g = r.pick(m.groups);
            if (g < 0) continue;
            const FileSpec& f = r.pick(ep.world.groups[g].files);
            if (picky && !good(f)) continue;
            return f.name;
        }
        if (c < 95) {
            auto it = m.tree.begin();
            if (r.chance(40)) it = m.tree.find(m.cwd);
            else std::advance(it, r.below(m.tree.size()));
            if (it == m.tree.end()) continue;
            auto& fl = ep.world.dirs[it->second.dir].files;
            if (fl.empty()) continue;
            const FileSpec& f = r.pick(fl);
            if (picky && !good(f)) continue;
            return pathTo((it->first == "/" ? "" : it->first) + "/" + f.name);
        }
        if (!picky) return r.chance(50) ? r.pick(pool) : somePath();
    }
    return r.chance(50) ? word(6) : r.pick(pool);
}

std::string Gen::command(const std::string& n) { return r.chance(5) ? quote(n, true) : n; }

enum { L_USER, L_UNKNOWN, L_LS, L_HELP, L_CD, L_PWD, L_CAT, L_XXD, L_ECHO, L_EMPTY, L_SYNTAX };

std::string Gen::lineFor(int kind) {
    std::string l;
    auto sep = [&] { return std::string((size_t)(r.chance(90) ? 1 : r.range(1, 4)), ' '); };
    bool bad = r.chance(k.badArgs);
    if (r.chance(6)) l += sep();
    switch (kind) {
    case L_USER: {
        l += quote(someFile(1));
        int n = r.chance(70) ? r.range(0, 3) : r.range(0, 8);
        for (int i = 0; i < n; i++) l += sep() + quote(r.chance(30) ? r.pick(pool) : r.chance(10) ? "" : r.chance(20) ? bin(10).c_str() : word(8));
        break;
    }
    case L_UNKNOWN:
        l += quote(r.chance(50) ? word(6) : r.chance(50) ? r.pick(pool) : somePath());
        if (r.chance(50)) l += sep() + quote(word(5));
        break;
    case L_LS:
        l += command("ls");
        if (bad && r.chance(40)) l += sep() + quote(somePath()) + sep() + quote(word(3));
        else if (bad) l += sep() + quote(word(5));
        else if (r.chance(60)) l += sep() + quote(somePath());
        break;
    case L_HELP:
        l += command("help");
        if (bad && r.chance(40)) l += sep() + quote(word(3)) + sep() + quote(word(3));
        else if (bad) l += sep() + quote(someFile(0));
        else if (r.chance(60)) l += sep() + quote(someFile(4));
        break;
    case L_CD:
        l += command("cd");
        if (bad && r.chance(50)) { if (r.chance(50)) l += sep() + quote(somePath()) + sep() + quote(word(3)); }
        else if (bad) l += sep() + quote(someFile(0));
        else l += sep() + quote(somePath());
        break;
    case L_PWD:
        l += command("pwd");
        if (bad) l += sep() + quote(word(3));
        break;
    case L_CAT: {
        l += command("cat");
        int n = bad && r.chance(30) ? 0 : r.chance(60) ? 1 : r.range(2, 6);
        for (int i = 0; i < n; i++) l += sep() + quote(someFile(bad ? 0 : 2));
        break;
    }
    case L_XXD:
        l += command("xxd");
        if (bad && r.chance(40)) { if (r.chance(50)) l += sep() + quote(someFile(2)) + sep() + quote(someFile(2)); }
        else l += sep() + quote(someFile(bad ? 0 : 2));
        break;
    case L_ECHO: {
        l += command("echo");
        int c = (int)r.below(100);
        auto arg = [&] { return r.chance(80) ? quoteEcho(bin(r.chance(70) ? 8 : 24)) : quote(text().c_str()); };
        if (bad) {
            int n = r.range(0, 5);
            for (int i = 0; i < n; i++) l += sep() + (r.chance(25) ? ">" : r.chance(40) ? arg() : quote(someFile(0)));
        } else if (c < 8) { /* echo alone */ }
        else if (c < 45) l += sep() + arg();
        else l += sep() + arg() + sep() + ">" + sep() + quote(someFile(3));
        break;
    }
    case L_EMPTY:
        if (r.chance(50)) l += sep();
        break;
    case L_SYNTAX: {
        l += lineFor((int)r.below(9));
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            static const char* w[] = {"\"", "\\", " ", "\"\"", "\\x", "\\\\", "\\\"", "x", ">", "/", ".", ".."};
            l.insert(r.below(l.size() + 1), w[r.below(12)]);
        }
        break;
    }
    }
    if (r.chance(6)) l += sep();
    // only characters which a terminal sends as text
    std::string o;
    for (char c : l) {
        unsigned char u = (unsigned char)c;
        if (u < 32 || u == 127) continue;
        if (c == '/' && !o.empty() && o.back() == '/') continue;
        o += c;
    }
    // the quoting must not hide a double slash
    for (auto& a : Model::parse(o)) {
        for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == '/' && a[i + 1] == '/') return kind == L_EMPTY ? "" : "pwd";
    }
    return o;
}

// ---- typing -----------------------------------------------------------------------------------
void Gen::flushStep() {
    if (cur.empty()) return;
    ep.type(cur);
    ep.steps.back().group = group;
    cur.clear();
}
void Gen::typeChars(const std::string& s) {
    for (char c : s) m.feed(c);
    cur += s;
}

bool Gen::typeLine(const std::string& line, int noise, int tab, int escSeq) {
    if (line.size() + m.line.size() + 1 > ep.world.inSize) return false;
    bool doNoise = r.chance(noise), doTab = r.chance(tab), doEsc = r.chance(escSeq);
    if (doNoise && m.line.empty() && r.chance(30)) typeChars(std::string((size_t)r.range(1, 3), r.chance(50) ? '\x08' : '\x7f'));
    for (size_t i = 0; i < line.size(); i++) {
        if (doEsc && r.chance(12)) {
            std::string e = escape();
            size_t grows = e.size() > 4 || e.back() == '~' ? e.size() - 3 : 0;
            if (m.line.size() + grows + 1 < ep.world.inSize) typeChars(e);
        }
        if (doNoise && m.esc == 0 && r.chance(12)) {
            size_t room = ep.world.inSize - 1 - m.line.size();
            size_t n = std::min<size_t>(room, (size_t)r.range(1, 4));
            std::string junk;
            for (size_t j = 0; j < n; j++) junk += (char)r.range(33, 126);
            typeChars(junk);
            if (r.chance(15)) {                       // erase more and retype it
                size_t back = std::min<size_t>(m.line.size() - n, (size_t)r.range(0, 3));
                std::string again = m.line.substr(m.line.size() - n - back, back);
                typeChars(std::string(n + back, r.chance(50) ? '\x08' : '\x7f'));
                typeChars(again);
            } else typeChars(std::string(n, r.chance(50) ? '\x08' : '\x7f'));
        }
        if (doTab && r.chance(25)) {
            flushStep();
            // also in the middle of an escape sequence, which goes on after it
            int in = doEsc && r.chance(15) ? r.range(1, 2) : 0;
            if (in) typeChars(in == 1 ? "\x1b" : r.chance(50) ? "\x1b[" : "\x1bO");
            typeChars("\t");
            if (in) typeChars(in == 1 && r.chance(50) ? "[" : "");
            if (m.esc) typeChars(std::string(1, r.chance(80) ? (char)r.range('A', 'D') : (char)r.range('a', 'z')));
            flushStep();
        }
        if (m.line.size() + 1 >= ep.world.inSize) break;
        typeChars(std::string(1, line[i]));
    }
    if (doTab && r.chance(50)) { flushStep(); typeChars("\t"); if (r.chance(50)) typeChars("\t"); flushStep(); }
    return true;
}

void Gen::enter() {
    flushStep();
    if (m.line.size() + 1 >= ep.world.inSize + 1) return;
    // completion may have produced a double slash, which is out of the domain of the model
    bool dbl = false;
    for (auto& a : Model::parse(m.line)) dbl |= a.find("//") != std::string::npos;
    if (dbl) { typeChars("\x03"); flushStep(); return; }
    typeChars(r.chance(k.crlf) ? "\n" : "\r");
    flushStep();
}

void Gen::api(const Op& op) {
    Op o = op;
    if (o.kind == OP_ADD) {
        if (std::find(m.groups.begin(), m.groups.end(), o.n) != m.groups.end()) return;
        if (o.n < 0 && (BUILTIN.empty() || !FEAT.commands)) return;
    }
    if (o.kind == OP_REMOVE && o.n < 0) {
        if (k.dropBuiltin == 0 || !canDropBuiltin) return;
        if (std::find(m.groups.begin(), m.groups.end(), -1) == m.groups.end()) return;
    }
    if (o.text.find("//") != std::string::npos && (o.kind == OP_CD || o.kind == OP_FIND || o.kind == OP_ABS)) return;
    if (o.text.find('\0') != std::string::npos && o.kind > OP_RESET) return;
    if (o.kind <= OP_RESET && !m.line.empty() && !k.midApi) return;   // printing in the middle of a line starts a new prompt: allowed but kept apart
    flushStep();
    m.api(o);
    Step s;
    s.kind = ST_API;
    s.op = o;
    s.group = group;
    ep.steps.push_back(s);
}

void Gen::rootSwap() {
    if (m.tree.empty()) return;
    group++;
    auto rootless = [&] {
        Op o = treeOp();
        if (o.kind == OP_MOUNT && o.text == "/") return;
        if (o.kind == OP_CD) return;
        api(o);
    };
    std::vector<std::string> ps;
    for (auto& kv : m.tree) ps.push_back(kv.first);
    std::map<std::string, int> dirs;
    for (auto& kv : m.tree) dirs[kv.first] = kv.second.dir;
    if (r.chance(30) && ps.size() > 1) api({OP_UNMOUNT, "/", 0});          // refused: it has children
    for (size_t i = ps.size(); i-- > 0;) api({OP_UNMOUNT, ps[i], 0});       // children come after their parents in the order of names
    if (m.tree.count("/")) return;
    int n = r.range(0, 4);
    for (int i = 0; i < n; i++) {
        if (r.chance(60)) rootless();
        else api({r.chance(50) ? OP_NODE : r.chance(50) ? OP_PARENT : OP_UNMOUNT, r.chance(30) ? "/" : r.pick(ps), 0});
    }
    api({OP_MOUNT, "/", (int)r.below(ep.world.dirs.size())});
    for (auto& p : ps) if (p != "/" && r.chance(70)) api({OP_MOUNT, p, r.chance(70) ? dirs[p] : (int)r.below(ep.world.dirs.size())});
}

void Gen::action() {
    group++;
    struct W { int w; int kind; };
    const W ws[] = {{k.user, L_USER}, {k.unknown, L_UNKNOWN}, {FEAT.ls ? k.ls : 0, L_LS}, {FEAT.help ? k.help : 0, L_HELP},
                    {FEAT.cd ? k.cd : 0, L_CD}, {FEAT.pwd ? k.pwd : 0, L_PWD}, {FEAT.cat ? k.cat : 0, L_CAT},
                    {FEAT.xxd ? k.xxd : 0, L_XXD}, {FEAT.echo ? k.echo : 0, L_ECHO}, {k.empty, L_EMPTY}, {k.syntax, L_SYNTAX},
                    {k.ctrlc, 20}, {k.apiPrint, 21}, {k.apiTree, 22}, {k.apiPath, 23}, {k.reset, 24}, {k.overlong, 25}};
    int total = 0;
    for (auto& x : ws) total += x.w;
    int c = (int)r.below((uint64_t)total), kind = 0;
    for (auto& x : ws) { if (c < x.w) { kind = x.kind; break; } c -= x.w; }
    if (kind < 20) {
        for (int i = 0; i < 6; i++) {
            std::string l = lineFor(kind);
            if (typeLine(l, k.noise, k.tab, k.escSeq)) { enter(); return; }
        }
        std::string l = word(std::max(1, std::min(6, (int)ep.world.inSize - 2)));
        if (typeLine(l, 0, 0, 0)) enter();
        return;
    }
    switch (kind) {
    case 20: {
        std::string l = lineFor((int)r.below(9));
        typeLine(l, k.noise, 0, k.escSeq);
        if (r.chance(20)) typeChars("\x1b");
        typeChars("\x03");
        flushStep();
        break;
    }
    case 21:
        if (k.midApi && r.chance(k.midApi)) {         // the program prints while the user is typing: the line is lost
            typeLine(lineFor((int)r.below(9)), k.noise, k.tab, k.escSeq);
            if (r.chance(15)) typeChars(r.chance(50) ? "\x1b" : "\x1b[");
        }
        api(printOp(false));
        break;
    case 22:
    case 23: {
        auto go = [&] { api(kind == 22 ? treeOp() : pathOp()); };
        if (!r.chance(k.midTree)) { go(); break; }
        // the tree changes (or is looked at) while the user is typing: the line goes on
        std::string l = lineFor((int)r.below(9));
        size_t cut = r.below(l.size() + 1);
        if (l.size() + m.line.size() + 1 > ep.world.inSize) { go(); break; }
        typeChars(l.substr(0, cut));
        if (k.escSeq && r.chance(25)) {
            std::string e = r.chance(50) ? "\x1b[A" : "\x1bOC";
            size_t half = 1 + r.below(2);
            typeChars(e.substr(0, half));
            go();
            typeChars(e.substr(half));
        } else go();
        if (m.line.empty() && cut) { if (cut < l.size()) enter(); break; }      // the operation began a new line
        typeChars(l.substr(cut));
        if (r.chance(k.tab)) { flushStep(); typeChars("\t"); flushStep(); }
        enter();
        break;
    }
    case 24: {
        if (k.midApi && r.chance(k.midApi)) typeLine(lineFor((int)r.below(9)), k.noise, k.tab, k.escSeq);
        Op o; o.kind = OP_RESET; api(o);
        break;
    }
    case 25: {
        std::string l;
        size_t n = ep.world.inSize + r.below(ep.world.inSize + 4);
        for (size_t i = 0; i < n; i++) l += (char)r.range(33, 126);
        // what follows an over-long line is a line of its own: keep it free of double slashes
        std::replace(l.begin(), l.end(), '/', '|');
        typeChars(l);
        flushStep();
        enter();
        break;
    }
    }
}

void Gen::session() {
    int n = r.range(std::max(1, k.lines / 2), k.lines);
    for (int i = 0; i < n; i++) action();
    flushStep();
}

Episode Gen::finish() {
    flushStep();
    if (k.typeAhead) {
        std::vector<Step> v;
        for (auto& s : ep.steps) {
            if (!v.empty() && v.back().kind == ST_TYPE && s.kind == ST_TYPE && r.chance(k.typeAhead)) v.back().bytes += s.bytes;
            else v.push_back(s);
        }
        ep.steps = v;
    }
    return std::move(ep);
}
