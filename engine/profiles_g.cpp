// The same properties at sizes beyond the counters of 8 and 16 bits: hundreds and tens of thousands of
// characters, arguments, files, groups, directories and levels.
#include "common.hpp"

namespace {
enum Kind { ARGS, LISTS, GROUPS, CHILDREN, DEEP, PRINT, DATA, NAMES, KINDS };

size_t aroundEdge(Rng& r, bool huge) {
    static const size_t small[] = {256, 256, 256, 128, 512, 1024, 4096}, large[] = {65536, 65536, 65536, 32768, 131072};
    size_t n = huge ? large[r.below(5)] : small[r.below(7)];
    int w = (int)r.below(100);
    return w < 50 ? n : w < 88 ? n + r.below(5) - 2 : n + r.below(n / 4);
}
std::string id(size_t i, const char* pre) {
    static const char d[] = "0123456789bcdfghjklmnprstvwxyz";
    std::string s;
    do { s += d[i % 30]; i /= 30; } while (i);
    return pre + std::string(s.rbegin(), s.rend());
}
std::set<size_t> special(Rng& r, size_t n) {
    std::set<size_t> s;
    for (size_t b : {(size_t)0, (size_t)128, (size_t)256, (size_t)32768, (size_t)65536, n})
        for (size_t i = b < 3 ? 0 : b - 2; i <= b + 2; i++) if (i < n && r.chance(b == n || b == 0 ? 80 : 50)) s.insert(i);
    for (int i = 0; i < 3; i++) s.insert(r.below(n));
    return s;
}
FileSpec plain(const std::string& n) { FileSpec f; f.name = n; f.exec = true; return f; }
FileSpec full(Rng& r, const std::string& n) {
    FileSpec f = plain(n);
    f.prog.push_back({OP_PRINT, "run " + n, 0});
    f.hasDesc = f.hasHelp = true;
    f.desc = "about " + n; f.help = "use " + n + "\r\n";
    f.get = GET_STATIC; f.content = "content of " + n;
    f.set = r.chance(50) ? SET_STORE : SET_DROP;
    return f;
}
// a list of n files; exactly m of them begin with 'p', spread over the whole list
ListSpec bulk(Rng& r, size_t n, size_t m, const std::set<size_t>& sp, const char* tag, bool global) {
    ListSpec l;
    l.files.reserve(n);
    size_t left = m;
    for (size_t i = 0; i < n; i++) {
        bool p = r.below(n - i) < left;
        if (p) left--;
        std::string nm = id(i, p ? "p" : "q") + tag;
        if (sp.count(i)) l.files.push_back(full(r, nm));
        else { FileSpec f = plain(nm); if (!global) f.exec = i % 3; if (i % 7 == 0) { f.hasDesc = true; f.desc = "d"; } l.files.push_back(f); }
    }
    return l;
}

struct Big {
    Rng r;
    Gen g;
    bool huge;
    int lines = 0;
    Big(uint64_t seed, bool h, const Knobs& k) : r(seed ^ 0xb16), g(seed, k), huge(h) {}
    World& w() { return g.ep.world; }
    bool line(const std::string& l, bool enter = true) {
        if (l.size() + g.m.line.size() + 1 > w().inSize) return false;
        g.group++;
        g.typeChars(l);
        if (enter) g.enter();
        lines++;
        return true;
    }
    void keys(const std::string& s) { g.typeChars(s); g.flushStep(); }
    void drop() { g.typeChars("\x03"); g.flushStep(); }
    void api(int kind, const std::string& t, int n = 0) { g.group++; g.api({kind, t, n}); }
    void basics(size_t in, size_t out, size_t path) {
        w().inSize = in; w().outSize = out; w().pathMax = path;
        w().host = "h";
        ListSpec root;
        root.files.push_back(full(r, "rootfile"));
        FileSpec c = plain("c");
        c.prog.push_back({OP_PRINT_ARG, "", 1});
        ListSpec cmds;
        cmds.files.push_back(c);
        cmds.files.push_back(full(r, "global"));
        FileSpec e = plain("e");
        cmds.files.push_back(e);
        w().dirs.push_back(root);
        w().groups.push_back(cmds);
        g.ep.mount("/", 0);
        g.ep.add(0);
        w().general = r.chance(50);
    }

    void args() {
        size_t n = aroundEdge(r, huge);
        bool tight = r.chance(40);
        size_t in = tight ? n : 2 * n + 200;
        basics(in, (size_t)(r.chance(50) ? r.range(24, 200) : r.chance(50) ? (int)n : (int)(n + n / 2)), 64);
        w().outSize = std::max<size_t>(w().outSize, 24);
        g.begin();
        auto ch = [&] { return (char)r.range('a', 'z'); };
        auto fill = [&](size_t k) { std::string s(k, 'x'); for (auto& q : s) q = ch(); return s; };
        int m = huge ? 5 : 8;
        for (int i = 0; i < m; i++) {
            size_t room = in - 1;
            switch (r.below(10)) {
            case 0: {                                        // n arguments
                std::string l = r.chance(70) ? "e" : "c";
                size_t k = std::min(n - 1, (room - 1) / 2);
                for (size_t j = 0; j < k; j++) { l += ' '; l += ch(); }
                line(l);
                break;
            }
            case 1: line("c " + fill(std::min(n, room - 2))); break;
            case 2: line(std::string(std::min(n, room - 3), ' ') + "e a"); break;
            case 3: line("c a" + std::string(std::min(n, room - 5), ' ') + "b"); break;
            case 4: {                                        // escapes
                std::string l = "c \"";
                while (l.size() + 3 < room && l.size() < 2 * n) l += r.chance(50) ? "\\\"" : "\\\\";
                line(l + "\"");
                break;
            }
            case 5: {                                        // corrections
                std::string t = fill(std::min(n, room));
                line(t, false);
                size_t keep = r.chance(50) ? 0 : r.below(std::min<size_t>(t.size(), 5));
                keys(std::string(t.size() - keep + (keep ? 0 : r.below(3)), r.chance(50) ? '\x08' : '\x7f'));
                line("e a b");
                break;
            }
            case 6: {                                        // the whole buffer
                std::string l = r.chance(50) ? "c " : "e ";
                line(l + fill(room - l.size()));
                break;
            }
            case 7: if (huge && r.chance(60)) break; keys(fill(in + r.below(20))); g.enter(); break;
            case 8: {
                line("e " + fill(room - 8 > n ? n - 2 : room - 10) + " glo", false);
                g.flushStep(); keys("\t"); g.enter();
                break;
            }
            default: {
                line(fill(std::min(n, room)), false);
                if (r.chance(50)) drop(); else g.enter();
            }
            }
        }
        if (r.chance(50)) line("echo \"" + fill(std::min(n, in - 30)) + "\" > rootfile");
        line("e a");
    }

    void lists() {
        size_t n = aroundEdge(r, huge), m = aroundEdge(r, huge && r.chance(50));
        if (r.chance(20)) m = r.below(4);
        m = std::min(m, n);
        basics((size_t)r.range(40, 100), (size_t)r.range(40, 120), 64);
        auto spd = special(r, n), spg = special(r, n);
        bool dir = r.chance(60), grp = !dir || r.chance(20);
        w().dirs.push_back(dir ? bulk(r, n, m, spd, "", false) : ListSpec());
        g.ep.mount("/d", 1);
        g.ep.mount("/d/psub", 0);
        if (grp) { w().groups.push_back(bulk(r, n, m, spg, "g", true)); g.ep.add(1); }
        g.begin();
        if (r.chance(80)) line("cd /d");
        std::vector<std::string> names, globals;
        if (dir) for (size_t i : spd) names.push_back(w().dirs[1].files[i].name);
        if (grp) for (size_t i : spg) globals.push_back(w().groups[1].files[i].name);
        if (r.chance(70)) line(r.chance(50) ? "ls" : "ls /d");
        if (grp && r.chance(70)) line("help");
        for (auto& x : names) {
            int q = (int)r.below(6);
            line((q == 0 ? "" : q == 1 ? "cat " : q == 2 ? "xxd " : q == 3 ? "help " : q == 4 ? "/d/" : "echo new > /d/") + x);
        }
        for (auto& x : globals) { int q = (int)r.below(4); line((q == 0 ? "" : q == 1 ? "cat " : q == 2 ? "help " : "") + x); }
        if (dir) { api(OP_FIND, "/d/" + names.back()); api(OP_FIND, "/d/" + names[0]); }
        if (grp) api(OP_FIND, globals.back());
        // completion: of everything with 'p', of single names
        line("p", false); g.flushStep(); keys("\t"); if (r.chance(30)) keys("\t"); drop();
        if (r.chance(30)) { keys("\t"); drop(); }
        for (auto* v : {&names, &globals}) if (!v->empty()) {
            const std::string& x = r.pick(*v);
            line("cat " + x.substr(0, x.size() - r.below(2)), false); g.flushStep(); keys("\t"); g.enter();
        }
        line("unknown");
        if (grp && r.chance(50)) { api(OP_REMOVE, "", 1); line(globals[0]); api(OP_ADD, "", 1); line(globals[0]); }
        if (r.chance(50)) { api(OP_UNMOUNT, "/d/psub"); line("p", false); g.flushStep(); keys("\t"); drop(); }
    }

    void groupsMany() {
        size_t n = std::min<size_t>(aroundEdge(r, false), r.chance(10) ? 4100 : 1040);
        basics((size_t)r.range(40, 100), (size_t)r.range(40, 120), 64);
        auto sp = special(r, n);
        for (size_t i = 1; i < n; i++) {
            ListSpec l;
            std::string nm = id(i, r.chance(50) ? "p" : "q");
            l.files.push_back(sp.count(i) ? full(r, nm) : plain(nm));
            if (r.chance(3)) l.files.push_back(full(r, "global"));       // shadows the older ones
            w().groups.push_back(l);
            g.ep.add((int)i);
        }
        g.begin();
        if (r.chance(80)) line("help");
        for (size_t i : sp) if (i) { int q = (int)r.below(4); line((q == 0 ? "help " : q == 1 ? "cat " : "") + w().groups[i].files[0].name); }
        line("global");
        line("p", false); g.flushStep(); keys("\t"); drop();
        for (int k = 0; k < 6; k++) {
            auto it = sp.begin();
            std::advance(it, r.below(sp.size()));
            api(r.chance(50) ? OP_REMOVE : OP_ADD, "", (int)*it);
            if (*it) line(w().groups[*it].files[0].name);
            line("global");
        }
        if (r.chance(50)) line("help");
    }

    void children() {
        size_t n = std::min<size_t>(aroundEdge(r, false), r.chance(10) ? 4100 : 1040);
        basics((size_t)r.range(60, 100), (size_t)r.range(40, 120), 64);
        std::string par = r.chance(50) ? "" : "/d";
        if (!par.empty()) g.ep.mount("/d", 0);
        std::vector<std::string> ps;
        for (size_t i = 0; i < n; i++) { ps.push_back(par + "/" + id(i, r.chance(50) ? "p" : "q")); g.ep.mount(ps.back(), 0); }
        auto sp = special(r, n);
        for (size_t i : sp) if (r.chance(30)) { g.ep.mount(ps[i] + "/sub", 0); }
        g.begin();
        line("cd " + (par.empty() ? "/" : par));
        line("ls");
        for (size_t i : sp) {
            switch (r.below(6)) {
            case 0: line("cd " + ps[i]); line("pwd"); line("cd .."); break;
            case 1: line("ls " + ps[i]); break;
            case 2: api(OP_UNMOUNT, ps[i]); break;
            case 3: api(OP_MOUNT, ps[i], 0); break;
            case 4: api(OP_NODE, ps[i]); api(OP_PARENT, ps[i]); break;
            default: api(OP_CD, ps[i]); api(OP_FIND, "rootfile"); line("cd " + (par.empty() ? "/" : par));
            }
        }
        line("ls");
        line("cd p", false); g.flushStep(); keys("\t"); drop();
        line("cd " + id(*sp.rbegin(), "p"), false); g.flushStep(); keys("\t"); g.enter();
        // unmount many, mount them again
        if (r.chance(50)) {
            for (size_t i = 0; i < n; i++) if (r.chance(60)) api(OP_UNMOUNT, ps[i]);
            line("ls");
            for (size_t i = 0; i < n; i++) if (r.chance(40)) api(OP_MOUNT, ps[i], 0);
            line("ls");
        }
    }

    void deep() {
        std::vector<std::string> ps;
        std::string p;
        if (r.chance(50) && !huge) {                  // many levels
            size_t n = 240 + r.below(40);
            for (size_t i = 0; i < n; i++) { p += "/" + std::string(1, (char)('a' + r.below(2))); ps.push_back(p); }
        } else {                                      // long names
            size_t total = aroundEdge(r, huge);
            if (!huge && total > 1100) total = 256 + r.below(8);
            size_t parts = 1 + r.below(5);
            for (size_t i = 0; i < parts; i++) {
                size_t left = total - p.size(), len = i + 1 == parts ? left - 1 : std::min(left - 1, 1 + r.below(left / (parts - i) + 1));
                if (left < 3) break;
                p += "/" + std::string(len, (char)('a' + i));
                ps.push_back(p);
            }
        }
        size_t path = p.size() + 1 + (r.chance(40) ? 0 : r.below(200));
        basics(p.size() + 300 + r.below(500), (size_t)(r.chance(50) ? r.range(24, 200) : (int)p.size() + r.range(-5, 200)), path);
        for (auto& x : ps) g.ep.mount(x, 0);
        if (r.chance(30) && p.size() + 8 <= path) g.ep.mount(p + "/more/x", 0);
        g.begin();
        int m = huge ? 8 : 16;
        auto some = [&] { return r.chance(50) ? p : r.pick(ps); };
        for (int i = 0; i < m; i++) {
            switch (r.below(12)) {
            case 0: line("cd " + some()); break;
            case 1: line("cd .."); break;
            case 2: line("pwd"); break;
            case 3: line("ls"); break;
            case 4: { std::string t; for (size_t k = r.below(300); k-- > 0;) t += "../"; t += r.chance(50) ? "." : ".."; if (t.size() + 10 < w().inSize) line("cd " + t); break; }
            case 5: api(OP_CD, some()); break;
            case 6: api(OP_FIND, some() + (r.chance(80) ? "/rootfile" : "")); break;
            case 7: api(OP_ABS, r.chance(50) ? "rootfile" : some()); break;
            case 8: api(OP_NODE, some()); break;
            case 9: { std::string t = some(); api(OP_PARENT, t); break; }
            case 10: line("rootfile"); break;
            default: line("cat " + some() + "/rootfile"); break;
            }
        }
        api(OP_CD, p);
        line("pwd");
        line("cd ..");
        api(OP_CD, p + "/z");
        api(OP_UNMOUNT, p);
        line("pwd");
        api(OP_MOUNT, p, 0);
    }

    void print() {
        size_t n = aroundEdge(r, huge);
        static const int d[] = {-2, -1, 0, 1, 2};
        basics(64, (size_t)(r.chance(70) ? (long)n + d[r.below(5)] : r.range(24, 200)), 64);
        auto text = [&](size_t k) { std::string s(k, 'x'); for (auto& q : s) q = (char)r.range('a', 'z'); return s; };
        auto len = [&] { return r.chance(50) ? (size_t)((long)n + d[r.below(5)]) : r.chance(50) ? r.below(20) : r.below(n + 10); };
        for (int i = 0; i < 5; i++) {
            FileSpec f = plain("f" + std::to_string(i));
            int k = r.range(1, 5);
            for (int j = 0; j < k; j++) {
                static const int kinds[] = {OP_PRINT, OP_PRINT_NN, OP_PRINTF, OP_PRINTF, OP_PRINTF, OP_FLUSH, OP_STATUS};
                Op o;
                o.kind = kinds[r.below(7)];
                if (o.kind == OP_STATUS) o.n = (int)r.below(13);
                else o.text = text(len());
                if (o.kind == OP_PRINTF) o.n = (int)r.below(9);
                if (o.kind == OP_FLUSH) o.text = o.text.substr(0, w().outSize - 1);
                f.prog.push_back(o);
            }
            w().groups[0].files.push_back(f);
        }
        g.begin();
        for (int i = 0; i < 5; i++) line("f" + std::to_string(r.below(5)));
        for (int i = 0; i < 3; i++) {
            g.group++;
            Op o{r.chance(50) ? OP_PRINT : r.chance(50) ? OP_PRINTF : OP_PRINT_NN, text(len()), (int)r.below(9)};
            g.api(o);
        }
        line("f0");
    }

    void data() {
        size_t n = aroundEdge(r, huge);
        basics(r.chance(50) ? n * 2 + 200 : 300, (size_t)(r.chance(60) ? r.range(40, 200) : (int)n + 5), 64);
        auto blob = [&](size_t k) {
            std::string s(k, 0);
            size_t period = r.chance(50) ? 0 : r.range(1, 300);
            for (size_t i = 0; i < k; i++) s[i] = !period || i < period || r.below(500) == 0 ? (char)r.next() : s[i - period];
            return s;
        };
        for (int i = 0; i < 4; i++) {
            FileSpec f = full(r, "b" + std::to_string(i));
            f.content = blob((size_t)((long)n + r.range(-2, 2)));
            f.set = SET_STORE;
            w().dirs[0].files.push_back(f);
        }
        g.begin();
        int m = huge ? 4 : 8;
        for (int i = 0; i < m; i++) {
            std::string f = "b" + std::to_string(r.below(4));
            switch (r.below(6)) {
            case 0: line("cat " + f); break;
            case 1: line("xxd " + f); break;
            case 2: {
                size_t k = std::min(n, w().inSize - 40);
                std::string s(k, 'z');
                for (auto& q : s) q = (char)r.range('a', 'z');
                line("echo " + s + " > " + f);
                break;
            }
            case 3: {
                std::string s;
                while (s.size() + 44 < w().inSize) s += r.chance(50) ? "\\x4" + std::string(1, (char)('1' + r.below(9))) : "q";
                line("echo \"" + s + "\"" + (r.chance(50) ? " > " + f : ""));
                break;
            }
            case 4: {                                   // hundreds of files
                std::string l = "cat";
                size_t k = std::min<size_t>(r.range(250, 270), (w().inSize - 4) / 9);
                for (size_t j = 0; j < k; j++) l += " rootfile";
                line(l);
                break;
            }
            default: line("cat " + f + " " + f);
            }
        }
        line("cat b0");
        line("echo done > b0");
        line("cat b0");
    }

    // names which are long, and alike for long
    void namesLong() {
        size_t n = aroundEdge(r, huge && r.chance(30)), same = r.chance(60) ? n : r.below(n) + 1;
        if (n > 5000 && !huge) n = same = 256;
        std::string base(same, 'x');
        for (auto& q : base) q = (char)r.range('a', 'z');
        base[0] = 'z';
        size_t in = r.chance(40) ? n + (size_t)r.range(-4, 12) : 2 * n + 60;
        basics(in, (size_t)(r.chance(60) ? r.range(24, 200) : (int)n + r.range(-3, 40)), r.chance(50) ? n * 2 + 80 : 64);
        std::vector<std::string> names;
        bool giant = n > 5000, once = giant && r.chance(25);      // completion is quadratic in the length of the name
        int m = giant ? 1 : r.range(1, 4);
        bool longPath = w().pathMax > 64;
        for (int i = 0; i < m; i++) {
            std::string x = base;
            size_t more = r.chance(30) ? 0 : n > same ? n - same + r.below(3) : r.below(6);
            for (size_t j = 0; j < more; j++) x += (char)(j ? r.range('a', 'z') : 'a' + i);
            if (r.chance(8)) x = x.substr(0, r.below(x.size()) + 1);
            FileSpec f = r.chance(50) ? full(r, x) : plain(x);
            int where = (int)r.below(longPath ? 3 : 2);
            if (where == 0) w().groups[0].files.push_back(f);
            else if (where == 1) w().dirs[0].files.push_back(f);
            else g.ep.mount("/" + x, 0);
            names.push_back(x);
        }
        g.begin();
        int k = huge && n > 5000 ? 3 : 8;
        for (int i = 0; i < k; i++) {
            const std::string& x = r.pick(names);
            static const char* cmd[] = {"", "cat ", "help ", "cd ", "ls ", "xxd "};
            std::string c = r.chance(40) ? "" : cmd[r.below(6)];
            switch (r.below(4)) {
            case 0: line(c + x); break;
            case 1: line(r.chance(50) ? "ls" : "help"); break;
            default: {
                size_t cut = !giant && r.chance(50) ? (size_t)r.range(1, 3) : giant || r.chance(50) ? x.size() - r.below(std::min<size_t>(x.size(), 4)) : r.below(x.size()) + 1;
                if (once) { cut = 2; once = false; }
                if (!line(c + x.substr(0, cut), false)) break;
                g.flushStep();
                keys("\t");
                if (r.chance(40)) keys(r.chance(50) ? "\t" : std::string(1, (char)('a' + r.below(4))) + "\t");
                if (r.chance(50)) g.enter(); else drop();
            }
            }
        }
        line("e a");
    }

    Episode make(int kind) {
        switch (kind) {
        case NAMES: namesLong(); break;
        case ARGS: args(); break;
        case LISTS: lists(); break;
        case GROUPS: groupsMany(); break;
        case CHILDREN: children(); break;
        case DEEP: deep(); break;
        case PRINT: print(); break;
        default: data(); break;
        }
        g.flushStep();
        return g.finish();
    }
};

Episode bigEpisode(Ctx& c, uint64_t idx, uint64_t seed, std::initializer_list<int> kinds) {
    Knobs k;
    k.dropBuiltin = 0;
    bool huge = idx % 4 == 3;
    int kind = *(kinds.begin() + (idx / 4) % kinds.size());
    Big b(seed, huge, k);
    Episode ep = b.make(kind);
    static const char* names[] = {"args", "lists", "groups", "children", "deep", "print", "data", "names"};
    c.st.add(std::string("scale.") + names[kind] + (huge ? ".huge" : ""));
    size_t most = 0;
    for (auto* v : {&ep.world.dirs, &ep.world.groups}) { for (auto& l : *v) most = std::max(most, l.files.size()); }
    c.st.maxOf("scale.files", most);
    c.st.maxOf("scale.groups", ep.world.groups.size());
    c.st.maxOf("scale.mounts", ep.setup.size());
    c.st.maxOf("scale.input", ep.world.inSize);
    c.st.maxOf("scale.output", ep.world.outSize);
    c.st.maxOf("scale.path", ep.world.pathMax);
    return ep;
}
}

#define SCALE(pid, own, kinds, ...) PROFILE(pid##scale) { Episode ep = bigEpisode(c, idx, seed, __VA_ARGS__); runJudge(c, ep, seed, anySched(seed, idx % 4 == 3 ? 0 : 10), own, kinds); }
static const std::set<std::string> NONE_, ARGV_{"argv"}, CONST_{"const-data"}, MOUNT_{"mount", "deinit"};
SCALE(P04, D_USER | D_UNKNOWN | D_EMPTY, ARGV_, {ARGS})
SCALE(P05, D_USER | D_UNKNOWN | D_EMPTY | D_CTRLC, ARGV_, {LISTS, GROUPS, ARGS, NAMES, LISTS})
SCALE(P06, D_CD | D_PWD | D_API_PATH, NONE_, {DEEP, CHILDREN, DEEP})
SCALE(P07, D_LS, NONE_, {LISTS, CHILDREN, NAMES})
SCALE(P08, D_HELP, NONE_, {LISTS, GROUPS, NAMES})
SCALE(P09, D_CAT, CONST_, {DATA})
SCALE(P10, D_XXD, CONST_, {DATA})
SCALE(P11, D_ECHO, NONE_, {DATA, ARGS})
SCALE(P12, D_EDIT | D_CTRLC | D_EMPTY, NONE_, {ARGS})
SCALE(P13, D_TAB, NONE_, {LISTS, NAMES, CHILDREN, LISTS, GROUPS, NAMES, ARGS})
SCALE(P15, D_API_TREE, MOUNT_, {CHILDREN, GROUPS, DEEP})
SCALE(P16, D_API_PRINT | D_USER | D_API_RESET, NONE_, {PRINT})
SCALE(P21, D_ERROR, NONE_, {LISTS, DEEP, ARGS, CHILDREN, NAMES})

// any of them: memory, progress, independence of readiness
PROFILE(P01scale) {
    Episode ep = bigEpisode(c, idx, seed, {ARGS, LISTS, GROUPS, CHILDREN, DEEP, PRINT, DATA, NAMES});
    setCurrentText(describe(ep));
    Lock l(ep, seed, anySched(seed, 10), &c.st, D_ALL);
    l.all();
    for (auto& v : l.r.viols) if (v.kind == "const-data" || v.kind == "argv" || v.kind == "progress" || v.kind == "isolation") c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
}
PROFILE(P02scale) {
    Episode ep = bigEpisode(c, idx, seed, {ARGS, LISTS, GROUPS, CHILDREN, DEEP, PRINT, DATA, NAMES});
    setCurrentText(describe(ep));
    RealShell s(&ep.world, seed);
    s.init();
    for (auto& st : ep.setup) s.op(st.op);
    s.outLimit = 500000000;
    s.run();
    for (auto& st : ep.steps) {
        if (s.dead) break;
        s.step(st);
        c.st.evals++;
        c.st.distinct.insert(hashStr(st.bytes, hashStr(describe(st.op))));
        size_t o = s.out.size(), e = s.ev.size();
        for (int i = 0; i < 5; i++) {
            bool busy = s.service();
            if (busy || s.out.size() != o || s.ev.size() != e) { c.report("idle shell is active without any input\n" + describe(ep)); return; }
        }
    }
    c.st.add("services", s.services);
    c.st.add("bytes.out", s.out.size());
    c.st.maxOf("calls_without_progress", s.maxSinceProgress);
    for (auto& v : s.viols) if (v.kind == "progress" || v.kind == "io-discipline" || v.kind == "return-value" || v.kind == "retry") c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
}
PROFILE(P03scale) {
    Rng r(seed);
    Episode ep = bigEpisode(c, idx, seed, {ARGS, LISTS, GROUPS, CHILDREN, DEEP, PRINT, DATA, NAMES});
    setCurrentText(describe(ep));
    RunResult ref = runReal(ep, seed, Sched::smooth(), 0, &r);
    int mode = r.range(1, 4);
    RunResult x = runReal(ep, seed, Sched::make(seed * 31, mode), r.chance(30) ? 1 : 0, &r);
    c.st.evals++;
    c.st.add("refused.writes", x.refusedW);
    c.st.add("refused.reads", x.refusedR);
    c.st.distinct.insert(hashStr(ref.out, seed ^ (uint64_t)(x.services * 977)));
    std::string d = diffText(ref, x, "always ready", "stalled");
    if (!d.empty()) c.report("schedule mode " + std::to_string(mode) + "\n" + d + describe(ep));
    for (auto& v : x.viols) if (v.kind == "retry" || v.kind == "progress") c.report("kind: " + v.kind + "\n" + v.text + "\n" + describe(ep));
}
// no size is special: the session is repeated with the buffers a little larger
PROFILE(P23scale) {
    Episode ep = bigEpisode(c, idx, seed, {ARGS, PRINT, DATA, NAMES, ARGS, DEEP});
    setCurrentText(describe(ep));
    Lock l(ep, seed, Sched::smooth(), &c.st, D_ALL);
    c.st.distinct.insert(ep.world.inSize * 1000003 + ep.world.outSize);
    if (l.all()) return;
    if (l.bad.kind != "output" && l.bad.kind != "event" && l.bad.kind != "order") {
        if (l.bad.kind == "progress" || l.bad.kind == "const-data" || l.bad.kind == "argv") c.report(l.bad.kind + ": " + l.bad.text + "\n" + describe(ep));
        return;
    }
    c.report(l.bad.text + "\n" + describe(ep));
}
// a life of any size leaves nothing behind
PROFILE(P20scale) {
    Rng r(seed);
    Episode ep = bigEpisode(c, idx, seed, {ARGS, LISTS, GROUPS, CHILDREN, DEEP, PRINT, DATA, NAMES});
    for (auto* ls : {&ep.world.dirs, &ep.world.groups}) for (auto& l : *ls) for (auto& f : l.files) if (f.set == SET_STORE) f.set = SET_DROP;
    setCurrentText(describe(ep));
    auto life = [&](RealShell& s, uint64_t cut) {
        size_t o = s.out.size(), e = s.ev.size();
        s.outLimit = s.out.size() + 500000000;
        s.init();
        for (auto& st : ep.setup) s.op(st.op);
        s.run(cut);
        uint64_t before = s.services;
        for (auto& st : ep.steps) {
            if (s.dead || s.services - before >= cut) break;
            if (cut == UINT64_MAX) { s.step(st); continue; }
            if (st.kind == ST_API) { if (!s.run(cut - (s.services - before))) break; s.op(st.op); continue; }
            s.feedBytes(st.bytes);
            if (!s.run(cut - (s.services - before))) break;
        }
        RunResult x;
        x.out = s.out.substr(o);
        x.ev.assign(s.ev.begin() + (long)e, s.ev.end());
        for (auto& y : x.ev) y.outPos -= o;
        return x;
    };
    RealShell a(&ep.world, seed), b(&ep.world, seed + 5);
    a.poolNodes = b.poolNodes = false;
    RunResult ref = life(b, UINT64_MAX);
    uint64_t cut = r.chance(25) ? UINT64_MAX : r.below(b.services + 10);
    life(a, cut);
    a.input.clear(); a.inPos = 0;
    a.checkDeinit = true;
    a.deinit();
    c.st.add("deinit.nodes", a.deinitNodes);
    if (r.chance(50)) memset(a.obj, 0, vf_sizeof_object());
    RunResult got = life(a, UINT64_MAX);
    c.st.evals++;
    c.st.distinct.insert(hashStr(got.out, cut));
    c.st.add("bytes.out", got.out.size());
    std::string d = diffText(ref, got, "fresh shell", "init after deinit");
    if (!d.empty()) c.report("init after deinit (first life cut after " + std::to_string(cut) + " service calls)\n" + d + describe(ep));
    for (auto& v : a.viols) if (v.kind == "deinit" || v.kind == "progress" || v.kind == "const-data") c.report(v.kind + ": " + v.text + "\n" + describe(ep));
}
