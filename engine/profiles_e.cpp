// P18: resources the library may use; P25: contracts of the public helpers.
#include "common.hpp"
#include <cstdarg>

// ---- P18: no allocations, no own writable memory, bounded stack -----------------------------------
// The library is linked with its writable static data gathered in sections vfdata and vfbss, and with every
// allocation function wrapped.
#ifdef VF_P18
extern "C" {
extern char __start_vfdata[] __attribute__((weak));
extern char __stop_vfdata[] __attribute__((weak));
extern char __start_vfbss[] __attribute__((weak));
extern char __stop_vfbss[] __attribute__((weak));
}
static thread_local const char* allocSeen = nullptr;
static uint64_t wrapped = 0;
static inline void seen(const char* what) {
    wrapped++;
    if (gCurrent && gCurrent->inLibrary && !allocSeen) allocSeen = what;
}
#define WRAP(ret, name, params, args) \
    extern "C" ret __real_##name params; \
    extern "C" ret __wrap_##name params { seen(#name); return __real_##name args; }
// The allocator itself is replaced, so that allocations inside of the C library count as well (strdup, asprintf, qsort,
// open_memstream, getline, realpath ...), except for those which its printf makes for itself while formatting.
static thread_local int inFormat = 0;
#define INTERPOSE(ret, name, params, args) \
    extern "C" ret __libc_##name params; \
    extern "C" ret name params { if (!inFormat) seen(#name); return __libc_##name args; }
INTERPOSE(void*, malloc, (size_t n), (n))
INTERPOSE(void*, calloc, (size_t n, size_t m), (n, m))
INTERPOSE(void*, realloc, (void* p, size_t n), (p, n))
INTERPOSE(void, free, (void* p), (p))
INTERPOSE(void*, memalign, (size_t n, size_t m), (n, m))
extern "C" void* aligned_alloc(size_t n, size_t m) { return memalign(n, m); }
extern "C" int posix_memalign(void** p, size_t n, size_t m) { *p = memalign(n, m); return *p ? 0 : 12; }
extern "C" int __real_vsnprintf(char* b, size_t n, const char* f, va_list a);
extern "C" int __real_vasprintf(char** p, const char* f, va_list a);
extern "C" int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list a) { inFormat++; int r = __real_vsnprintf(b, n, f, a); inFormat--; return r; }
extern "C" int __wrap_snprintf(char* b, size_t n, const char* f, ...) {
    va_list a;
    va_start(a, f);
    inFormat++;
    int r = __real_vsnprintf(b, n, f, a);
    inFormat--;
    va_end(a);
    return r;
}
extern "C" int __wrap_vasprintf(char** p, const char* f, va_list a) { seen("vasprintf"); return __real_vasprintf(p, f, a); }
WRAP(void*, mmap, (void* a, size_t n, int p, int f, int d, long o), (a, n, p, f, d, o))
WRAP(void*, sbrk, (long n), (n))
extern "C" int __wrap_asprintf(char** p, const char* f, ...) {
    seen("asprintf");
    va_list a;
    va_start(a, f);
    int r = vasprintf(p, f, a);
    va_end(a);
    return r;
}

static const size_t PAINT = 512 * 1024;
__attribute__((noinline)) static void paint() {
    volatile uint64_t area[PAINT / 8];
    for (size_t i = 0; i < PAINT / 8; i++) area[i] = 0x9e3779b97f4a7c15ull;
    asm volatile("" :: "r"(area) : "memory");
}
__attribute__((noinline)) static size_t used() {
    volatile uint64_t area[PAINT / 8];
    asm volatile("" :: "r"(area) : "memory");
    size_t i = 64;   // the lowest words belong to this function
    while (i < PAINT / 8 && area[i] == 0x9e3779b97f4a7c15ull) i++;
    return PAINT - i * 8;
}

PROFILE(P18) {
    Rng r(seed);
    Knobs k;
    k.lines = 10; k.overlong = 1; k.tab = 30; k.noise = 15; k.reset = 1; k.treeProg = 15; k.longText = 20; k.apiTree = 4; k.prog = 80; k.dropBuiltin = 8;
    if (idx % 4 == 1) { k.files = 200; k.groupFiles = 200; k.nodes = 60; k.lines = 5; k.tab = 60; k.shareDirs = 60; }
    if (idx % 4 == 2) { k.inMin = 2000; k.inMax = 9000; k.outMin = 1000; k.outMax = 9000; k.content = 5000; k.lines = 5; }
    if (idx % 4 == 0) k.nameLen = r.chance(50) ? 12 : r.range(20, 200);     // also names longer than any usual buffer
    if (k.nameLen > 20) { k.inMin = 300; k.inMax = 900; k.cd = 14; k.pwd = 8; }
    Gen g(seed, k);
    g.world();
    if (idx % 4 == 3) {
        // a very deep tree
        g.ep.world.pathMax = 1200;
        std::string p = g.ep.setup.empty() ? "" : "/deep";
        for (int i = 0; i < 250; i++) { g.ep.mount(p, 0); g.mountable.push_back(p); p += i % 2 ? "/d" : "/e"; }
    }
    bool crowd = idx % 400 == 150;
    if (crowd && !g.ep.setup.empty()) {
        // crowds of files, commands and directories
        World& w = g.ep.world;
        auto fill = [&](ListSpec& l, size_t n, const char* pre) {
            l.alias = -1;
            for (size_t i = 0; i < n; i++) {
                FileSpec f;
                f.name = pre + std::to_string(i);
                f.exec = i % 3 == 0;
                if (i % 5 == 0) { f.get = GET_STATIC; f.content = "c"; }
                l.files.push_back(f);
            }
        };
        if (w.groups.empty()) { w.groups.push_back({}); g.ep.add(0); }
        fill(w.dirs[(size_t)g.ep.setup[0].op.n], 20000, "f");
        fill(w.groups[0], 20000, "g");
        for (int i = 0; i < 3000; i++) g.ep.mount("/m" + std::to_string(i), 0);
        if (w.inSize < 40) w.inSize = 40;
    }
    g.begin(); g.session();
    if (crowd)
        for (const char* l : {"f1", "g1", "m1", "", "ls", "help", "cat f5 f15", "nothing", "cd m77", "ls ..", "g3 a"}) {
            g.group++;
            g.drop();
            if (g.typeLine(l, 0, 0, 0)) { if (strlen(l) < 3 && strcmp(l, "ls")) { g.flushStep(); g.typeChars("\t"); g.flushStep(); } else g.enter(); }
        }
    if (g.ep.world.inSize > 1000) {
        // hundreds of arguments
        g.group++;
        std::string l = g.quote(g.someFile(1));
        while (l.size() + 40 < g.ep.world.inSize) l += " a";
        if (g.typeLine(l, 0, 0, 0)) g.enter();
    }
    Episode ep = g.finish();
    setCurrentText(describe(ep));
    size_t dn = __start_vfdata ? (size_t)(__stop_vfdata - __start_vfdata) : 0, bn = __start_vfbss ? (size_t)(__stop_vfbss - __start_vfbss) : 0;
    std::string d0(__start_vfdata ? __start_vfdata : "", dn), b0(__start_vfbss ? __start_vfbss : "", bn);
    size_t deepest = 0;
    {
        RealShell s(&ep.world, seed);
        s.sched = anySched(seed, 20);
        s.outLimit = 500000000;
        s.roTexts = true;
        allocSeen = nullptr;
        const char* touched = nullptr;
        if (dn + bn && dn + bn < 65536)
            s.afterCall = [&] {
                if (!touched && (memcmp(d0.data(), __start_vfdata, dn) || memcmp(b0.data(), __start_vfbss, bn))) touched = "static data of the library changed by a call";
            };
        s.init();
        for (auto& st : ep.setup) s.op(st.op);
        s.run();
        for (auto& st : ep.steps) {
            if (s.dead) break;
            if (st.kind == ST_TYPE) s.feedBytes(st.bytes);
            paint();
            if (st.kind == ST_API) s.op(st.op);
            s.run();
            size_t u = used();
            if (u > deepest) deepest = u;
            c.st.evals++;
            c.st.distinct.insert(hashStr(st.bytes, hashStr(describe(st.op))));
            if (touched) { c.report(std::string(touched) + " in step \"" + esc(st.bytes) + "\" " + describe(st.op) + "\n" + describe(ep)); return; }
            if (allocSeen) { c.report(std::string("the library called ") + allocSeen + " in step \"" + esc(st.bytes) + "\" " + describe(st.op) + "\n" + describe(ep)); return; }
        }
        // whatever the application passes, its texts stay as they are
        int odd = r.chance(60) && !s.dead ? r.range(1, 5) : 0;
        if (odd) { s.hold = true; s.poolNodes = false; for (auto* n : s.pool) free(n); s.pool.clear(); }
        for (int i = 0; i < odd; i++) {
            static const int kind[] = {OP_MOUNT, OP_MOUNT, OP_UNMOUNT, OP_NODE, OP_PARENT, OP_CD, OP_FIND, OP_ABS};
            Op o;
            o.kind = kind[r.below(8)];
            std::string base = g.mountable.empty() || r.chance(30) ? "/" + r.pick(g.pool) : r.pick(g.mountable);
            switch (r.below(6)) {
            case 0: o.text = base + "/"; break;
            case 1: o.text = base + "//"; break;
            case 2: o.text = "/" + base; break;
            case 3: o.text = base + "/."; break;
            case 4: o.text = base + "/../x"; break;
            default: o.text = base + "/" + r.pick(g.pool) + "/"; break;
            }
            if (o.text.size() + 1 > ep.world.pathMax || o.text.find('\0') != std::string::npos) continue;
            s.op(o);
            c.st.add("odd.paths");
        }
        if (odd) { s.feedBytes("\r"); s.run(); }
        if (r.chance(50) && !s.dead) {
            paint();
            s.deinit();
            size_t u = used();
            c.st.maxOf("stack.deinit", u);
        }
        if (allocSeen) { c.report(std::string("the library called ") + allocSeen + "\n" + describe(ep)); return; }
        s.finish();
        for (auto& v : s.viols) if (v.kind == "const-data") { c.report(v.text + "\n" + describe(ep)); return; }
        c.st.add("services", s.services);
        c.st.add("callbacks", s.ev.size());
        c.st.add("bytes.out", s.out.size());
    }
    c.st.add("allocations.of.the.harness", wrapped);
    wrapped = 0;
    c.st.maxOf("static.bytes.watched", dn + bn);
    c.st.maxOf("stack", deepest);
    // vectors of arguments and of path parts live on the stack, next to a few paths
    size_t variable = 16 * ep.world.pathMax + 8 * ep.world.inSize;
    c.st.maxOf("stack.fixed", deepest > variable ? deepest - variable : 0);
    size_t bound = 8192 + variable;
    if (deepest > bound) { c.report("stack use of " + std::to_string(deepest) + " bytes, expected at most " + std::to_string(bound) + "\n" + describe(ep)); return; }
    if (std::string(__start_vfdata ? __start_vfdata : "", dn) != d0 || std::string(__start_vfbss ? __start_vfbss : "", bn) != b0) {
        c.report("static data of the library changed during a session\n" + describe(ep));
        return;
    }
    c.st.add("statics.compared");
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 1500));
}
#endif

// ---- P25: helpers ---------------------------------------------------------------------------------
static char* block(const std::string& s, size_t room) {   // exact block, so that the sanitizer sees any overrun
    char* p = (char*)malloc(room ? room : 1);
    memcpy(p, s.c_str(), std::min(s.size() + 1, room));
    return p;
}
PROFILE(P25) {
    Rng r(seed);
    // sizes around the limits of counters of 8 and 16 bits
    bool wide = idx % 250 == 77, longNames = false;
    auto edge = [&] { int n = idx % 5000 != 77 || r.chance(30) ? 256 : r.chance(85) ? 65536 : 32768; return r.chance(60) ? n : n + r.range(-2, 2); };
    auto comp = [&](bool dots) {
        if (dots && r.chance(35)) return std::string(r.chance(60) ? ".." : ".");
        if (dots && r.chance(8)) return std::string(r.chance(50) ? "..." : r.chance(50) ? ".a" : "..b");
        std::string s;
        int n = r.range(1, r.chance(5) ? 60 : 5);
        if (longNames && r.chance(20)) n = edge();
        for (int i = 0; i < n; i++) { char ch; do ch = (char)(r.chance(70) ? r.range('a', 'c') : r.range(1, 255)); while (ch == '/' || ch == 0); s += ch; }
        if (s[0] == '.') s[0] = 'q';
        return s;
    };
    auto check = [&](const char* fn, const std::string& in, const std::string& want, const std::string& got) {
        c.st.evals++;
        c.st.add(std::string("observed.") + fn);
        c.st.distinct.insert(hashStr(in, hashStr(fn)));
        if (want != got) c.report(std::string(fn) + "(\"" + esc(in) + "\") gives \"" + esc(got) + "\", expected \"" + esc(want) + "\"\n");
        if (c.st.samples.size() < 4) c.st.sample(std::string(fn) + "(\"" + esc(in) + "\") = \"" + esc(got) + "\"");
    };
    for (int it = 0; it < (wide ? 8 : 20) && !c.violated; it++) {
        longNames = wide && it % 2;
        // absolute path with dots
        std::vector<std::string> v;
        int n = wide && !longNames ? edge() : r.chance(3) ? r.range(40, 120) : r.range(1, 8);
        for (int i = 0; i < n; i++) v.push_back(comp(true));
        std::string p;
        for (auto& x : v) p += "/" + x;
        setCurrentText("path " + esc(p));
        std::vector<std::string> o;
        for (auto& x : v) { if (x == "..") { if (!o.empty()) o.pop_back(); } else if (x != ".") o.push_back(x); }
        std::string want;
        for (auto& x : o) want += "/" + x;
        if (want.empty()) want = "/";
        char *a = block(p, p.size() + 1), *b = (char*)malloc(p.size() + 1);
        memset(b, 0x55, p.size() + 1);
        ush_utils_get_collapse_path(a, b);
        check("collapse", p, want, b);
        // collapsing again changes nothing
        std::string once = b;
        char *a2 = block(once, once.size() + 1), *b2 = (char*)malloc(once.size() + 1);
        ush_utils_get_collapse_path(a2, b2);
        check("collapse-twice", once, once, b2);
        free(a); free(b); free(a2); free(b2);
        // plain absolute path
        v.clear();
        n = r.chance(10) ? 0 : wide && !longNames ? edge() : r.chance(3) ? r.range(40, 120) : r.range(1, 8);
        for (int i = 0; i < n; i++) v.push_back(comp(false));
        p.clear();
        for (auto& x : v) p += "/" + x;
        if (p.empty()) p = "/";
        setCurrentText("path " + esc(p));
        char* q = block(p, p.size() + 1);
        check("levels", p, std::to_string(v.size()), std::to_string(ush_utils_get_path_levels_count(q)));
        char* last = ush_utils_path_last(q);
        bool inside = last >= q && last <= q + p.size();
        check("last", p, v.empty() ? "/" : v.back(), inside ? std::string(last) : "(pointer outside of the path)");
        std::string up;
        for (int lv = 0; lv <= (int)v.size(); lv++) {
            if (v.size() > 10 && !(v.size() < 1000 ? r.chance(10) : r.below(v.size()) < 6 || lv == 256 || lv == 65536 || lv + 1 >= (int)v.size())) { if (lv) up += "/" + v[lv - 1]; continue; }
            if (lv) up += "/" + v[lv - 1];
            char* out = (char*)malloc(p.size() + 1);
            memset(out, 0x55, p.size() + 1);
            ush_utils_get_path_level((size_t)lv, q, out);
            check("level", p + " " + std::to_string(lv), lv ? up : "/", out);
            free(out);
        }
        check("input-kept", p, p, q);
        if (!v.empty()) {
            std::string parent;
            for (size_t i = 0; i + 1 < v.size(); i++) parent += "/" + v[i];
            if (parent.empty()) parent = "/";
            char* u = block(p, p.size() + 1);
            ush_utils_path_upper(u);
            check("upper", p, parent, u);
            // joining parent and name gives the path back
            std::string nm = v.back();
            char *pp = block(parent, parent.size() + 1), *nn = block(nm, nm.size() + 1), *out = (char*)malloc(p.size() + 1);
            ush_utils_join_path(pp, nn, out);
            check("join", parent + " " + nm, p, out);
            free(u); free(pp); free(nn); free(out);
        }
        free(q);
        // textual helpers take any path: relative, with an empty last part, with repeated slashes
        p.clear();
        n = wide && r.chance(40) ? edge() : r.range(0, 9);
        for (int i = 0; i < n; i++) p += r.chance(40) ? "/" : r.chance(15) ? "." : comp(true).substr(0, 3);
        {
            setCurrentText("text " + esc(p));
            char* t0 = block(p, p.size() + 1);
            std::vector<size_t> sl;
            for (size_t i = 0; i < p.size(); i++) if (p[i] == '/') sl.push_back(i);
            std::string wantLast = p.size() == 1 || sl.empty() ? p : p.substr(sl.back() + 1);
            char* lp = ush_utils_path_last(t0);
            check("last-of-any", p, wantLast, lp >= t0 && lp <= t0 + p.size() ? std::string(lp) : "(pointer outside of the path)");
            std::string wantUp = p == "/" ? "" : sl.empty() ? p : p.substr(0, sl.back() ? sl.back() : 1);
            if (p.size() == 1 && p != "/") wantUp = "";
            size_t inner = 0;
            for (size_t x : sl) if (x) inner++;
            check("levels-of-any", p, std::to_string(p.empty() || p == "/" ? 0 : 1 + inner), std::to_string(ush_utils_get_path_levels_count(t0)));
            size_t lv = r.chance(wide ? 50 : 0) ? r.below(p.size() + 1) : r.below(6), cnt = 0, cutAt = p.size();
            for (size_t x : sl) if (x && ++cnt == lv) { cutAt = x; break; }
            char* lo = (char*)malloc(p.size() + 2);
            memset(lo, 0x55, p.size() + 2);
            ush_utils_get_path_level(lv, t0, lo);
            check("level-of-any", p + " " + std::to_string(lv), lv ? p.substr(0, cutAt) : "/", lo);
            std::string nm = r.chance(20) ? "" : comp(true);
            std::string wj = (p == "/" ? "/" : p + "/") + nm;
            char *nn = block(nm, nm.size() + 1), *jo = (char*)malloc(wj.size() + 1);
            ush_utils_join_path(t0, nn, jo);
            check("join-of-any", p + " " + nm, wj, jo);
            check("input-kept", p, p, t0);
            free(lo); free(nn); free(jo);
            // a single character is taken for the root; other relative single parts are left out
            if (p.size() != 1 || p == "/") { ush_utils_path_upper(t0); check("upper-of-any", p, wantUp, t0); }
            free(t0);
        }
        // relative paths lose the first part, an empty last part is kept
        {
            std::vector<std::string> w;
            bool rel = r.chance(60), tail = r.chance(40);
            n = r.range(1, 7);
            for (int i = 0; i < n; i++) w.push_back(comp(true));
            std::string t = rel ? comp(true) : "";
            for (auto& x : w) t += "/" + x;
            if (rel && r.chance(10)) { t = t.substr(0, t.find('/')); w.clear(); tail = false; }
            if (tail) { t += "/"; w.push_back(""); }
            setCurrentText("path " + esc(t));
            std::vector<std::string> res;
            for (auto& x : w) { if (x == "..") { if (!res.empty()) res.pop_back(); } else if (x != ".") res.push_back(x); }
            std::string exp;
            for (auto& x : res) exp += "/" + x;
            if (exp.empty()) exp = "/";
            char *x0 = block(t, t.size() + 1), *x1 = (char*)malloc(t.size() + 2);
            memset(x1, 0x55, t.size() + 2);
            ush_utils_get_collapse_path(x0, x1);
            check("collapse-of-any", t, exp, x1);
            free(x0); free(x1);
        }
        // last argument
        std::string t;
        n = wide ? edge() : r.range(0, 12);
        int gap = n > 100 ? (r.chance(50) ? 0 : 1) : 35;
        for (int i = 0; i < n; i++) { char ch = r.chance(gap) && (gap == 35 || i % 97 == 0) ? ' ' : (char)r.range(1, 255); t += ch; }
        setCurrentText("argument " + esc(t));
        char* tt = block(t, t.size() + 1);
        size_t sp = t.rfind(' ');
        char* la = ush_utils_get_last_arg(tt);
        check("last-arg", t, std::to_string(sp == std::string::npos ? 0 : sp + 1), std::to_string(la - tt));
        std::string pf = t.substr(0, r.below(t.size() + 1));
        if (r.chance(40)) pf += (char)r.range(1, 255);
        if (r.chance(20) && !pf.empty()) pf[r.below(pf.size())] = (char)r.range(1, 255);
        char* pb = block(pf, pf.size() + 1);
        check("startswith", t + "|" + pf, t.compare(0, pf.size(), pf) == 0 ? "1" : "0", ush_utils_startswith(tt, pb) ? "1" : "0");
        free(tt); free(pb);
        // binary decoding
        std::string e;
        n = wide ? edge() : r.range(0, 14);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(10);
            if (w < 3) { char h[8]; snprintf(h, sizeof h, r.chance(50) ? "\\x%02x" : "\\x%02X", (unsigned)r.below(256)); e += h; }
            else if (w < 5) e += "\\";
            else if (w < 6) e += "x";
            else if (w < 8) { static const char d[] = "0123456789abcdefABCDEFgG:@/`"; e += d[r.below(sizeof d - 1)]; }
            else e += (char)r.range(1, 255);
        }
        size_t max = r.chance(50) ? e.size() + 2 : r.below(e.size() + 1);
        setCurrentText("decode " + esc(e));
        std::string full;
        for (size_t i = 0; i < e.size();) {
            if (e[i] != '\\') { full += e[i++]; continue; }
            if (++i >= e.size()) break;
            if (e[i] != 'x') { full += e[i++]; continue; }
            i++;
            auto hex = [&](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : 0; };
            if (i + 1 >= e.size()) break;
            full += (char)(hex(e[i]) * 16 + hex(e[i + 1]));
            i += 2;
        }
        full = full.substr(0, max);
        bool inPlace = r.chance(40);
        char* eb = block(e, e.size() + 1);
        uint8_t* ob = inPlace ? (uint8_t*)eb : (uint8_t*)malloc(max ? max : 1);
        size_t lim = inPlace ? std::min(max, e.size()) : max;
        size_t got = ush_utils_decode_ascii(eb, ob, lim);
        full = full.substr(0, lim);
        check(inPlace ? "decode-in-place" : "decode", e + " " + std::to_string(lim), full, got <= lim ? std::string((char*)ob, got) : "(too long)");
        if (!inPlace) { check("decode-input-kept", e, e, eb); free(ob); }
        free(eb);
    }
    if (idx % 50 == 0) {
        for (int ch = 0; ch < 256; ch++) check("printable", std::to_string(ch), ch >= 32 && ch <= 126 ? "1" : "0", ush_utils_is_printable((uint8_t)ch) ? "1" : "0");
        for (int s = 0; s < 13; s++) check("status", std::to_string(s), FEAT.status[s], ush_utils_get_status_string((ush_status_t)s));
    }
}
