// P24: the demonstration program for Linux, linked with an interface and a clock of the harness.
#include "common.hpp"
extern "C" {
#include <microshell.h>
void shell_init(void);
bool shell_service(void);
long vf_time(long* t);
int vf_rand(void);
void vf_srand(unsigned s);
}

namespace {
struct Demo {
    std::string input, out;
    size_t pos = 0;
    Sched sched;
    long now = 1000000;
    uint64_t rnd = 1;
    std::vector<int> given;
    int reads = 0, writes = 0;
    bool empty = false;
    int next() { Rng r(rnd++); return (int)(r.next() & 0x7fffffff); }
} D;
int demoRead(ush_object*, char* ch) {
    D.reads++;
    if (D.pos >= D.input.size()) { D.empty = true; return 0; }
    if (!D.sched.canRead()) return 0;
    *ch = D.input[D.pos++];
    return 1;
}
int demoWrite(ush_object*, char ch) {
    D.writes++;
    if (!D.sched.canWrite()) return 0;
    D.out += ch;
    if (D.out.size() > 50000000) { fprintf(stderr, "VF-HANG: output without end\n"); _Exit(97); }
    return 1;
}
std::string bytesOf(int v) { return std::string((const char*)&v, sizeof v); }
}
extern "C" {
extern const struct ush_io_interface g_ush_io_interface;
const struct ush_io_interface g_ush_io_interface = {demoRead, demoWrite};
long vf_time(long* t) { if (t) *t = D.now; return D.now; }
int vf_rand(void) { int v = D.next(); D.given.push_back(v); return v; }
void vf_srand(unsigned s) { D.rnd = s; }
}

// what the demonstration offers, as its sources and its documentation say
static FileSpec mk(const std::string& n) { FileSpec f; f.name = n; return f; }
static FileSpec data(const std::string& n, const std::string& content, bool writable = false) {
    FileSpec f = mk(n);
    f.get = GET_STATIC; f.content = content;
    if (writable) f.set = SET_STORE;
    return f;
}
enum { DIR_ROOT, DIR_ETC, DIR_DEV, DIR_BUS, DIR_MEM, DIR_BIN };

static Episode demoWorld() {
    Episode e;
    World& w = e.world;
    w.inSize = w.outSize = w.pathMax = 256;
    w.host = "host";
    w.dirs.resize(6);
    w.dirs[DIR_ROOT].files = {data("readme.txt", "Welcome to MicroShell DEMO implementation!\r\nYou will see how most common features work.\r\nEnjoy!\r\n")};
    FileSpec f = data("config", "# system configuration\r\nfreq = 16MHz\r\nram = 4kB\r\n");
    f.hasDesc = true; f.desc = "system configuration";
    FileSpec h = data("hostname", "host", true);
    h.hasDesc = true; h.desc = "shell hostname";
    w.dirs[DIR_ETC].files = {f, h};
    f = mk("null"); f.get = GET_EMPTY; f.set = SET_DROP;
    w.dirs[DIR_DEV].files = {f, data("random", "")};
    f = mk("spi"); f.hasHelp = true; f.help = "not implemented yet\r\n";
    h = f; h.name = "uart";
    w.dirs[DIR_BUS].files = {f, h};
    w.dirs[DIR_MEM].files = {data("ram", std::string(256, 0), true), data("eeprom", std::string(32, (char)0xff), true), data("rom", "")};
    f = mk("uptime"); f.exec = true; f.hasHelp = true; f.help = "usage: uptime\r\n  show system uptime\r\n";
    f.prog = {Op{OP_ARGC, "", 1}, Op{OP_PRINTF, "time: 0s\r\n", 0}};
    h = mk("print"); h.exec = true; h.hasHelp = true; h.help = "usage: print <arg>\r\n  print argument to shell\r\n";
    h.prog = {Op{OP_ARGC, "", 2}, Op{OP_PRINT_ARG, "", 1}};
    w.dirs[DIR_BIN].files = {f, h};
    w.groups.resize(1);
    f = mk("reset"); f.exec = true; f.hasDesc = true; f.desc = "reset shell"; f.prog = {Op{OP_RESET, "", 0}};
    w.groups[0].files = {f};
    e.add(0);
    e.mount("/", DIR_ROOT); e.mount("/etc", DIR_ETC); e.mount("/dev", DIR_DEV);
    e.mount("/dev/bus", DIR_BUS); e.mount("/dev/mem", DIR_MEM); e.mount("/bin", DIR_BIN);
    return e;
}

static std::string ramKept(256, 0);    // not initialised again by the demonstration

static bool demoRun(uint64_t max) {
    int idle = 0;
    uint64_t quiet = 0;
    for (uint64_t i = 0; i < max; i++) {
        size_t p = D.pos, o = D.out.size();
        D.empty = false;
        D.reads = D.writes = 0;
        shell_service();
        if (gHeartbeat && (i & 1023) == 0) *gHeartbeat = *gHeartbeat + 1;
        bool did = D.pos != p || D.writes;
        idle = D.empty && !did ? idle + 1 : 0;
        quiet = did || o != D.out.size() ? 0 : quiet + 1;
        if (idle >= 3) return true;
        if (quiet > 20000) return false;
    }
    return false;
}

static void demoEpisode(Ctx& c, uint64_t seed, bool overrun) {
    Rng r(seed);
    Knobs k;
    k.lines = 16; k.user = 14; k.cat = 8; k.xxd = 8; k.echo = 14; k.ls = 6; k.help = 6; k.noise = 8; k.tab = 20;
    k.reset = k.apiPrint = k.apiTree = k.apiPath = 0; k.badArgs = 15; k.content = 30;
    k.overlong = r.chance(10) ? 1 : 0;
    Gen g(seed, k);
    g.ep = demoWorld();
    g.mountable = {"/etc", "/dev", "/dev/bus", "/dev/mem", "/bin"};
    g.pool = {"readme.txt", "config", "hostname", "null", "random", "spi", "uart", "ram", "eeprom", "rom", "uptime", "print", "reset", "etc", "dev", "mem", "bus", "bin"};
    D.now = 1000000 + (long)(seed % 100000);
    D.sched = r.chance(30) ? Sched::make(seed, r.range(1, 4)) : Sched::smooth();
    D.out.clear(); D.input.clear(); D.pos = 0;
    long boot = D.now;
    // the model
    World w = g.ep.world;
    uint64_t rnd = (unsigned)D.now;
    auto rnext = [&] { Rng x(rnd++); return (int)(x.next() & 0x7fffffff); };
    std::string rom;
    for (int i = 0; i < 1024; i++) rom += (char)rnext();
    w.dirs[DIR_MEM].files[2].content = rom;
    w.dirs[DIR_MEM].files[0].content = ramKept;
    Model m;
    bool tooLong = false;
    std::string ram = ramKept;
    auto attach = [&](Model& x, bool real) {
        x.onRead = [&, real](FileRef f, std::string& s) {
            if (f.list != DIR_DEV || f.idx != 1) return false;
            s = real ? bytesOf(rnext()) : "abcd";
            return true;
        };
        x.onWrite = [&, real](FileRef f, const std::string& d) {
            if (f.list == DIR_MEM && f.idx == 1 && d.size() > 32) tooLong = true;
            if (!real) return;
            if (f.list == DIR_ETC) w.host = d.substr(0, d.find('\0')).substr(0, 16);
        };
    };
    attach(g.m, false);
    g.begin();
    m.init(&w);
    attach(m, true);
    int n = r.range(4, k.lines);
    auto fixup = [&](Model& x) {
        // writing of a part keeps the rest; the name of the host is cut
        for (auto& kv : x.contents) {
            if (kv.first.first == DIR_MEM && kv.first.second <= 1) {
                std::string& base = kv.first.second == 0 ? ram : w.dirs[DIR_MEM].files[1].content;
                if (kv.second.size() < base.size()) kv.second += base.substr(kv.second.size());
                if (kv.second.size() > base.size()) continue;
                base = kv.second;
                if (kv.first.second == 0) w.dirs[DIR_MEM].files[0].content = ram;
            }
            if (kv.first.first == DIR_ETC) kv.second = w.host;
        }
    };
    for (auto& s : g.ep.setup) m.setupOp(s.op);
    m.boot();
    shell_init();
    setCurrentText("boot of the demonstration");
    std::string log;
    bool ok = demoRun(10000000);
    size_t eo = 0, ro = 0;
    auto check = [&](const std::string& what) {
        if (!ok) { c.report("no progress after " + what + "\n" + log); return false; }
        while (eo < m.out.size() && ro < D.out.size() && (unsigned char)D.out[ro] == (m.out[eo] & 0xff)) { eo++; ro++; }
        if (eo < m.out.size() || ro < D.out.size()) {
            std::string e;
            for (size_t i = eo; i < m.out.size() && i < eo + 200; i++) e += (char)m.out[i];
            c.report("after " + what + " the demonstration shows\n  " + esc(D.out.substr(ro, 200)) + "\nexpected\n  " + esc(e) + "\nsession:\n" + log);
            return false;
        }
        return true;
    };
    if (!check("boot")) return;
    for (int i = 0; i < n; i++) {
        size_t first = g.ep.steps.size();
        tooLong = false;
        Model saved = g.m;
        if (overrun && i == n - 1) {
            std::string l = "echo " + std::string((size_t)r.range(33, 64), 'e') + " > /dev/mem/eeprom";
            g.typeLine(l, 0, 0, 0);
            g.enter();
        } else if (r.chance(12)) {
            std::string t = g.bin(30);
            if (g.typeLine("echo " + g.quoteEcho(t) + " > /dev/mem/" + (r.chance(50) ? "ram" : "eeprom"), 0, 0, 0)) g.enter();
        } else if (r.chance(8)) {
            if (g.typeLine("echo " + g.quoteEcho(g.word(24)) + " > /etc/hostname", 0, 0, 0)) g.enter();
        } else if (r.chance(8)) {
            std::string l = "/bin/uptime";
            if (g.typeLine(l, 0, 0, 0)) g.enter();
        } else g.action();
        g.flushStep();
        if (tooLong && !overrun) {            // known finding, probed apart
            g.ep.steps.resize(first);
            g.m = saved;
            continue;
        }
        for (size_t s = first; s < g.ep.steps.size(); s++) {
            const std::string& b = g.ep.steps[s].bytes;
            if (r.chance(50)) D.now += (long)r.below(100000);
            w.dirs[DIR_BIN].files[0].prog[1].text = "time: " + std::to_string(D.now - boot) + "s\r\n";
            log += "type \"" + esc(b) + "\"\n";
            setCurrentText(log);
            D.input = b; D.pos = 0;
            size_t mk = m.marks.size();
            for (char ch : b) { m.feed(ch); fixup(m); }
            ok = demoRun(10000000);
            if (!check("typing \"" + esc(b) + "\"")) return;
            for (size_t q = mk; q < m.marks.size(); q++) {
                if (m.marks[q].domain == D_EDIT) continue;
                c.st.evals++;
                c.st.add("observed." + domainName(m.marks[q].domain));
                size_t end = q + 1 < m.marks.size() ? m.marks[q + 1].out : m.out.size();
                uint64_t h = hashStr(m.marks[q].what);
                for (size_t y = m.marks[q].out; y < end; y++) { h ^= m.out[y]; h *= 1099511628211ull; }
                c.st.distinct.insert(h);
            }
        }
    }
    for (auto& kv : m.seen) c.st.add("model." + kv.first, kv.second);
    ramKept = ram;
    c.st.add("sessions");
    c.st.add("bytes.out", D.out.size());
    if (c.st.samples.empty()) c.st.sample(log);
}
PROFILE(P24) { demoEpisode(c, seed, false); }
PROFILE(P24overrun) { demoEpisode(c, seed, true); c.st.add("overruns.survived"); }
