// The same sessions in a 32-bit program without a system library (narrow/): what is shown and called must not differ.
#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
struct Pack {
    std::string b;
    void num(uint64_t v) { uint32_t x = (uint32_t)v; b.append((const char*)&x, 4); }
    void text(const std::string& s) { num(s.size()); b += s; b += '\0'; }
    void op(const Op& o) { num((uint32_t)o.kind); num((uint32_t)o.n); text(o.text); }
    void ops(const std::vector<Op>& v) { num(v.size()); for (auto& o : v) op(o); }
};
std::string pack(const Episode& ep, uint64_t seed) {
    Pack p;
    const World& w = ep.world;
    p.num(seed * 2654435761u + 12345);
    p.num(w.inSize); p.num(w.outSize); p.num(w.pathMax);
    p.text(w.host);
    p.num(w.general);
    p.ops(w.generalProg);
    p.num(w.dirs.size()); p.num(w.groups.size());
    for (int pass = 0; pass < 2; pass++) {
        auto& v = pass ? w.groups : w.dirs;
        for (size_t i = 0; i < v.size(); i++) {
            p.num(v[i].files.size());
            for (size_t k = 0; k < v[i].files.size(); k++) {
                const FileSpec& f = v[i].files[k];
                p.text((pass ? "g" : "d") + std::to_string(i) + "." + std::to_string(k));
                p.text(f.name);
                p.num(f.hasDesc); p.text(f.desc);
                p.num(f.hasHelp); p.text(f.help);
                p.num(f.exec); p.num((uint32_t)f.get); p.num((uint32_t)f.set); p.num((uint32_t)f.proc);
                p.text(f.content);
                p.ops(f.prog); p.ops(f.tail); p.ops(f.getProg); p.ops(f.setProg);
                p.num(f.pieces.size());
                for (auto& t : f.pieces) p.text(t);
            }
        }
    }
    p.num(ep.setup.size());
    for (auto& s : ep.setup) p.op(s.op);
    p.num(ep.steps.size());
    for (auto& s : ep.steps) {
        if (s.kind == ST_API) { p.num(1); p.op(s.op); }
        else { p.num(0); p.text(s.bytes); }
    }
    Pack r;
    r.num(p.b.size());
    return r.b + p.b;
}

struct Child {
    pid_t pid = 0;
    int in = -1, out = -1, err = -1;
    std::string path;
    bool start() {
        int a[2], b[2], e[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) return false;
        pid = fork();
        if (pid < 0) return false;
        if (pid == 0) {
            dup2(a[0], 0); dup2(b[1], 1); dup2(e[1], 2);
            execl(path.c_str(), path.c_str(), (char*)nullptr);
            _exit(99);
        }
        close(a[0]); close(b[1]); close(e[1]);
        in = a[1]; out = b[0]; err = e[0];
        return true;
    }
    int stop(std::string& said) {     // -> wait status
        char buf[4096];
        if (pid <= 0) return 0;
        close(in);
        ssize_t n;
        while ((n = read(err, buf, sizeof buf)) > 0) said.append(buf, (size_t)n);
        int st = 0;
        waitpid(pid, &st, 0);
        close(out); close(err);
        pid = 0;
        return st;
    }
    // 0 fine, 1 the child ended, 2 no answer
    int exchange(const std::string& m, void* p, size_t want, size_t& sent) {
        char* c = (char*)p;
        for (;;) {
            if (want == 0 && sent >= m.size()) return 0;
            struct pollfd f[2] = {{out, POLLIN, 0}, {in, POLLOUT, 0}};
            int n = poll(f, sent < m.size() ? 2 : 1, 120000);
            if (n == 0) return 2;
            if (n < 0) { if (errno == EINTR) continue; return 1; }
            if (f[0].revents) {
                if (want == 0) return 0;
                ssize_t k = read(out, c, want);
                if (k <= 0) { if (k < 0 && errno == EINTR) continue; return 1; }
                c += k; want -= (size_t)k;
                if (want == 0 && sent >= m.size()) return 0;
            }
            if (sent < m.size() && f[1].revents) {
                ssize_t k = write(in, m.data() + sent, m.size() - sent);
                if (k < 0 && errno == EINTR) continue;
                if (k < 0) return 1;
                sent += (size_t)k;
            }
        }
    }
};

std::vector<Child>& children() {
    static std::vector<Child> v;
    static bool once = false;
    if (once) return v;
    once = true;
    signal(SIGPIPE, SIG_IGN);
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    if (n <= 0) return v;
    std::string dir(buf, (size_t)n);
    dir.erase(dir.rfind('/') + 1);
    for (int i = 0; i < 16; i++) {
        Child c;
        c.path = dir + "narrow" + std::to_string(i);
        if (access(c.path.c_str(), X_OK) != 0) continue;
        // does this system run such a program?
        std::string said;
        if (!c.start()) continue;
        int st = c.stop(said);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) continue;
        v.push_back(c);
    }
    return v;
}
}

PROFILE(P26narrow) {
    Knobs k;
    k.lines = 14; k.overlong = 3; k.tab = 20; k.noise = 10; k.reset = 3; k.weird = 12; k.longText = 20; k.midApi = 10; k.procs = 15; k.treeProg = 10; k.apiTree = 5; k.apiPath = 5;
    k.dropBuiltin = 0;
    if (idx % 4 == 0) { k.xxd = 20; k.echo = 15; k.cat = 10; k.content = 200; }
    if (idx % 4 == 1) { k.ls = 20; k.help = 20; k.nodes = 15; }
    if (idx % 4 == 2) { k.badArgs = 50; k.syntax = 4; }
    if (idx % 8 == 3) { k.inMin = 4; k.outMin = 4; k.outMax = 30; }
    Gen g(seed, k);
    Episode ep = g.make();
    for (auto* v : {&ep.setup, &ep.steps}) for (auto& s : *v) if (s.kind == ST_API && (s.op.kind == OP_REINIT || s.op.n < 0)) s.op = Op();
    for (auto& l : ep.world.groups) l.alias = -1;          // arrays of their own, content the same
    auto& ch = children();
    if (ch.empty()) { c.st.add("narrow.unavailable"); return; }
    setCurrentText(describe(ep));
    Rng r(seed);
    RunResult wide = runReal(ep, seed, Sched::smooth(), 0, &r);
    for (auto& v : wide.viols) if (v.kind == "progress") { c.st.add("narrow.skipped"); return; }
    Child& kid = ch[idx % ch.size()];
    const std::string name = kid.path.substr(kid.path.rfind('/') + 1);
    if (kid.pid == 0 && !kid.start()) { c.st.add("narrow.unavailable"); return; }
    setCurrentText("32-bit build " + name + "\n" + describe(ep));
    std::string m = pack(ep, seed);
    size_t sent = 0;
    uint32_t head[3] = {0, 0, 0};
    int st = kid.exchange(m, head, sizeof head, sent);
    std::string out, evs;
    if (!st) { out.resize(head[0]); evs.resize(head[2]); }
    if (!st && head[0]) st = kid.exchange(m, &out[0], out.size(), sent);
    if (!st && head[2]) st = kid.exchange(m, &evs[0], evs.size(), sent);
    if (st) {
        if (st == 2) kill(kid.pid, SIGKILL);
        std::string said;
        int ws = kid.stop(said);
        if (said.find("VF-NARROW-HARNESS") != std::string::npos) { c.st.add("narrow.skipped"); return; }
        std::string how = st == 2 ? "does not answer" : WIFSIGNALED(ws) ? std::string("died of ") + strsignal(WTERMSIG(ws)) : "ended with " + std::to_string(WEXITSTATUS(ws));
        if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL && st != 2) { c.st.add("narrow.skipped"); return; }
        c.report("kind: build\nthe 32-bit build " + name + " " + how + "\n" + said + "\n" + describe(ep));
        return;
    }
    RunResult x;
    x.out = out;
    size_t at = 0;
    auto num = [&] { uint32_t v; memcpy(&v, evs.data() + at, 4); at += 4; return v; };
    auto text = [&] { uint32_t n = num(); std::string s = evs.substr(at, n); at += n; return s; };
    for (uint32_t i = 0; i < head[1]; i++) {
        Event e;
        e.kind = (int)num(); e.outPos = num(); e.file = text();
        for (uint32_t n = num(); n; n--) e.args.push_back(text());
        x.ev.push_back(e);
    }
    std::string d = diffText(wide, x, "64-bit", ("32-bit, " + name).c_str());
    c.st.evals += ep.steps.size();
    c.st.distinct.insert(hashStr(out, hashStr(name)));
    c.st.add("narrow.sessions." + name);
    c.st.add("narrow.bytes", out.size());
    c.st.add("narrow.callbacks", x.ev.size());
    if (!d.empty()) c.report("kind: build\nthe 32-bit build behaves differently\n" + d + "\n" + describe(ep));
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
}
