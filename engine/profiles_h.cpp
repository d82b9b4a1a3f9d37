// Independent checker of the transcript: knows nothing of the commands, only echo, answer and prompt.
#include "common.hpp"

static const char* PREFIX() { return FEAT.styles ? "\x1b[35m[" : "["; }
static const char* SUFFIX() { return FEAT.styles ? "]$ \x1b[0m" : "]$ "; }

static bool mentions(const std::vector<Op>& v, const std::string& t) {
    for (auto& o : v) if (o.text.find(t) != std::string::npos) return true;
    return false;
}
static bool mentions(const Episode& ep, const std::string& t) {   // prompts could be imitated
    auto has = [&](const std::string& s) { return s.find(t) != std::string::npos; };
    const World& w = ep.world;
    if (has(w.host) || mentions(w.generalProg, t)) return true;
    for (auto* ls : {&w.dirs, &w.groups})
        for (auto& l : *ls)
            for (auto& f : l.files) {
                if (has(f.name) || has(f.desc) || has(f.help) || has(f.content) || mentions(f.prog, t) || mentions(f.tail, t) || mentions(f.getProg, t) || mentions(f.setProg, t)) return true;
                for (auto& p : f.pieces) if (has(p)) return true;
            }
    for (auto* v : {&ep.setup, &ep.steps}) for (auto& s : *v) if (has(s.bytes) || has(s.op.text)) return true;
    return false;
}

// ---- P27: each line is echoed and answered by one prompt ---------------------------------------
PROFILE(P27) {
    Rng r(seed);
    Knobs k;
    k.lines = 16; k.noise = 0; k.escSeq = 0; k.tab = idx % 3 == 0 ? 25 : 0; k.overlong = 0; k.reset = 2; k.apiPrint = 3; k.apiTree = 2; k.apiPath = 1;
    k.ctrlc = 3; k.prog = 85; k.longText = 25; k.procs = 25; k.treeProg = 20; k.general = 50;
    k.typeAhead = idx % 4 == 1 ? 50 : 0;
    if (idx % 5 == 0) { k.inMin = 4; k.inMax = 40; k.outMin = 4; k.outMax = 30; }
    if (idx % 7 == 0) { k.cd = 20; k.nodes = 15; }
    if (idx % 11 == 0) { k.dropBuiltin = 20; k.apiTree = 6; }
    Gen g(seed, k);
    Episode ep = g.make();
    setCurrentText(describe(ep));
    const std::string pre = PREFIX(), suf = SUFFIX();
    c.st.add("sessions");
    if (mentions(ep, pre)) { c.st.add("sessions.imitating"); return; }
    RealShell s(&ep.world, seed);
    s.sched = anySched(seed, 25);
    s.poolNodes = false;
    s.init();
    for (auto& st : ep.setup) s.op(st.op);
    s.outLimit = 500000000;
    auto judge = [&](size_t from, size_t least, size_t most, const std::string& echo, const std::string& what, const std::string& rest = "") {
        std::string o = s.out.substr(from);
        size_t n = 0, last = std::string::npos;
        bool form = true;
        const std::string head = pre + ep.world.host + " ";
        for (size_t p = o.find(pre); p != std::string::npos; p = o.find(pre, p + 1)) {
            n++; last = p;
            size_t e = o.find(suf, p);
            form &= o.compare(p, head.size(), head) == 0 && e != std::string::npos;
        }
        auto bad = [&](const std::string& t) { c.report("kind: prompt\n" + t + "\nafter: " + what + "\noutput: " + esc(o, 3000) + "\n" + describe(ep)); };
        if (n < least || n > most) return bad(std::to_string(n) + " prompts, expected " + std::to_string(least) + (most != least ? ".." + std::to_string(most) : ""));
        if (!form) return bad("a prompt does not show the host name");
        if (o.compare(0, echo.size(), echo) != 0) return bad("the line is not echoed");
        c.st.evals++;
        c.st.distinct.insert(hashStr(o, hashStr(what)));
        if (!n || !least) return;
        // where are we?
        Op q; q.kind = OP_ABS; q.text = ".";
        size_t ev = s.ev.size();
        s.op(q);
        if (s.ev.size() <= ev || s.ev.back().args.size() < 2) return bad("no answer about the current directory");
        std::string cwd = s.ev.back().args[1];
        if (cwd.empty() || cwd[0] != '/') { c.st.add("prompts.not.located"); return; }   // does not fit in the path limit
        std::string name = cwd == "/" ? "/" : cwd.substr(cwd.rfind('/') + 1);
        if (o.substr(last) != head + name + suf + rest) return bad("the output does not end with the prompt of the current directory " + cwd);
        c.st.add("prompts.located");
    };
    s.run();
    judge(0, 1, 1, "", "start");
    std::string pending;                 // typed and not finished
    for (auto& st : ep.steps) {
        if (s.dead || c.violated) break;
        size_t from = s.out.size();
        if (st.kind == ST_API) {
            s.op(st.op);
            s.run();
            size_t n = 0;
            switch (st.op.kind) {
            case OP_PRINT: case OP_PRINT_NN: case OP_PRINTF: case OP_PRINTF_BAD: case OP_STATUS: case OP_FLUSH: case OP_RESET: n = 1; break;
            default: break;
            }
            if (st.op.kind == OP_RESET) judge(from, 1, 1, "", describe(st.op));
            else judge(from, n, n, "", describe(st.op));
            if (!n && s.out.size() != from) c.report("kind: output\n" + describe(st.op) + " shows something: " + esc(s.out.substr(from)) + "\n" + describe(ep));
            c.st.add(n ? "api.prints" : "api.silent");
            pending.clear();
            continue;
        }
        s.feedBytes(st.bytes);
        s.run();
        size_t lines = 0, tabs = 0;
        bool plain = true;
        for (char ch : st.bytes) {
            lines += ch == '\r' || ch == '\n' || ch == 3;
            tabs += ch == '\t';
            plain &= ch != 3 && ch != '\t';
        }
        std::string echo, rest = st.bytes.substr(st.bytes.find_last_of("\r\n\3") + 1);   // the beginning of a further line
        if (lines && rest.find('\t') != std::string::npos) { c.st.add("steps.unjudged"); continue; }
        if (plain && lines == 1 && (st.bytes.back() == '\r' || st.bytes.back() == '\n')) { echo = st.bytes.substr(0, st.bytes.size() - 1) + (st.bytes.back() == '\r' ? "\r\n" : "\n"); c.st.add("lines.echoed"); }
        judge(from, lines, lines + tabs, echo, "typing \"" + esc(st.bytes) + "\"", rest);
        c.st.add("lines", lines);
        size_t o = s.out.size();
        for (int i = 0; i < 3 && !s.dead; i++) s.service();
        if (s.out.size() != o) c.report("kind: output\nsomething is shown while waiting: " + esc(s.out.substr(o)) + "\n" + describe(ep));
    }
    c.st.add("bytes.out", s.out.size());
    c.st.add("services", s.services);
    c.st.add("callbacks", s.ev.size());
    if (c.st.samples.empty()) c.st.sample(describe(ep).substr(0, 2500));
}
