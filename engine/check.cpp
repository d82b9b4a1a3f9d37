#include "check.hpp"

const std::set<std::string> KINDS_DEFAULT = {"progress", "argv", "const-data", "isolation", "mount", "deinit"};
const std::set<std::string> KINDS_ALL = {"progress", "argv", "const-data", "isolation", "mount", "deinit", "io-discipline", "retry", "return-value"};

Lock::Lock(const Episode& e, uint64_t seed, const Sched& s, Stats* stats, uint32_t ownDomains)
    : ep(e), r(&e.world, seed), st(stats), own(ownDomains) {
    r.sched = s;
    m.init(&e.world);
}

void Lock::collectViol(const std::string& what) {
    if (bad.ok && !r.viols.empty()) {
        bad.ok = false;
        bad.kind = r.viols[0].kind;
        bad.text = "after " + what + ": " + r.viols[0].text;
        for (size_t i = m.marks.size(); i-- > 0;) if (m.marks[i].domain != D_EDIT || i == 0) { bad.domain = m.marks[i].domain; break; }
    }
}

static std::string around(const std::string& s, size_t at) {
    size_t b = at > 60 ? at - 60 : 0;
    return "..." + esc(s.substr(b, at - b)) + " >>> " + esc(s.substr(at, 160));
}
static std::string aroundE(const std::vector<uint16_t>& v, size_t at) {
    std::string s;
    size_t b = at > 60 ? at - 60 : 0, n = 0;
    for (size_t i = b; i < at; i++) s += (char)v[i];
    n = s.size();
    for (size_t i = at; i < v.size() && i < at + 160; i++) s += (char)v[i];
    return "..." + esc(s.substr(0, n)) + " >>> " + esc(s.substr(n));
}

bool Lock::compare(const std::string& what) {
    if (!bad.ok) return false;
    std::vector<size_t> pos;
    size_t base = eo;
    bool differ = false;
    while (eo < m.out.size()) {
        pos.push_back(ro);
        uint16_t x = m.out[eo];
        bool match = ro < r.out.size() && (unsigned char)r.out[ro] == (x & 0xff);
        if (match) ro++;
        else if (!(x & OPTIONAL)) { differ = true; break; }
        eo++;
    }
    if (!differ && ro < r.out.size()) differ = true;
    if (differ) {
        bad.ok = false;
        bad.kind = "output";
        size_t k = m.marks.size();
        bool extra = eo >= m.out.size();
        while (k-- > 0) {
            if (extra ? (m.marks[k].out < eo || k == 0) : m.marks[k].out <= eo) break;
        }
        if (k == (size_t)-1) k = 0;
        bad.domain = m.marks.empty() ? (uint32_t)D_EDIT : m.marks[k].domain;
        bad.text = "after " + what + " [" + domainName(bad.domain) + " \"" + (m.marks.empty() ? "" : esc(m.marks[k].what, 200)) +
                   "\"] output differs\n  expected: " + aroundE(m.out, eo) + "\n  observed: " + around(r.out, ro);
        // events may explain it
    }
    size_t n = std::max(m.ev.size(), r.ev.size());
    for (size_t i = e0; i < n; i++) {
        bool both = i < m.ev.size() && i < r.ev.size();
        if (both && m.ev[i] == r.ev[i]) continue;
        if (!bad.ok && bad.kind == "output" && i < r.ev.size() && r.ev[i].outPos > ro) break; // output diverged before
        uint32_t dom = 0;
        std::string line;
        for (size_t k = m.marks.size(); k-- > 0;) {
            if (m.marks[k].domain == D_EDIT) continue;
            if (i < m.ev.size() ? m.marks[k].ev <= i : (m.marks[k].ev <= m.ev.size())) { dom = m.marks[k].domain; line = m.marks[k].what; break; }
        }
        bad.ok = false;
        bad.kind = "event";
        bad.domain = dom;
        bad.text = "after " + what + " [" + domainName(dom) + " \"" + esc(line, 200) + "\"] callbacks differ\n  expected: " +
                   (i < m.ev.size() ? describe(m.ev[i]) : "(none)") + "\n  observed: " + (i < r.ev.size() ? describe(r.ev[i]) : "(none)");
        break;
    }
    if (!bad.ok) return false;
    // a callback belongs to its command: it comes after everything shown before the command and before what follows it
    for (size_t i = e0; i < r.ev.size(); i++) {
        size_t k = m.marks.size();
        while (k-- > 0) if (m.marks[k].ev <= i && m.marks[k].domain != D_EDIT) break;
        if (k == (size_t)-1 || m.marks[k].out < base) continue;
        size_t lo = m.marks[k].out - base < pos.size() ? pos[m.marks[k].out - base] : ro;
        size_t hi = ro;
        if (k + 1 < m.marks.size() && m.marks[k + 1].out - base < pos.size()) hi = pos[m.marks[k + 1].out - base];
        if (r.ev[i].outPos < lo || r.ev[i].outPos > hi) {
            bad.ok = false;
            bad.kind = "order";
            bad.domain = m.marks[k].domain;
            bad.text = "after " + what + " callback " + describe(r.ev[i]) + " at output position " + std::to_string(r.ev[i].outPos) +
                       ", expected between " + std::to_string(lo) + " and " + std::to_string(hi);
            return false;
        }
    }
    e0 = r.ev.size();
    return true;
}

bool Lock::start() {
    r.init();
    for (auto& s : ep.setup) {
        m.setupOp(s.op);
        r.op(s.op);
    }
    m.boot();
    r.run();
    collectViol("start");
    return compare("start");
}

bool Lock::step(const Step& s) {
    size_t mk = m.marks.size(), mo = m.out.size();
    if (s.kind == ST_TYPE) for (char c : s.bytes) m.feed(c);
    else m.api(s.op);
    r.outLimit = r.out.size() + (m.out.size() - mo) + 100000;
    r.step(s);
    uint32_t d = 0;
    for (size_t k = mk; k < m.marks.size(); k++) {
        d |= m.marks[k].domain;
        if (st && (m.marks[k].domain & own)) {
            size_t end = k + 1 < m.marks.size() ? m.marks[k + 1].out : m.out.size();
            uint64_t h = hashStr(m.marks[k].what);
            for (size_t i = m.marks[k].out; i < end; i++) { h ^= m.out[i]; h *= 1099511628211ull; }
            if (st->distinct.size() < 2000000) st->distinct.insert(h);
            st->evals++;
            st->add("observed." + domainName(m.marks[k].domain));
        }
    }
    if (mk == m.marks.size() && (own & D_EDIT) && st && m.out.size() > mo) {
        st->evals++;
        st->add("observed.edit");
        st->distinct.insert(hashStr(m.line, hashStr(s.bytes)));
    }
    stepDomains.push_back(d);
    std::string what = s.kind == ST_TYPE ? "typing \"" + esc(s.bytes, 200) + "\"" : describe(s.op);
    collectViol(what);
    return compare(what);
}

void Lock::resync() {
    eo = m.out.size();
    ro = r.out.size();
    m.ev = r.ev;
    e0 = r.ev.size();
    m.mark(D_EDIT, "");
}

bool Lock::finish() {
    if (!bad.ok) return false;
    r.finish();
    collectViol("the end");
    return bad.ok;
}

bool Lock::all() {
    if (!start()) return false;
    for (size_t i = 0; i < ep.steps.size(); i++) {
        bad.step = i;
        if (!step(ep.steps[i])) return false;
    }
    bool ok = finish();
    if (st) {
        for (auto& kv : m.seen) st->add("model." + kv.first, kv.second);
        st->add("bytes.out", r.out.size());
        st->add("callbacks", r.ev.size());
        st->add("services", r.services);
        st->add("refused.writes", r.sched.refusedW);
        st->add("refused.reads", r.sched.refusedR);
        st->maxOf("line.services_without_progress", r.maxSinceProgress);
    }
    return ok;
}

Verdict judge(const Episode& ep, uint64_t seed, const Sched& s, Stats& st, uint32_t own, const std::set<std::string>& kinds) {
    Lock l(ep, seed, s, &st, own);
    Verdict v;
    if (l.all()) return v;
    Outcome& b = l.bad;
    bool functional = b.kind == "output" || b.kind == "event" || b.kind == "order";
    bool mine = functional ? (b.domain & own & ~(uint32_t)D_ERROR) || ((own & D_ERROR) && (b.domain & D_ERROR)) : kinds.count(b.kind) != 0;
    std::string extra;
    if (!mine && functional) {
        // does it depend on own commands executed earlier?
        std::set<int> drop;
        for (size_t i = 0; i < l.stepDomains.size() && i < b.step; i++)
            if (l.stepDomains[i] & own & ~(uint32_t)(D_EDIT | D_ERROR)) drop.insert(ep.steps[i].group);
        drop.erase(ep.steps.empty() ? -1 : ep.steps[b.step].group);
        if (!drop.empty()) {
            Episode e2 = ep;
            e2.steps.clear();
            for (size_t i = 0; i <= b.step; i++) if (!drop.count(ep.steps[i].group)) e2.steps.push_back(ep.steps[i]);
            Lock l2(e2, seed, s, nullptr, 0);
            if (l2.all()) { mine = true; extra = "  (does not happen without the preceding commands of this property)\n"; }
        }
    }
    if (!mine) {
        st.foreign++;
        st.foreignBy[functional ? domainName(b.domain) : b.kind]++;
        if (st.foreignBy[functional ? domainName(b.domain) : b.kind] == 1)
            st.samples.push_back("foreign divergence (not of this property): " + b.kind + " " + b.text.substr(0, 600));
        return v;
    }
    v.violation = true;
    v.text = "kind: " + b.kind + "\n" + b.text + "\n" + extra + "step: " + std::to_string(b.step) + "\n";
    Episode e2 = ep;
    if (b.step + 1 < e2.steps.size()) e2.steps.resize(b.step + 1);
    v.text += describe(e2);
    return v;
}
