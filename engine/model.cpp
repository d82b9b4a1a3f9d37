#include "model.hpp"
#include <algorithm>

std::vector<FileSpec> BUILTIN;
Features FEAT;

static const char* C_MAG() { return FEAT.styles ? "\x1b[35m" : ""; }
static const char* C_GRN() { return FEAT.styles ? "\x1b[32m" : ""; }
static const char* C_YEL() { return FEAT.styles ? "\x1b[33m" : ""; }
static const char* C_RST() { return FEAT.styles ? "\x1b[0m" : ""; }

void initBuiltin() {
    BUILTIN.clear();
    if (!FEAT.commands) return;
    auto add = [&](bool on, const char* n, const char* d, const char* h) {
        if (!on) return;
        FileSpec f;
        f.name = n; f.desc = d; f.help = h; f.hasDesc = f.hasHelp = f.exec = true;
        BUILTIN.push_back(f);
    };
    add(FEAT.help, "help", "list available commands", "usage: help [file]\r\n");
    add(FEAT.ls, "ls", "list directory content", "usage: ls [path]\r\n");
    add(FEAT.cd, "cd", "change current directory", "usage: cd <path>\r\n");
    add(FEAT.pwd, "pwd", "print current directory", "usage: pwd\r\n");
    add(FEAT.cat, "cat", "print files content", "usage: cat <files...>\r\n");
    add(FEAT.xxd, "xxd", "dump file hex content", "usage: xxd <file>\r\n");
    add(FEAT.echo, "echo", "print string to file",
        "usage: echo <string> > <file>\r\n       echo [string]\r\n       * can be ascii-hex encoded string with \\xNN format.\r\n");
}

std::string domainName(uint32_t d) {
    static const char* n[] = {"boot", "edit", "tab", "ctrlc", "empty", "user", "unknown", "ls", "help", "cd", "pwd", "cat",
                              "xxd", "echo", "api-print", "api-tree", "api-path", "api-reset", "overlong", "error", "cbtree"};
    std::string o;
    for (int i = 0; i < 21; i++)
        if (d & (1u << i)) o += (o.empty() ? "" : "+") + std::string(n[i]);
    return o;
}

void Model::mark(uint32_t dom, const std::string& what) { marks.push_back({out.size(), ev.size(), dom, what}); }
void Model::emit(const std::string& s, uint16_t flag) {
    for (unsigned char c : s) out.push_back((uint16_t)(c | flag));
}

std::string Model::flatOut() const {
    std::string s;
    for (uint16_t c : out) if (!(c & OPTIONAL)) s += (char)c;
    return s;
}

void Model::init(const World* world) {
    w = world;
    tree.clear(); groups.clear();
    if (FEAT.commands && !BUILTIN.empty()) groups.push_back(-1);
    cwd = "";
    line.clear(); esc = 0;
    wbIsOut = false; written = 0; outbuf.clear();
    pend = false;
    contents.clear(); reads.clear();
}

std::string Model::parentOf(const std::string& p) {
    if (p == "/") return "";
    size_t k = p.rfind('/');
    return k == 0 ? "/" : p.substr(0, k);
}
std::string Model::lastOf(const std::string& p) {
    if (p == "/") return p;
    return p.substr(p.rfind('/') + 1);
}

std::string Model::promptText() const {
    return std::string(C_MAG()) + "[" + w->host + " " + lastOf(cwd) + "]$ " + C_RST();
}
void Model::prompt() {
    emit(promptText());
    wbIsOut = false;
    line.clear();
    esc = 0;
}

void Model::boot() {
    mark(D_BOOT, "welcome");
    emit("uShell 0.1.0\r\n");
    prompt();
}

// ---- tree -------------------------------------------------------------------------------------
static bool wellFormed(const std::string& p) {
    if (p == "/") return true;
    if (p.size() < 2 || p[0] != '/' || p.back() == '/') return false;
    return p.find("//") == std::string::npos;
}

int Model::mountOp(const std::string& path, int dir) {
    // 4: already mounted, 3: no parent
    if (wellFormed(path)) {
        if (tree.count(path)) return 4;
        if (path == "/") {
            tree[path] = MNode{path, dir, {}};
            cwd = "/";
            return 0;
        }
        auto par = tree.find(parentOf(path));
        if (par == tree.end()) return 3;
        par->second.children.insert(par->second.children.begin(), path);
        tree[path] = MNode{path, dir, {}};
        return 0;
    }
    return 3;
}

int Model::unmountOp(const std::string& path) {
    auto it = tree.find(path);
    if (it == tree.end()) return 1;
    if (!it->second.children.empty()) return 2;
    std::string par = parentOf(path);
    if (par.empty()) { tree.erase(it); return 0; }
    auto& ch = tree[par].children;
    ch.erase(std::find(ch.begin(), ch.end(), path));
    tree.erase(it);
    if (cwd == path) cwd = par;
    return 0;
}

bool Model::resolve(const std::string& p, std::string& abs) const {
    std::string s = p;
    if (p.empty() || p[0] != '/') s = (cwd == "/" ? "/" : cwd + "/") + p;
    if (s.size() + 1 > w->pathMax) return false;
    std::vector<std::string> st;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i + 1);
        if (j == std::string::npos) j = s.size();
        std::string comp = s.substr(i + 1, j - i - 1);
        if (comp == "..") { if (!st.empty()) st.pop_back(); }
        else if (!comp.empty() && comp != ".") st.push_back(comp);
        i = j;
    }
    abs.clear();
    for (auto& c : st) abs += "/" + c;
    if (abs.empty()) abs = "/";
    return true;
}

const FileSpec& Model::spec(FileRef r) const {
    if (r.list == -1) return BUILTIN[r.idx];
    if (r.list >= 0) return w->dirs[r.list].files[r.idx];
    return w->groups[-2 - r.list].files[r.idx];
}
std::string Model::fileId(FileRef r) const {
    if (r.list == -1) return "builtin:" + BUILTIN[r.idx].name;
    if (r.list >= 0) return "d" + std::to_string(r.list) + "." + std::to_string(r.idx);
    return "g" + std::to_string(-2 - r.list) + "." + std::to_string(r.idx);
}

const std::vector<FileSpec>& Model::filesOf(int g) const {
    if (g == -1) return BUILTIN;
    int a = w->groups[g].alias;
    return a == -1 ? w->groups[g].files : a >= 0 ? w->dirs[a].files : w->groups[-2 - a].files;
}

FileRef Model::findFile(const std::string& name) const {
    FileRef r;
    for (int g : groups) {
        const std::vector<FileSpec>& fl = filesOf(g);
        for (size_t i = 0; i < fl.size(); i++)
            if (fl[i].name == name) {
                int a = g == -1 ? -1 : w->groups[g].alias;
                r.list = g == -1 ? -1 : a == -1 ? -2 - g : a;
                r.idx = (int)i;
                return r;
            }
    }
    std::string abs;
    if (!resolve(name, abs) || abs == "/") return r;
    auto it = tree.find(parentOf(abs));
    if (it == tree.end()) return r;
    std::string last = lastOf(abs);
    auto& fl = w->dirs[it->second.dir].files;
    for (size_t i = 0; i < fl.size(); i++)
        if (fl[i].name == last && abs.size() + 1 <= w->pathMax) { r.list = it->second.dir; r.idx = (int)i; return r; }
    return r;
}

std::string Model::content(FileRef r) {
    const FileSpec& f = spec(r);
    int n = reads[{r.list, r.idx}]++;
    std::string own;
    if (onRead && onRead(r, own)) return own;
    auto it = contents.find({r.list, r.idx});
    const std::string& base = it != contents.end() ? it->second : f.content;
    if (f.get == GET_EMPTY) return "";
    if (f.get == GET_COUNTER) return "#" + std::to_string(n) + " " + base;
    return base;
}

// ---- parsing ----------------------------------------------------------------------------------
std::vector<std::string> Model::parse(const std::string& t) {
    std::vector<std::string> a;
    size_t i = 0;
    while (true) {
        while (i < t.size() && t[i] == ' ') i++;
        if (i >= t.size()) return a;
        std::string cur;
        bool quoted = false;
        for (; i < t.size(); i++) {
            char c = t[i];
            if (c == '\\') {
                if (++i >= t.size()) break;
                if (t[i] == 'x') cur += '\\';
                cur += t[i];
            } else if (c == '"') {
                quoted = !quoted;
            } else if (c == ' ' && !quoted) {
                break;
            } else {
                cur += c;
            }
        }
        a.push_back(cur);
    }
}

static int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return 0;
}

std::string Model::decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { o += s[i]; continue; }
        if (++i >= s.size()) break;
        if (s[i] != 'x') { o += s[i]; continue; }
        if (i + 2 >= s.size()) break;   // incomplete sequence is dropped
        o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
        i += 2;
    }
    return o;
}

// ---- pending output ---------------------------------------------------------------------------
void Model::finishPending() {
    if (pend) {
        out.insert(out.end(), pendText.begin(), pendText.end());
        if (pendNewline) emit("\r\n");
    }
    pend = false;
    prompt();
}

static std::vector<uint16_t> wide(const std::string& s) {
    std::vector<uint16_t> v;
    for (unsigned char c : s) v.push_back(c);
    return v;
}

void Model::status(int st) {
    if (st != 0) lineError = true;
    pend = true;
    pendText = wide(FEAT.status[st]);
    pendNewline = true;
    wbIsOut = false;
}

void Model::runOp(const Op& op, const std::vector<std::string>* argv) {
    auto ret = [&](int st) { ev.push_back({EV_RET, "", {std::to_string(op.kind), std::to_string(st)}}); };
    auto cstr = [](const std::string& s) { return s.substr(0, s.find('\0')); };
    if (op.kind >= OP_MOUNT && op.kind <= OP_PARENT) cbTree = true;
    switch (op.kind) {
    case OP_PRINT:
    case OP_PRINT_NN:
    case OP_PRINT_ARG: {
        std::string t = op.text;
        if (op.kind == OP_PRINT_ARG) t = argv && !argv->empty() ? (*argv)[op.n % argv->size()] : "";
        pend = true; wbIsOut = false;
        pendText = wide(cstr(t));
        pendNewline = op.kind != OP_PRINT_NN;
        break;
    }
    case OP_PRINTF:
    case OP_PRINTF_BAD: {
        if (!wbIsOut) { outbuf.clear(); wbIsOut = true; written = 0; outNul = false; }
        std::string t;
        if (op.kind == OP_PRINTF) {
            if (op.n % 3 == 1) t = "<" + op.text + "|" + std::to_string(op.n) + ">";
            else t = op.text;
        }
        size_t room = w->outSize - outbuf.size();
        bool overflow = t.size() > room - 1;
        bool bad = op.kind == OP_PRINTF_BAD;
        outbuf += t.substr(0, room - 1);
        if (overflow || bad) {
            std::string msg = bad ? "...format error\r\n" : "...overflow error\r\n";
            if (w->outSize - outbuf.size() > msg.size()) {
                outbuf += msg;
            } else {
                size_t end = w->outSize > msg.size() + 1 ? w->outSize - msg.size() - 1 : 0;
                outbuf = (outbuf.substr(0, end) + msg).substr(0, w->outSize - 1);
                outNul = true;
            }
        }
        pend = true;
        pendNewline = false;
        pendText = wide(outbuf.substr(std::min(written, outbuf.size())));
        if (outNul) pendText.push_back(0 | OPTIONAL);
        break;
    }
    case OP_STATUS:
        status(op.n % (int)FEAT.status.size());
        break;
    case OP_FLUSH:
        outbuf = cstr(op.text).substr(0, w->outSize - 1);
        pend = true; pendNewline = false; wbIsOut = true; written = 0; outNul = false;
        pendText = wide(outbuf);
        break;
    case OP_PROCESS: {
        pend = false;
        const FileSpec& f = spec(curFile);
        if (!f.proc) { pend = true; pendText.clear(); pendNewline = true; wbIsOut = false; seen["process.none"]++; break; }
        seen["process"]++;
        ev.push_back({EV_PROC, fileId(curFile), {}});
        for (auto& p : f.pieces) if (!p.empty()) { emit(cstr(p)); wbIsOut = false; }
        for (auto& t : f.tail) runOp(t, nullptr);
        break;
    }
    case OP_RESET:
        cwd = "/";
        pend = true; wbIsOut = false; pendNewline = false;
        pendText = wide("uShell 0.1.0\r\n");
        break;
    case OP_MOUNT: ret(mountOp(op.text, op.n)); break;
    case OP_UNMOUNT: ret(unmountOp(op.text)); break;
    case OP_ADD:
        if (std::find(groups.begin(), groups.end(), op.n) == groups.end()) groups.insert(groups.begin(), op.n);
        ret(0);
        break;
    case OP_REMOVE: {
        auto it = std::find(groups.begin(), groups.end(), op.n);
        if (it == groups.end()) { ret(1); break; }
        groups.erase(it);
        ret(0);
        break;
    }
    case OP_CD: {
        std::string abs;
        if (op.text.empty() || !resolve(op.text, abs) || !tree.count(abs)) { ret(1); break; }
        cwd = abs;
        ret(0);
        break;
    }
    case OP_FIND: {
        FileRef r = findFile(op.text);
        ev.push_back({EV_RET, "", {"find", r.valid() ? fileId(r) : "none"}});
        break;
    }
    case OP_ABS: {
        std::string abs;
        ev.push_back({EV_RET, "", {"abs", resolve(op.text, abs) ? abs : "."}});
        break;
    }
    case OP_NODE: {
        auto it = tree.find(op.text);
        ev.push_back({EV_RET, "", {"node", it == tree.end() ? "none" : it->first}});
        break;
    }
    case OP_PARENT: {
        auto it = op.text == "/" ? tree.end() : tree.find(parentOf(op.text));
        ev.push_back({EV_RET, "", {"parent", it == tree.end() ? "none" : it->first}});
        break;
    }
    default: break;
    }
}

void Model::runOps(const std::vector<Op>& ops, const std::vector<std::string>* argv) {
    for (auto& op : ops) {
        if (op.kind == OP_ARGC && argv && (int)argv->size() != op.n) { status(6); return; }
        runOp(op, argv);
    }
}

static uint32_t opDomain(const Op& op) {
    switch (op.kind) {
    case OP_MOUNT: case OP_UNMOUNT: case OP_ADD: case OP_REMOVE: case OP_NODE: case OP_PARENT: return D_API_TREE;
    case OP_CD: case OP_FIND: case OP_ABS: return D_API_PATH;
    case OP_RESET: return D_API_RESET;
    default: return D_API_PRINT;
    }
}

void Model::setupOp(const Op& op) {
    mark(opDomain(op), "setup");
    runOp(op, nullptr);
    pend = false;
}

void Model::api(const Op& op) {
    mark(opDomain(op), "api " + describe(op));
    runOp(op, nullptr);
    if (pend) finishPending();
}

// ---- commands ---------------------------------------------------------------------------------
std::string Model::trunc(const std::string& s) const { return s.substr(0, w->outSize - 1); }

static std::string padded(const std::string& s) {
    std::string o = s;
    while ((int)o.size() < FEAT.align) o += ' ';
    return o;
}

void Model::execute(const std::string& text) {
    std::vector<std::string> argv = parse(text);
    pend = false;
    lineError = false;
    cbTree = false;
    if (argv.empty()) {
        mark(D_EMPTY, text);
        prompt();
        return;
    }
    mark(0, text);
    size_t mk = marks.size() - 1;
    if (w->general) {
        ev.push_back({EV_GENERAL, "", argv});
        runOps(w->generalProg, &argv);
    }
    FileRef r = findFile(argv[0]);
    uint32_t dom = D_UNKNOWN;
    if (!r.valid()) {
        status(5);
    } else if (!spec(r).exec) {
        status(7);
    } else if (r.list != -1) {
        dom = D_USER;
        ev.push_back({EV_EXEC, fileId(r), argv});
        curFile = r;
        runOps(spec(r).prog, &argv);
    } else {
        const std::string& cmd = BUILTIN[r.idx].name;
        size_t n = argv.size();
        auto readable = [&](const std::string& a, FileRef& f) {
            f = findFile(a);
            if (!f.valid()) { status(11); return false; }
            if (spec(f).get == GET_NONE) { status(9); return false; }
            return true;
        };
        auto get = [&](FileRef f) {
            ev.push_back({EV_GET, fileId(f), {}});
            std::string c = content(f);
            runOps(spec(f).getProg, nullptr);
            return c;
        };
        if (cmd == "pwd") {
            dom = D_PWD;
            if (n != 1) status(6);
            else { pend = true; pendText = wide(cwd); pendNewline = true; wbIsOut = false; }
        } else if (cmd == "cd") {
            dom = D_CD;
            if (n != 2) status(6);
            else {
                std::string abs;
                if (argv[1].empty() || !resolve(argv[1], abs) || !tree.count(abs)) status(1);
                else cwd = abs;
            }
        } else if (cmd == "ls") {
            dom = D_LS;
            std::string abs = cwd;
            if (n > 2) status(6);
            else if (n == 2 && (!resolve(argv[1], abs) || !tree.count(abs))) status(1);
            else {
                pend = false;
                emit(std::string("d---- ") + C_GRN() + "." + C_RST() + "\r\n");
                if (abs != "/") emit(std::string("d---- ") + C_GRN() + ".." + C_RST() + "\r\n");
                const MNode& nd = tree[abs];
                for (auto& c : nd.children) emit(std::string("d---- ") + C_GRN() + lastOf(c) + "/" + C_RST() + "\r\n");
                for (auto& f : w->dirs[nd.dir].files) {
                    std::string p = "-";
                    p += f.get != GET_NONE ? 'r' : '-';
                    p += f.set != SET_NONE ? 'w' : '-';
                    p += f.exec ? 'x' : '-';
                    p += f.hasHelp ? 'h' : '-';
                    emit(trunc(p + " "));
                    if (f.hasDesc) emit(trunc(padded(f.name) + " " + C_YEL() + "- ") + f.desc + C_RST() + "\r\n");
                    else emit(trunc(f.name) + "\r\n");
                }
                wbIsOut = false;
            }
        } else if (cmd == "help") {
            dom = D_HELP;
            if (n > 2) status(6);
            else if (n == 2) {
                FileRef f = findFile(argv[1]);
                if (!f.valid()) status(11);
                else if (!spec(f).hasHelp) status(10);
                else { pend = true; pendText = wide(spec(f).help); pendNewline = false; wbIsOut = false; }
            } else {
                pend = false;
                for (int g : groups)
                    for (auto& f : filesOf(g)) {
                        if (f.hasDesc) emit(trunc(padded(f.name) + " " + C_YEL() + "- ") + f.desc + C_RST() + "\r\n");
                        else emit(trunc(f.name) + "\r\n");
                    }
                wbIsOut = false;
            }
        } else if (cmd == "cat") {
            dom = D_CAT;
            bool ok = n >= 2;
            if (!ok) status(6);
            std::vector<FileRef> fs;
            for (size_t i = 1; ok && i < n; i++) {
                FileRef f;
                ok = readable(argv[i], f);
                fs.push_back(f);
            }
            if (ok) {
                pend = false;
                size_t i = 1;
                for (auto f : fs) {
                    // the getter of a previous file may have changed what there is
                    FileRef again = findFile(argv[i++]);
                    if (!again.valid() || spec(again).get == GET_NONE) { status(11); lineError = true; seen["cat.gone"]++; break; }
                    f = again;
                    std::string c = get(f);
                    emit(c);
                    if (!c.empty()) wbIsOut = false;
                }
            }
        } else if (cmd == "xxd") {
            dom = D_XXD;
            FileRef f;
            if (n != 2) status(6);
            else if (readable(argv[1], f)) {
                pend = false;
                std::string c = get(f);
                size_t off = 0;
                do {
                    char b[32];
                    snprintf(b, sizeof b, "%08lX: ", (unsigned long)off);
                    emit(trunc(b));
                    std::string hex, asc;
                    for (int i = 0; i < FEAT.columns; i++) {
                        if (off + i < c.size()) {
                            unsigned char ch = (unsigned char)c[off + i];
                            snprintf(b, sizeof b, "%02X ", ch);
                            hex += b;
                            asc += ch >= 0x20 && ch < 0x7f ? (char)ch : '.';
                        } else {
                            hex += "   ";
                            asc += " ";
                        }
                    }
                    emit(trunc(hex + " "));
                    emit(trunc(asc));
                    emit("\r\n");
                    off += FEAT.columns;
                } while (off < c.size());
                wbIsOut = false;
            }
        } else if (cmd == "echo") {
            dom = D_ECHO;
            if (n == 1) { pend = true; pendText.clear(); pendNewline = true; wbIsOut = false; }
            else if (n == 2) {
                std::string d = decode(argv[1]);
                pend = true; pendText = wide(d.substr(0, d.find('\0'))); pendNewline = true; wbIsOut = false;
            } else if (n == 4 && argv[2] == ">") {
                FileRef f = findFile(argv[3]);
                if (!f.valid()) status(11);
                else if (spec(f).set == SET_NONE) status(8);
                else {
                    std::string d = decode(argv[1]);
                    ev.push_back({EV_SET, fileId(f), {d}});
                    if (onWrite) onWrite(f, d);
                    if (spec(f).set == SET_STORE) contents[{f.list, f.idx}] = d;
                    runOps(spec(f).setProg, nullptr);
                }
            } else status(6);
        }
        seen["builtin." + cmd + (lineError ? ".error" : ".ok")]++;
    }
    if (dom == D_USER) seen["user.exec"]++;
    if (dom == D_UNKNOWN) seen["unknown"]++;
    marks[mk].domain = dom | (lineError ? (uint32_t)D_ERROR : 0u) | (cbTree ? (uint32_t)D_CBTREE : 0u);
    finishPending();
}

std::vector<std::string> Model::candidates(const std::string& token) const {
    std::vector<std::string> c;
    auto consider = [&](const std::string& n) { if (n.compare(0, token.size(), token) == 0) c.push_back(n); };
    for (int g : groups)
        for (auto& f : filesOf(g)) consider(f.name);
    auto it = tree.find(cwd);
    if (it != tree.end()) {
        for (auto& f : w->dirs[it->second.dir].files) consider(f.name);
        for (auto& ch : it->second.children) consider(lastOf(ch));
    }
    return c;
}

void Model::tab() {
    if (!FEAT.autocomp) return;
    mark(D_TAB, line);
    std::string token = line.substr(line.rfind(' ') == std::string::npos ? 0 : line.rfind(' ') + 1);
    std::vector<std::string> c = candidates(token);
    if (c.empty()) { seen["tab.none"]++; mark(D_EDIT, ""); return; }
    std::string lcp = c[0];
    for (auto& n : c) {
        size_t k = 0;
        while (k < lcp.size() && k < n.size() && lcp[k] == n[k]) k++;
        lcp.resize(k);
    }
    size_t room = w->inSize - 1 - line.size();
    std::string ext = lcp.substr(token.size()).substr(0, room);
    wbIsOut = false;
    if (c.size() == 1 || !ext.empty()) {
        seen[c.size() == 1 ? "tab.single" : "tab.prefix"]++;
        if (lcp.size() - token.size() > room) seen["tab.cut"]++;
        emit(ext);
        line += ext;
    } else {
        seen["tab.list"]++;
        emit("\r\n");
        for (auto& n : c) emit(n + "\r\n");
        emit(promptText());
        emit(line);
    }
    mark(D_EDIT, "");
}

void Model::feed(char c) {
    switch (c) {
    case 0x03:
        mark(D_CTRLC, line);
        emit("^C\r\n");
        prompt();
        mark(D_EDIT, "");
        seen["ctrlc"]++;
        return;
    case 0x08:
    case 0x7f:
        if (line.empty()) { seen["bs.empty"]++; return; }
        seen["bs"]++;
        line.pop_back();
        emit("\b \b");
        outNul = false; outbuf = "\b \b"; wbIsOut = true; written = 3;
        return;
    case 0x09:
        tab();
        return;
    case 0x1b:
        seen["esc"]++;
        esc = 1;
        return;
    default:
        break;
    }
    if (esc == 1) { esc = (c == '[' || c == 'O') ? 2 : 0; return; }
    if (esc == 2) { esc = 0; return; }
    if (c == '\n' || c == '\r') {
        seen[c == '\n' ? "enter.lf" : "enter.cr"]++;
        outNul = false; outbuf = c == '\r' ? "\r\n" : "\n";
        emit(outbuf);
        wbIsOut = true; written = outbuf.size();
        if (line.size() + 1 == w->inSize) seen["line.full"]++;
        execute(line);
        mark(D_EDIT, "");
        return;
    }
    line += c;
    emit(std::string(1, c));
    outNul = false; outbuf = std::string(1, c); wbIsOut = true; written = 1;
    if (line.size() >= w->inSize) {
        seen["line.overlong"]++;
        line.clear();
        overlongs++;
        mark(D_OVERLONG, "");
    }
}

// ---- descriptions -----------------------------------------------------------------------------
std::string describe(const Op& op) {
    static const char* n[] = {"print", "print_no_newline", "print_arg", "printf", "printf_bad", "status", "flush", "reset",
                              "mount", "unmount", "commands_add", "commands_remove", "set_current_dir", "find", "abspath",
                              "get_by_path", "get_parent_by_path", "reinit", "process", "argc"};
    return std::string(n[op.kind]) + "(\"" + esc(op.text, 200) + "\"," + std::to_string(op.n) + ")";
}
std::string describe(const Event& e) {
    static const char* n[] = {"general", "exec", "get", "set", "ret", "process"};
    std::string o = std::string(n[e.kind]) + " " + e.file + " [";
    for (auto& a : e.args) o += "\"" + esc(a, 300) + "\" ";
    return o + "]";
}
std::string describe(const Episode& ep) {
    std::string o;
    const World& w = ep.world;
    o += "input_buffer_size=" + std::to_string(w.inSize) + " output_buffer_size=" + std::to_string(w.outSize) +
         " path_max_length=" + std::to_string(w.pathMax) + " hostname=\"" + esc(w.host) + "\" general_exec=" +
         (w.general ? "yes" : "no") + "\n";
    auto list = [&](const char* t, const std::vector<ListSpec>& v) {
        for (size_t i = 0; i < v.size(); i++) {
            o += std::string(t) + std::to_string(i) + ":";
            size_t k = 0;
            for (auto& f : v[i].files) {
                if (++k > 40) { o += " ...(" + std::to_string(v[i].files.size()) + " files)"; break; }
                o += " \"" + esc(f.name, 80) + "\"(" + (f.exec ? "x" : "") + (f.get ? "r" + std::to_string(f.get) : "") +
                     (f.set ? "w" : "") + (f.hasHelp ? "h" : "") + (f.hasDesc ? "d" : "");
                for (auto& op : f.prog) o += " " + describe(op);
                if (f.proc) { o += " process"; for (auto& p : f.pieces) o += " \"" + esc(p, 40) + "\""; for (auto& op : f.tail) o += " " + describe(op); }
                for (auto& op : f.getProg) o += " get:" + describe(op);
                for (auto& op : f.setProg) o += " set:" + describe(op);
                if (f.get) o += " content=\"" + esc(f.content, 60) + "\"";
                o += ")";
            }
            if (v[i].alias != -1) o += " (same array as " + std::string(v[i].alias >= 0 ? "dir" : "group") + std::to_string(v[i].alias >= 0 ? v[i].alias : -2 - v[i].alias) + ")";
            o += "\n";
        }
    };
    list("dir", w.dirs);
    list("group", w.groups);
    auto steps = [&](const char* t, const std::vector<Step>& v) {
        size_t k = 0;
        for (auto& s : v) {
            if (++k > 400) { o += "  ...\n"; break; }
            o += std::string(t) + (s.kind == ST_TYPE ? "type \"" + esc(s.bytes, 1500) + "\"" : "api " + describe(s.op)) + "\n";
        }
    };
    steps("setup ", ep.setup);
    steps("step ", ep.steps);
    return o;
}
