#include "real.hpp"
#include "model.hpp"
#include <sys/mman.h>
#include <unistd.h>

thread_local RealShell* gCurrent = nullptr;

void loadFeatures() {
    FEAT.commands = vf_feature(0) == 1; FEAT.autocomp = vf_feature(1) == 1; FEAT.styles = vf_feature(2) == 1;
    FEAT.help = vf_feature(3) == 1; FEAT.ls = vf_feature(4) == 1; FEAT.cd = vf_feature(5) == 1; FEAT.pwd = vf_feature(6) == 1;
    FEAT.cat = vf_feature(7) == 1; FEAT.xxd = vf_feature(8) == 1; FEAT.echo = vf_feature(9) == 1;
    FEAT.align = vf_feature(10); FEAT.columns = vf_feature(11);
    FEAT.status.clear();
    for (int i = 0; i < 13; i++) FEAT.status.push_back(vf_status_text(i));
    initBuiltin();
}

extern "C" void vf_assert_failed(const char* file, int line) {
    const char* b = strrchr(file, '/');
    fprintf(stderr, "VF-ASSERT: %s:%d\n", b ? b + 1 : file, line);
    _exit(96);
}

// ---- schedules --------------------------------------------------------------------------------
Sched Sched::make(uint64_t seed, int mode) {
    Sched s;
    s.rng = Rng(seed);
    s.mode = mode;
    switch (mode) {
    case 0: break;
    case 1: s.rp = s.rng.range(5, 95); s.wp = s.rng.range(5, 95); break;
    case 2: s.rp = s.wp = 100; break;                       // bursts, see below
    case 3: s.rp = 100; s.wp = s.rng.range(2, 50); break;   // slow output
    case 4: s.rp = s.rng.range(2, 30); s.wp = 100; break;   // slow input
    case 5: s.longStall = 70000; s.stallAt = s.rng.below(400); break;
    default: break;
    }
    return s;
}
bool Sched::canRead() {
    if (mode == 0 || mode == 5) return true;
    bool ok;
    if (mode == 2) {
        if (rHold) { rHold--; ok = false; }
        else { if (rng.chance(15)) rHold = rng.below(40); ok = true; }
    } else ok = rng.chance(rp);
    if (!ok) refusedR++;
    return ok;
}
bool Sched::canWrite() {
    writes++;
    if (mode == 0) return true;
    bool ok;
    if (mode == 2) {
        if (wHold) { wHold--; ok = false; }
        else { if (rng.chance(15)) wHold = rng.below(60); ok = true; }
    } else if (mode == 5) {
        ok = true;
        if (writes > stallAt && longStall) { longStall--; ok = false; }
    } else ok = rng.chance(wp);
    if (!ok) refusedW++;
    return ok;
}

// ---- construction -----------------------------------------------------------------------------
void* RealShell::alloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (arenaUsed + n > arenaSize) { fprintf(stderr, "harness: arena too small\n"); _exit(3); }
    void* p = arena + arenaUsed;
    arenaUsed += n;
    return p;
}
const char* RealShell::str(const std::string& s) {
    char* p = (char*)alloc(s.size() + 1);
    memcpy(p, s.data(), s.size());
    p[s.size()] = 0;
    return p;
}

// What memory may hold before it is given to the shell: noise, one byte everywhere, or small numbers
void RealShell::fill(void* p, size_t n) {
    uint8_t* b = (uint8_t*)p;
    static const uint8_t same[] = {0xff, 0x00, 0x01, 0x7f};
    for (size_t i = 0; i < n; i++) b[i] = fillKind < 3 ? (uint8_t)rng.next() : fillKind < 7 ? same[fillKind - 3] : 0;
    if (fillKind < 7) return;
    size_t word = rng.chance(50) ? 8 : 4;
    for (size_t i = 0; i < n; i += word) b[i] = (uint8_t)rng.below(30);
}

RealShell::RealShell(const World* world, uint64_t seed, bool garbage) : w(world), rng(seed ^ 0x5eed) {
    size_t need = 4096 + world->host.size();
    size_t nfiles = 0, longest = 16;
    for (auto* v : {&w->dirs, &w->groups})
        for (auto& l : *v)
            for (auto& f : l.files) {
                need += f.name.size() + f.desc.size() + f.help.size() + 64 + sizeof(ush_file_descriptor);
                nfiles++;
                if (f.name.size() > longest) longest = f.name.size();
            }
    need += (w->dirs.size() + w->groups.size()) * 64;
    arenaSize = (need + 4095) & ~(size_t)4095;
    arena = (char*)mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int pass = 0; pass < 2; pass++) {
        auto& v = pass ? w->groups : w->dirs;
        for (size_t i = 0; i < v.size(); i++) {
            auto& fl = v[i].files;
            if (v[i].alias != -1) {
                size_t a = v[i].alias >= 0 ? (size_t)v[i].alias : w->dirs.size() + (size_t)(-2 - v[i].alias);
                files.emplace_back();
                lists.push_back(lists.at(a));
                listSizes.push_back(listSizes.at(a));
                continue;
            }
            auto* d = (ush_file_descriptor*)alloc(sizeof(ush_file_descriptor) * (fl.size() ? fl.size() : 1));
            files.emplace_back();
            for (size_t k = 0; k < fl.size(); k++) {
                const FileSpec& f = fl[k];
                d[k].name = str(f.name);
                d[k].description = f.hasDesc ? str(f.desc) : nullptr;
                d[k].help = f.hasHelp ? str(f.help) : nullptr;
                d[k].exec = f.exec ? cbExec : nullptr;
                d[k].get_data = f.get != GET_NONE ? cbGet : nullptr;
                d[k].set_data = f.set != SET_NONE ? cbSet : nullptr;
                d[k].process = f.proc ? cbProcess : nullptr;
                FileRT r;
                r.spec = &f;
                r.id = (pass ? "g" : "d") + std::to_string(i) + "." + std::to_string(k);
                files.back().push_back(r);
            }
            lists.push_back(d);
            listSizes.push_back(fl.size());
        }
    }
    auto* io = (ush_io_interface*)alloc(sizeof(ush_io_interface));
    io->read = cbRead;
    io->write = cbWrite;
    desc = (VfDesc*)alloc(sizeof(VfDesc));
    in = (char*)malloc(w->inSize);
    outb = (char*)malloc(w->outSize);
    obj = (ush_object*)malloc(vf_sizeof_object());
    fillGarbage = garbage;
    if (garbage) {
        fillKind = (int)rng.below(8);
        fill(in, w->inSize);
        fill(outb, w->outSize);
        fill(obj, vf_sizeof_object());
    }
    desc->d.io = io;
    desc->d.input_buffer = in;
    desc->d.input_buffer_size = w->inSize;
    desc->d.output_buffer = outb;
    desc->d.output_buffer_size = w->outSize;
    desc->d.path_max_length = w->pathMax;
    desc->d.hostname = (char*)str(w->host);
    desc->d.exec = w->general ? cbExec : nullptr;
    desc->owner = this;
    arenaHash = hashStr(std::string(arena, arenaUsed));
    mprotect(arena, arenaSize, PROT_READ);
    maxNoProgress = 2000 + 16 * (uint64_t)(nfiles + 64) * (uint64_t)((longest > w->inSize ? w->inSize : longest) + 8) +
                    8 * (uint64_t)w->inSize + 64 * nfiles;
    // no line, however it is answered, can show or call more than this
    uint64_t content = w->inSize, texts = arenaUsed, pieces = 0;
    auto ops = [&](const std::vector<Op>& v) { for (auto& o : v) texts += o.text.size() + 64; };
    ops(w->generalProg);
    for (auto* ls : {&w->dirs, &w->groups})
        for (auto& l : *ls)
            for (auto& f : l.files) {
                if (f.content.size() > content) content = f.content.size();
                for (auto& p : f.pieces) { texts += p.size(); pieces++; }
                ops(f.prog); ops(f.tail); ops(f.getProg); ops(f.setProg);
            }
    maxOutLine = 4000000 + content * (w->inSize + 64) + 4 * texts;
    maxCallLine = 10000 + 8 * (uint64_t)w->inSize + 16 * pieces;
}

RealShell::~RealShell() {
    hold = false;
    settle();
    dropNodes();
    for (auto& l : files) for (auto& f : l) free(f.data);
    free(sharedBuf);
    for (auto* n : pool) free(n);
    free(in); free(outb); free(obj);
    munmap(arena, arenaSize);
    for (auto& b : roBlocks) munmap(b.first, b.second);
}

void RealShell::viol(const std::string& kind, const std::string& text) {
    if (viols.size() < 20) viols.push_back({kind, text});
}

// ---- lookups ----------------------------------------------------------------------------------
FileRT* RealShell::rt(const ush_file_descriptor* f) {
    for (size_t i = 0; i < lists.size(); i++)
        if (f >= lists[i] && f < lists[i] + listSizes[i]) return &files[i][f - lists[i]];
    return nullptr;
}
std::string RealShell::idOf(const ush_file_descriptor* f) const {
    if (!f) return "none";
    auto* r = const_cast<RealShell*>(this)->rt(f);
    if (r) return r->id;
    if (FEAT.commands && f->name)
        for (auto& b : BUILTIN) if (b.name == f->name) return "builtin:" + b.name;
    return "foreign-descriptor";
}
std::string RealShell::nodeName(const ush_node_object* n) const {
    if (!n) return "none";
    for (auto& kv : nodes) if (kv.second.node == n) return kv.first;
    return "foreign-node";
}

// inside of a call into the library / back in the user code
struct LibCall { int& n; explicit LibCall(int& x) : n(x) { n++; } ~LibCall() { n--; } };
struct UserCode { int& n; int saved; explicit UserCode(int& x) : n(x), saved(x) { n = 0; } ~UserCode() { n = saved; } };

// ---- callbacks --------------------------------------------------------------------------------
int RealShell::cbRead(ush_object* self, char* ch) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "read called for a shell which is not serviced");
    if (++r->callReads > 1) {
        r->viol("io-discipline", "more than one read in a single service call");
        if (r->callReads > 100000) { fprintf(stderr, "VF-HANG: reads without return\n"); _exit(97); }
    }
    if (r->lastRefused) r->viol("io-discipline", "input is read while an output char is refused");
    if (r->inPos >= r->input.size()) { r->polledEmpty = true; r->emptyPolls++; return 0; }
    if (!r->sched.canRead()) { r->polledEmpty = true; r->sinceProgress = 0; return 0; }
    *ch = r->input[r->inPos++];
    r->gotChar = true;
    r->sinceProgress = 0;
    return 1;
}

int RealShell::cbWrite(ush_object* self, char ch) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "write called for a shell which is not serviced");
    if (++r->callWrites > 1) {
        r->viol("io-discipline", "more than one write in a single service call");
        if (r->callWrites > 100000) { fprintf(stderr, "VF-HANG: writes without return\n"); _exit(97); }
    }
    if (r->lastRefused && ch != r->refusedCh)
        r->viol("retry", "refused char " + std::to_string((unsigned char)r->refusedCh) + " replaced by " +
                             std::to_string((unsigned char)ch));
    r->sinceProgress = 0;
    if (!r->sched.canWrite()) { r->lastRefused = true; r->refusedCh = ch; return 0; }
    r->lastRefused = false;
    r->out += ch;
    if (r->outLimit && r->out.size() > r->outLimit) { fprintf(stderr, "VF-HANG: output without end\n"); _exit(97); }
    return 1;
}

void RealShell::cbExec(ush_object* self, const ush_file_descriptor* file, int argc, char** argv) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "exec called for a shell which is not serviced");
    r->callBacks++;
    r->sinceProgress = 0;
    r->inCallback++;
    Event e;
    e.kind = file ? EV_EXEC : EV_GENERAL;
    if (file) e.file = r->idOf(file);
    e.outPos = r->out.size();
    for (int i = 0; i < argc; i++) {
        if (!argv[i]) { r->viol("argv", "argv[" + std::to_string(i) + "] is NULL"); break; }
        e.args.push_back(argv[i]);
    }
    if (argc >= 0 && argv[argc] != nullptr) r->viol("argv", "argv[argc] is not NULL");
    r->ev.push_back(e);
    FileRT* f = file ? r->rt(file) : nullptr;
    if (!file || f) {
        r->curFile = file;
        auto& prog = file ? f->spec->prog : r->w->generalProg;
        for (auto& o : prog) r->op(o, argc, argv);
    }
    if (r->nested && !r->nested->inCall) {
        size_t k = 1 + r->rng.below(200);
        for (size_t i = 0; i < k; i++) { r->nested->service(); r->nestedServices++; }
    }
    r->inCallback--;
}

// a process written by the application, in the manner of those of the builtin commands
void RealShell::cbProcess(ush_object* self, const ush_file_descriptor* file) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "process called for a shell which is not serviced");
    r->callBacks++;
    r->sinceProgress = 0;
    FileRT* f = r->rt(file);
    if (!f) { r->viol("isolation", "process called for a foreign file"); self->state = USH_STATE_RESET_PROMPT; return; }
    r->inCallback++;
    switch (self->state) {
    case USH_STATE_PROCESS_START: {
        Event e;
        e.kind = EV_PROC; e.file = f->id; e.outPos = r->out.size();
        r->ev.push_back(e);
        r->procPos = 0;
        r->procIdle = (int)r->rng.below(4);
        self->state = USH_STATE_PROCESS_SERVICE;
        break;
    }
    case USH_STATE_PROCESS_SERVICE:
        if (r->procIdle) { r->procIdle--; break; }                     // nothing to show yet
        if (r->procPos >= f->spec->pieces.size()) { self->state = USH_STATE_PROCESS_FINISH; break; }
        else {
            const std::string& t = f->spec->pieces[r->procPos++];
            r->procIdle = (int)r->rng.below(3);
            if (t.empty()) break;
            char* p = (char*)malloc(t.size() + 1);
            memcpy(p, t.c_str(), t.size() + 1);
            r->deferred.push_back(p);
            { LibCall lc(r->inLibrary); ush_write_pointer(self, p, USH_STATE_PROCESS_SERVICE); }
        }
        break;
    case USH_STATE_PROCESS_FINISH:
        self->state = USH_STATE_RESET_PROMPT;
        for (auto& o : f->spec->tail) r->op(o);
        break;
    default:
        r->viol("isolation", "process called in a state which is not one of a process");
        self->state = USH_STATE_RESET_PROMPT;
        break;
    }
    r->inCallback--;
}

size_t RealShell::cbGet(ush_object* self, const ush_file_descriptor* file, uint8_t** data) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "getter called for a shell which is not serviced");
    r->callBacks++;
    r->sinceProgress = 0;
    FileRT* f = r->rt(file);
    Event e;
    e.kind = EV_GET; e.file = r->idOf(file); e.outPos = r->out.size();
    r->ev.push_back(e);
    if (!f) return 0;
    r->inCallback++;
    const std::string& base = f->hasStored ? f->stored : f->spec->content;
    int n = f->reads++;
    size_t ret = 0;
    auto give = [&](const std::string& c) {
        if (f->data && f->size == c.size() && memcmp(f->data, c.data(), c.size()) == 0 && f->spec->get == GET_STATIC) {
            // unchanged
        } else {
            if (r->hold) { if (f->data) r->deferred.push_back(f->data); } else free(f->data);
            f->data = (char*)malloc(c.size());
            memcpy(f->data, c.data(), c.size());
            f->size = c.size();
        }
        *data = (uint8_t*)f->data;
        ret = c.size();
    };
    switch (f->spec->get) {
    case GET_STATIC: give(base); break;
    case GET_EMPTY: break;
    case GET_COUNTER: give("#" + std::to_string(n) + " " + base); break;
    case GET_SHARED:
        if (r->hold) { if (r->sharedBuf) r->deferred.push_back(r->sharedBuf); } else free(r->sharedBuf);
        r->sharedBuf = (char*)malloc(base.size());
        memcpy(r->sharedBuf, base.data(), base.size());
        *data = (uint8_t*)r->sharedBuf;
        ret = base.size();
        break;
    default: break;
    }
    for (auto& o : f->spec->getProg) r->op(o);
    if (r->nested && !r->nested->inCall) {
        size_t k = 1 + r->rng.below(50);
        for (size_t i = 0; i < k; i++) { r->nested->service(); r->nestedServices++; }
    }
    r->inCallback--;
    return ret;
}

void RealShell::cbSet(ush_object* self, const ush_file_descriptor* file, uint8_t* data, size_t size) {
    RealShell* r = of(self);
    UserCode uc(r->inLibrary);
    if (gCurrent != r) r->viol("isolation", "setter called for a shell which is not serviced");
    r->callBacks++;
    r->sinceProgress = 0;
    FileRT* f = r->rt(file);
    Event e;
    e.kind = EV_SET; e.file = r->idOf(file); e.outPos = r->out.size();
    e.args.push_back(std::string((const char*)data, size));
    r->ev.push_back(e);
    if (!f) return;
    r->inCallback++;
    if (f->spec->set == SET_STORE) { f->stored = e.args[0]; f->hasStored = true; }
    for (auto& o : f->spec->setProg) r->op(o);
    r->inCallback--;
}

// a call into the library
#define LIB(call) ([&] { LibCall lc(inLibrary); return call; }())

char* RealShell::text(const std::string& s) {
    if (roTexts && roBlocks.size() < 4000) {
        size_t n = (s.size() + 1 + 4095) & ~(size_t)4095;
        char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p != MAP_FAILED) {
            p += n - s.size() - 1;
            memcpy(p, s.data(), s.size());
            p[s.size()] = 0;
            char* b = (char*)((uintptr_t)p & ~(uintptr_t)4095);
            mprotect(b, n, PROT_READ);
            roBlocks.push_back({b, n});
            return p;
        }
    }
    char* p = (char*)malloc(s.size() + 1);
    memcpy(p, s.data(), s.size());
    p[s.size()] = 0;
    return p;
}
void RealShell::release(char* p, const std::string& s) {
    if (memcmp(p, s.data(), s.size()) != 0 || p[s.size()] != 0) viol("const-data", "path \"" + esc(s) + "\" given by the application was modified");
    freeText(p);
}
void RealShell::freeText(void* p) {
    for (auto& b : roBlocks) if ((char*)p >= b.first && (char*)p < b.first + b.second) return;   // stays mapped until the end
    free(p);
}

// the group of builtin commands, as far as the object offers it
template <class T> static auto builtinOf(T* o, int) -> decltype(&o->buildin_commands) { return &o->buildin_commands; }
template <class T> static ush_node_object* builtinOf(T*, long) { return nullptr; }
static ush_node_object* builtinNode(ush_object* o) { return FEAT.commands && !BUILTIN.empty() ? builtinOf(o, 0) : nullptr; }
bool canRemoveBuiltin() { static ush_object o; return builtinNode(&o) != nullptr; }

// ---- operations -------------------------------------------------------------------------------
void RealShell::op(const Op& o, int argc, char** argv) {
    RealShell* saved = gCurrent;
    gCurrent = this;
    if (!inCallback) { callsSinceInput = 0; outAtInput = out.size(); }
    auto ret = [&](int st) { Event e; e.kind = EV_RET; e.args = {std::to_string(o.kind), std::to_string(st)}; e.outPos = out.size(); ev.push_back(e); };
    auto ret2 = [&](const char* k, const std::string& v) { Event e; e.kind = EV_RET; e.args = {k, v}; e.outPos = out.size(); ev.push_back(e); };
    auto exact = [&](const std::string& s) {
        char* p = (char*)malloc(s.size() + 1);
        memcpy(p, s.data(), s.size());
        p[s.size()] = 0;
        return p;
    };
    auto later = [&](const std::string& s) { char* p = exact(s); deferred.push_back(p); return p; };
    mustBeQuiet = false;
    idleCount = 0;
    sinceProgress = 0;
    switch (o.kind) {
    case OP_PRINT: { char* p = later(o.text); LIB(ush_print(obj, p)); break; }
    case OP_PRINT_NN: { char* p = later(o.text); LIB(ush_print_no_newline(obj, p)); break; }
    case OP_PRINT_ARG: { char* p = argc ? argv[o.n % argc] : later(""); LIB(ush_print(obj, p)); break; }
    case OP_PRINTF: {
        char* t = exact(o.text);
        if (o.n % 3 == 1) { char* f = exact("<%s|%d>"); LIB(ush_printf(obj, f, t, o.n)); free(f); }
        else if (o.n % 3 == 2) {
            std::string e;
            for (char c : o.text) { e += c; if (c == '%') e += c; }
            char* f = exact(e);
            LIB(ush_printf(obj, f));
            free(f);
        } else { char* f = exact("%s"); LIB(ush_printf(obj, f, t)); free(f); }
        free(t);
        break;
    }
    case OP_PROCESS: if (curFile) LIB(ush_process_start(obj, curFile)); break;
    case OP_PRINTF_BAD: LIB(ush_printf(obj, "%ls", L"\x4e2d\x6587")); break;
    case OP_STATUS: LIB(ush_print_status(obj, (ush_status_t)(o.n % 13))); break;
    case OP_FLUSH: {
        std::string t = o.text.substr(0, w->outSize - 1);
        memcpy(outb, t.c_str(), t.size() + 1);
        LIB(ush_flush(obj));
        break;
    }
    case OP_RESET: lastRefused = false; LIB(ush_reset(obj)); break;
    case OP_MOUNT: {
        ush_node_object* n;
        if (!pool.empty() && rng.chance(50)) { n = pool.back(); pool.pop_back(); }
        else {
            n = (ush_node_object*)malloc(vf_sizeof_node());
            if (fillGarbage) fill(n, vf_sizeof_node());
        }
        std::string before;
        if (fillGarbage) before.assign((char*)n, vf_sizeof_node());
        char* p = text(o.text);
        int st = LIB(ush_node_mount(obj, p, n, listSizes[o.n] == 0 && rng.chance(50) ? nullptr : lists[o.n], listSizes[o.n]));
        ret(st);
        if (st == 0) {
            if (nodes.count(o.text)) { deferred.push_back(nodes[o.text].node); deferred.push_back(nodes[o.text].path); }
            nodes[o.text] = NodeRT{n, p, o.text};
        } else {
            if (fillGarbage && before != std::string((char*)n, vf_sizeof_node())) viol("mount", "failed mount of \"" + o.text + "\" modified the node");
            release(p, o.text);
            free(n);
        }
        break;
    }
    case OP_UNMOUNT: {
        char* p = text(o.text);
        int st = LIB(ush_node_unmount(obj, p));
        release(p, o.text);
        ret(st);
        auto it = nodes.find(o.text);
        if (st == 0 && it != nodes.end()) {
            if (poolNodes && atRest && rng.chance(40) && !inCall) pool.push_back(it->second.node);
            else deferred.push_back(it->second.node);
            deferred.push_back(it->second.path);
            nodes.erase(it);
        }
        break;
    }
    case OP_ADD: {
        if (o.n < 0) {                  // the builtin commands again, after they were removed
            ush_node_object* b = builtinNode(obj);
            if (builtinIn || !b || !builtinList) { ret(0); break; }
            int st = LIB(ush_commands_add(obj, b, builtinList, builtinSize));
            builtinIn = true;
            ret(st);
            break;
        }
        if (groupNodes.count(o.n)) { ret(0); break; }      // never twice
        ush_node_object* n;
        auto gone = goneGroups.find(o.n);
        if (gone != goneGroups.end()) { n = gone->second; goneGroups.erase(gone); }
        else {
            n = (ush_node_object*)malloc(vf_sizeof_node());
            if (fillGarbage) fill(n, vf_sizeof_node());
        }
        size_t l = w->dirs.size() + o.n;
        int st = LIB(ush_commands_add(obj, n, lists[l], listSizes[l]));
        groupNodes[o.n] = n;
        ret(st);
        break;
    }
    case OP_REMOVE: {
        if (o.n < 0) {
            ush_node_object* b = builtinNode(obj);
            if (!b || !builtinIn) { ret(1); break; }
            builtinList = b->file_list; builtinSize = b->file_list_size;
            int st = LIB(ush_commands_remove(obj, b));
            if (st == 0) builtinIn = false;
            ret(st);
            break;
        }
        auto it = groupNodes.find(o.n);
        auto gone = goneGroups.find(o.n);
        if (it == groupNodes.end() && gone != goneGroups.end()) { ret(LIB(ush_commands_remove(obj, gone->second))); break; }
        if (it == groupNodes.end()) {
            auto* n = (ush_node_object*)malloc(vf_sizeof_node());
            memset(n, 0x5a, vf_sizeof_node());
            ret(LIB(ush_commands_remove(obj, n)));
            free(n);
            break;
        }
        int st = LIB(ush_commands_remove(obj, it->second));
        ret(st);
        if (st == 0) {
            if (rng.chance(50)) goneGroups[o.n] = it->second; else deferred.push_back(it->second);
            groupNodes.erase(it);
        }
        break;
    }
    case OP_CD: { char* p = text(o.text); ret(LIB(ush_node_set_current_dir(obj, p))); release(p, o.text); break; }
    case OP_FIND: { char* p = text(o.text); ret2("find", idOf(LIB(ush_file_find_by_name(obj, p)))); release(p, o.text); break; }
    case OP_ABS: {
        char* p = text(o.text);
        char* b = (char*)malloc(w->pathMax);
        memset(b, 0x7e, w->pathMax);
        LIB(ush_node_get_absolute_path(obj, p, b));
        ret2("abs", b);
        free(b); release(p, o.text);
        break;
    }
    case OP_NODE: { char* p = text(o.text); ret2("node", nodeName(LIB(ush_node_get_by_path(obj, p)))); release(p, o.text); break; }
    case OP_PARENT: { char* p = text(o.text); ret2("parent", nodeName(LIB(ush_node_get_parent_by_path(obj, p)))); release(p, o.text); break; }
    default: break;
    }
    if (afterCall && !inCall) afterCall();
    gCurrent = saved;
    if (!inCall) {
        bool prints = o.kind <= OP_RESET;
        if (!prints && inCallback == 0 && atRest) settle();
        if (prints) atRest = false;
    }
}

void RealShell::init() {
    RealShell* saved = gCurrent;
    gCurrent = this;
    LIB(ush_init(obj, &desc->d));
    builtinIn = FEAT.commands && !BUILTIN.empty();
    gCurrent = saved;
    mustBeQuiet = false; idleCount = 0; sinceProgress = 0; lastRefused = false;
    atRest = true;
}

void RealShell::dropNodes() {
    for (auto& kv : nodes) {
        if (kv.second.pathCopy != kv.second.path) viol("const-data", "mount path string modified");
        free(kv.second.node);
        freeText(kv.second.path);
    }
    nodes.clear();
    for (auto& kv : groupNodes) free(kv.second);
    groupNodes.clear();
    for (auto& kv : goneGroups) free(kv.second);
    goneGroups.clear();
}

void RealShell::deinit() {
    RealShell* saved = gCurrent;
    gCurrent = this;
    size_t o = out.size(), e = ev.size(), v = callReads + callWrites;
    std::vector<std::pair<std::string, ush_node_object*>> mounted;
    if (checkDeinit)
        for (auto& kv : nodes)
            if (LIB(ush_node_get_by_path(obj, kv.second.path)) == kv.second.node) mounted.push_back({kv.first, kv.second.node});
    LIB(ush_deinit(obj));
    for (auto& m : mounted) {
        auto* n = m.second;
        if (n->path || n->file_list || n->file_list_size || n->parent || n->children || n->next) viol("deinit", "deinit does not clear the node mounted at \"" + m.first + "\"");
    }
    if (checkDeinit && (obj->root || obj->commands || obj->current_node || obj->desc)) viol("deinit", "deinit does not clear the shell");
    deinitNodes += mounted.size();
    if (out.size() != o || ev.size() != e || (size_t)(callReads + callWrites) != v) viol("deinit", "deinit performed I/O or callbacks");
    gCurrent = saved;
    settle();
    dropNodes();
    memset(obj, 0xC3, vf_sizeof_object());
    lastRefused = false;
}

// the shell is given up as it is: the object keeps its content, the nodes of the application are gone
void RealShell::abandon() {
    settle();
    dropNodes();
    lastRefused = false;
}

void RealShell::settle() {
    if (hold) return;
    for (void* p : deferred) freeText(p);
    deferred.clear();
}

bool RealShell::service() {
    RealShell* saved = gCurrent;
    gCurrent = this;
    callReads = callWrites = callBacks = 0;
    polledEmpty = gotChar = false;
    size_t evBefore = ev.size();
    bool quiet = mustBeQuiet;
    inCall = true;
    atRest = false;
    bool busy = LIB(ush_service(obj));
    inCall = false;
    if (afterCall) afterCall();
    gCurrent = saved;
    services++;
    if (gHeartbeat && (services & 1023) == 0) __atomic_fetch_add(const_cast<uint64_t*>(gHeartbeat), 1, __ATOMIC_RELAXED);
    sinceProgress++;
    if (sinceProgress > maxSinceProgress) maxSinceProgress = sinceProgress;
    callsSinceInput += callBacks;
    if (gotChar) { callsSinceInput = 0; outAtInput = out.size(); }
    bool did = callWrites || callBacks || ev.size() != evBefore;
    if (quiet && did) viol("return-value", "service returned \"nothing to do\" but had output or a callback pending");
    mustBeQuiet = !busy;
    if (busy && polledEmpty && !did) viol("return-value", "service returned \"busy\" while waiting for input");
    bool trulyEmpty = polledEmpty && inPos >= input.size();
    if (did || gotChar) idleCount = 0;
    else if (trulyEmpty) idleCount++;
    return busy;
}

bool RealShell::run(uint64_t max) {
    if (!nodes.count("/")) return true;      // the service needs a root
    idleCount = 0;
    for (uint64_t i = 0; i < max; i++) {
        service();
        if (idleCount >= 3) { sinceProgress = 0; atRest = true; settle(); return true; }
        if (sinceProgress > maxNoProgress) {
            viol("progress", "no output, input, nor callback for " + std::to_string(sinceProgress) + " service calls");
            dead = true;
            return false;
        }
        if (out.size() < outAtInput) outAtInput = 0;             // the harness cleared its record
        if (callsSinceInput > maxCallLine || out.size() - outAtInput > maxOutLine) {
            viol("progress", "one line is answered without end: " + std::to_string(callsSinceInput) + " callbacks and " +
                             std::to_string(out.size() - outAtInput) + " chars since the last input");
            dead = true;
            return false;
        }
    }
    return false;
}

void RealShell::step(const Step& s) {
    if (dead) return;
    if (s.kind == ST_TYPE) feedBytes(s.bytes);
    else op(s.op);
    run();
}

void RealShell::finish() {
    if (arenaHash != hashStr(std::string(arena, arenaUsed))) viol("const-data", "descriptors or names modified");
    for (auto& l : files)
        for (auto& f : l)
            if (f.data && f.spec->get == GET_STATIC) {
                const std::string& c = f.hasStored ? f.stored : f.spec->content;
                if (f.size == c.size() && memcmp(f.data, c.data(), c.size()) != 0 && !f.hasStored)
                    viol("const-data", "content of file " + f.id + " modified");
            }
    for (auto& kv : nodes)
        if (kv.second.pathCopy != kv.second.path) viol("const-data", "mount path string modified");
}
