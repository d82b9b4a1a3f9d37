// Runs the real shell under monitors: records output, callbacks and every breach of the I/O protocol.
#pragma once
#include "world.hpp"
#include <functional>
extern "C" {
#include <microshell.h>
size_t vf_sizeof_object(void);
size_t vf_sizeof_node(void);
int vf_feature(int n);
void ush_process_start(struct ush_object *self, const struct ush_file_descriptor *file);
void ush_write_pointer(struct ush_object *self, char *text, ush_state_t write_next_state);
const char* vf_status_text(int n);
}

struct Sched {
    int mode = 0;        // 0: both sides always ready
    Rng rng{1};
    int rp = 100, wp = 100;           // percent of ready polls
    size_t rHold = 0, wHold = 0;      // remaining refused polls of a burst
    size_t longStall = 0;             // refuse that many consecutive writes once
    size_t stallAt = 0;
    uint64_t writes = 0, refusedW = 0, refusedR = 0;
    static Sched smooth() { return Sched(); }
    static Sched make(uint64_t seed, int mode);
    bool canRead();
    bool canWrite();
};

struct Viol {
    std::string kind, text;
};

struct RealShell;
struct VfDesc {
    ush_descriptor d;
    RealShell* owner;
};

struct FileRT {
    const FileSpec* spec = nullptr;
    std::string id;
    char* data = nullptr; size_t size = 0;     // exact block given to the shell by the getter
    std::string stored; bool hasStored = false;
    int reads = 0;
};

struct NodeRT {
    ush_node_object* node;
    char* path;
    std::string pathCopy;
};

struct RealShell {
    const World* w;
    ush_object* obj = nullptr;
    VfDesc* desc = nullptr;
    char *in = nullptr, *outb = nullptr;
    // read-only arena
    char* arena = nullptr; size_t arenaSize = 0, arenaUsed = 0;
    uint64_t arenaHash = 0;
    std::vector<ush_file_descriptor*> lists;   // dirs then groups
    std::vector<size_t> listSizes;
    std::vector<std::vector<FileRT>> files;
    std::map<std::string, NodeRT> nodes;
    std::map<int, ush_node_object*> groupNodes;
    std::map<int, ush_node_object*> goneGroups;  // removed and kept: removed again or added again later
    std::vector<void*> deferred;               // released when the shell is idle
    std::vector<ush_node_object*> pool;
    char* sharedBuf = nullptr;

    std::string input; size_t inPos = 0;
    Sched sched;
    std::string out;
    std::vector<Event> ev;
    std::vector<Viol> viols;
    Rng rng{7};

    // protocol monitor
    int callReads = 0, callWrites = 0, callBacks = 0;
    bool inCall = false, polledEmpty = false, gotChar = false;
    int inCallback = 0;
    const ush_file_descriptor* curFile = nullptr;   // file of the exec callback in progress
    size_t procPos = 0; int procIdle = 0;           // progress of its process
    int inLibrary = 0;                         // a call of the library is in progress
    bool lastRefused = false; char refusedCh = 0;
    bool mustBeQuiet = false;                  // service returned false: nothing to do until input comes
    uint64_t services = 0, sinceProgress = 0, maxNoProgress = 0, emptyPolls = 0, maxSinceProgress = 0;
    int idleCount = 0;
    bool atRest = true;                        // nothing in progress inside of the shell
    bool poolNodes = true;
    bool fillGarbage = true;                   // memory given to the shell holds random bytes
    int fillKind = 0;
    void fill(void* p, size_t n);
    RealShell* nested = nullptr;               // shell serviced from the callbacks of this one
    uint64_t nestedServices = 0;
    uint64_t callsSinceInput = 0, outAtInput = 0, maxCallLine = 0, maxOutLine = 0;   // what a single line causes
    uint64_t outLimit = 0;                     // more output than that is a run-away
    bool dead = false;
    bool roTexts = false;                      // paths given by the application lie in read-only memory
    std::vector<std::pair<char*, size_t>> roBlocks;
    char* text(const std::string& s);          // a path of the application
    void release(char* p, const std::string& s);
    void freeText(void* p);
    bool builtinIn = true;
    const ush_file_descriptor* builtinList = nullptr;
    size_t builtinSize = 0;
    std::function<void()> afterCall;           // called after every call into the library
    uint64_t deinitNodes = 0;
    bool checkDeinit = false;                  // what deinit leaves behind
    bool hold = false;                         // keep released memory until the end of the episode

    RealShell(const World* world, uint64_t seed, bool garbage = true);
    ~RealShell();
    RealShell(const RealShell&) = delete;

    void init();
    void deinit();
    void abandon();
    void op(const Op& o, int argc = 0, char** argv = nullptr);
    bool service();            // one call
    bool run(uint64_t max = UINT64_MAX); // until idle; false: a violation of progress
    void step(const Step& s);
    void feedBytes(const std::string& b) { if (inPos) { input.erase(0, inPos); inPos = 0; } input += b; }
    void settle();             // called when idle: releases the memory user code may release
    void finish();             // end of episode checks
    void viol(const std::string& kind, const std::string& text);
    void dropNodes();

    const char* str(const std::string& s);
    void* alloc(size_t n);
    const FileRT* find(const ush_file_descriptor* f, bool& builtin, int& bidx) const;
    FileRT* rt(const ush_file_descriptor* f);
    std::string idOf(const ush_file_descriptor* f) const;
    std::string nodeName(const ush_node_object* n) const;

    static int cbRead(ush_object* self, char* ch);
    static int cbWrite(ush_object* self, char ch);
    static void cbExec(ush_object* self, const ush_file_descriptor* file, int argc, char** argv);
    static size_t cbGet(ush_object* self, const ush_file_descriptor* file, uint8_t** data);
    static void cbProcess(ush_object* self, const ush_file_descriptor* file);
    static void cbSet(ush_object* self, const ush_file_descriptor* file, uint8_t* data, size_t size);
    static RealShell* of(ush_object* self) { return ((const VfDesc*)self->desc)->owner; }
};

void loadFeatures();
bool canRemoveBuiltin();
extern "C" void vf_assert_failed(const char* file, int line);
extern thread_local RealShell* gCurrent;   // shell whose library call is in progress
extern volatile uint64_t* gHeartbeat;
