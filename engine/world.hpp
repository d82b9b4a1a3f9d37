// Specifications shared by the reference model and by the driver of the real shell.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    template <class V> const auto& pick(const V& v) { return v[below(v.size())]; }
};

// Operations which are performed either from a callback or from outside of the shell service (API step).
enum OpKind {
    OP_PRINT,        // ush_print(text)
    OP_PRINT_NN,     // ush_print_no_newline(text)
    OP_PRINT_ARG,    // ush_print(argv[n]), only from exec callbacks
    OP_PRINTF,       // ush_printf("%s", text) (n selects the format form)
    OP_PRINTF_BAD,   // ush_printf with an unconvertible wide char
    OP_STATUS,       // ush_print_status(n)
    OP_FLUSH,        // write text to output buffer and ush_flush
    OP_RESET,        // ush_reset
    OP_MOUNT,        // mount dirs[n] under path text
    OP_UNMOUNT,      // unmount path text
    OP_ADD,          // add groups[n]
    OP_REMOVE,       // remove groups[n]
    OP_CD,           // ush_node_set_current_dir(text)
    OP_FIND,         // ush_file_find_by_name(text), result recorded
    OP_ABS,          // ush_node_get_absolute_path(text), result recorded
    OP_NODE,         // ush_node_get_by_path(text), result recorded
    OP_PARENT,       // ush_node_get_parent_by_path(text), result recorded
    OP_REINIT,       // deinit + init, remounting of everything has to follow
    OP_PROCESS,      // leave the exec callback with the process of the file started (only op of the program)
    OP_ARGC,         // other number of arguments than n: error status, the rest of the program is not run (model only)
    OP__NUM
};

struct Op {
    int kind = 0;
    std::string text;
    int n = 0;
};

enum GetMode {
    GET_NONE,
    GET_STATIC,      // returns pointer to stored content
    GET_EMPTY,       // returns 0 without touching the data pointer
    GET_COUNTER,     // every read gives other content ("#<n> ..."), one buffer per file
    GET_SHARED,      // content copied on read to the buffer shared by all such files
};

enum SetMode { SET_NONE, SET_STORE, SET_DROP };

struct FileSpec {
    std::string name;
    bool hasDesc = false, hasHelp = false, exec = false;
    std::string desc, help;
    std::vector<Op> prog;
    int get = GET_NONE, set = SET_NONE;
    std::string content;
    int proc = 0;              // 1: the descriptor has a process callback
    std::vector<std::string> pieces; // written by the process, one at a time (empty: a call without output)
    std::vector<Op> tail;      // performed by the last call of the process (prints only)
    std::vector<Op> getProg;   // operations performed inside of getter
    std::vector<Op> setProg;   // operations performed inside of setter
};

struct ListSpec {
    std::vector<FileSpec> files;
    int alias = -1;            // the array of another list is used (0..: of a directory, ..-2: of group -2 - alias); files is a copy of its names
};

struct World {
    size_t inSize = 64, outSize = 64, pathMax = 128;
    std::string host = "host";
    bool general = false;
    std::vector<Op> generalProg;
    std::vector<ListSpec> dirs;
    std::vector<ListSpec> groups;
};

enum StepKind { ST_TYPE, ST_API };
struct Step {
    int kind;
    std::string bytes;
    Op op;
    int group = 0;       // steps of one line / one action
};

struct Episode {
    World world;
    std::vector<Step> setup;   // executed just after init, before any service
    std::vector<Step> steps;
    void api(std::vector<Step>& v, int kind, std::string text = "", int n = 0) {
        Step s; s.kind = ST_API; s.op.kind = kind; s.op.text = std::move(text); s.op.n = n; v.push_back(s);
    }
    void mount(const std::string& path, int dir) { api(setup, OP_MOUNT, path, dir); }
    void add(int group) { api(setup, OP_ADD, "", group); }
    void type(const std::string& b) { Step s; s.kind = ST_TYPE; s.bytes = b; steps.push_back(s); }
    std::string typed() const { std::string o; for (auto& s : steps) if (s.kind == ST_TYPE) o += s.bytes; return o; }
};

enum EvKind { EV_GENERAL, EV_EXEC, EV_GET, EV_SET, EV_RET, EV_PROC };
struct Event {
    int kind;
    std::string file;              // stable identity of the file
    std::vector<std::string> args; // argv / written data / result
    size_t outPos = 0;             // output length at the moment of the event (not compared by default)
    bool operator==(const Event& o) const { return kind == o.kind && file == o.file && args == o.args; }
};

// Build-time features of the library under test, reported by shim.c
struct Features {
    bool commands, autocomp, styles;
    bool help, ls, cd, pwd, cat, xxd, echo;
    int align, columns;
    std::vector<std::string> status;    // text of every status code, by translation macros
};
extern Features FEAT;

inline std::string esc(const std::string& s, size_t max = 600) {
    std::string o;
    char b[8];
    for (size_t i = 0; i < s.size(); i++) {
        if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        unsigned char c = (unsigned char)s[i];
        if (c == '\\') o += "\\\\";
        else if (c == '"') o += "\\\"";
        else if (c >= 32 && c < 127) o += (char)c;
        else if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o;
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

std::string describe(const Op& op);
std::string describe(const Event& ev);
std::string describe(const Episode& ep);
