// Independent executable specification of the shell, at the level of bytes typed / bytes shown / callbacks called.
#pragma once
#include "world.hpp"
#include <functional>

// Domains: what a piece of expected behaviour is about.  Used to attribute a divergence.
enum Domain : uint32_t {
    D_BOOT = 1u << 0,      // welcome message and the first prompt
    D_EDIT = 1u << 1,      // typing, echo, backspace, escape sequences
    D_TAB = 1u << 2,       // autocompletion
    D_CTRLC = 1u << 3,
    D_EMPTY = 1u << 4,     // empty line
    D_USER = 1u << 5,      // user file executed
    D_UNKNOWN = 1u << 6,   // unknown / not executable command
    D_LS = 1u << 7,
    D_HELP = 1u << 8,
    D_CD = 1u << 9,
    D_PWD = 1u << 10,
    D_CAT = 1u << 11,
    D_XXD = 1u << 12,
    D_ECHO = 1u << 13,
    D_API_PRINT = 1u << 14,
    D_API_TREE = 1u << 15,  // mount, unmount, add, remove: result
    D_API_PATH = 1u << 16,  // cd, lookups: result
    D_API_RESET = 1u << 17,
    D_OVERLONG = 1u << 18,  // line longer than the input buffer
    D_ERROR = 1u << 19,     // additionally set when the command ends with an error status
    D_CBTREE = 1u << 20,    // additionally set when a callback of the command changed or queried the tree
    D_ALL = 0xffffffffu
};
std::string domainName(uint32_t d);

struct Mark {
    size_t out, ev;      // position in the expected output / event list where the piece begins
    uint32_t domain;
    std::string what;    // e.g. the executed line
};

static const uint16_t OPTIONAL = 0x100; // expected byte which may be absent

struct FileRef {
    int list = -1;       // >= 0: dirs[list]; -2 - n: groups[n]; -1: builtin commands
    int idx = -1;
    bool valid() const { return idx >= 0; }
};

struct MNode {
    std::string path;
    int dir;
    std::vector<std::string> children; // newest first
};

struct Model {
    const World* w = nullptr;
    std::map<std::string, MNode> tree;
    std::vector<int> groups; // newest first, -1 is the builtin one
    std::string cwd;
    std::string line;
    int esc = 0;
    std::string outbuf;      // content of the output buffer, as far as the user may observe it
    bool wbIsOut = false;
    bool outNul = false;     // an error message took the last byte of the output buffer
    size_t written = 0;

    std::vector<uint16_t> out;
    std::vector<Event> ev;
    std::vector<Mark> marks;
    std::map<std::pair<int, int>, std::string> contents; // data written by setters
    std::map<std::pair<int, int>, int> reads;

    // files with a behaviour of their own: content given by a read, effect of a write
    std::function<bool(FileRef, std::string&)> onRead;
    std::function<void(FileRef, const std::string&)> onWrite;

    // statistics
    std::map<std::string, uint64_t> seen;

    // pending output requested by callbacks
    bool pend = false;
    std::vector<uint16_t> pendText;
    bool pendNewline = false;
    bool lineError = false;
    FileRef curFile;         // file of the executed user command
    bool cbTree = false;     // a callback of the line changed the tree
    size_t overlongs = 0;

    void init(const World* world);
    void feed(char c);
    void api(const Op& op);     // operation performed between services (shell idle, waiting for input)
    void setupOp(const Op& op); // operation performed before the first service
    void boot();                // output of the welcome message, first service

    // pieces
    void mark(uint32_t dom, const std::string& what = "");
    void emit(const std::string& s, uint16_t flag = 0);
    std::string promptText() const;
    void prompt();
    void execute(const std::string& text);
    void runOps(const std::vector<Op>& ops, const std::vector<std::string>* argv);
    void runOp(const Op& op, const std::vector<std::string>* argv);
    void finishPending();
    void status(int st);
    void tab();

    static std::vector<std::string> parse(const std::string& text);
    static std::string decode(const std::string& s);
    bool resolve(const std::string& path, std::string& abs) const; // false: does not fit
    bool nodeExists(const std::string& abs) const { return tree.count(abs) != 0; }
    const std::vector<FileSpec>& filesOf(int g) const;
    FileRef findFile(const std::string& name) const;
    const FileSpec& spec(FileRef r) const;
    std::string fileId(FileRef r) const;
    std::string content(FileRef r);        // performs one read (counts it)
    int mountOp(const std::string& path, int dir);
    int unmountOp(const std::string& path);
    std::vector<std::string> candidates(const std::string& token) const;
    static std::string parentOf(const std::string& path);
    static std::string lastOf(const std::string& path);
    std::string trunc(const std::string& s) const; // row piece as it fits the output buffer
    std::string flatOut() const;
};

extern std::vector<FileSpec> BUILTIN; // name / desc / help of the builtin commands
void initBuiltin();
