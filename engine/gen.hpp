// Random worlds and sessions.  The generator runs the model in lockstep, so that it always knows what exists.
#pragma once
#include "model.hpp"

struct Knobs {
    // weights of actions
    int user = 10, unknown = 4, ls = 4, help = 4, cd = 4, pwd = 2, cat = 4, xxd = 4, echo = 4, empty = 2, syntax = 3;
    int ctrlc = 2, apiPrint = 1, apiTree = 1, apiPath = 1, reset = 0, overlong = 0;
    int badArgs = 20;          // percent of builtin commands with bad arguments
    int noise = 15;            // percent of lines typed with corrections
    int tab = 10;              // percent of lines typed with tabs
    int escSeq = 5;            // percent of lines typed with escape sequences
    int weird = 15;            // percent of names with unusual characters
    int prog = 60;             // percent of executable files which print etc.
    int treeProg = 10;         // percent of programs which change the tree
    int longText = 10;         // percent of printed texts longer than the output buffer
    int procs = 12;            // percent of executable files with a process
    int cbTree = 0;            // percent of getters, setters and general callbacks which change the tree
    int midApi = 0;            // percent of API prints done while a line is half typed
    int midTree = 10;          // percent of API changes of the tree and lookups done while a line is half typed
    int getProg = 0;           // percent of getters with lookups inside
    int inMin = 32, inMax = 160, outMin = 24, outMax = 128;
    int pathMin = 0, pathMax = 64;   // added to the longest mounted path
    int lines = 14;
    int nodes = 8, files = 5, groups = 3, groupFiles = 5;
    int nameLen = 8;
    int content = 60;
    int dropBuiltin = 0;       // percent of removed groups which are the builtin commands
    int shareDirs = 15;
    int general = 25;
    int typeAhead = 0;         // percent of steps joined with the following one
    int crlf = 30;             // percent of lines finished with LF instead of CR
    int cmdNames = 8;          // percent of names equal to the builtin commands
    bool apiBlockedInCallback = false;
    int quoteStyle = 40;       // percent of args written with random quoting
};

extern bool canDropBuiltin;

struct Gen {
    Rng r;
    Knobs k;
    Episode ep;
    Model m;
    std::vector<std::string> pool;      // names
    std::vector<std::string> mountable; // paths which may be mounted
    int group = 0;
    bool started = false;
    Gen(uint64_t seed, const Knobs& kn) : r(seed), k(kn) {}

    void world();
    void begin();              // model: setup + boot
    void session();            // k.lines actions
    void action();
    Episode make() { world(); begin(); session(); return finish(); }
    Episode finish();

    // pieces
    std::string word(int maxLen);
    std::string name();
    std::string text();
    std::string bin(int maxLen);
    std::string quote(const std::string& s, bool force = false);
    std::string quoteEcho(const std::string& s);
    std::string pathTo(const std::string& abs);
    std::string somePath();    // expression for a directory, mostly existing
    std::string someFile(int want);  // expression for a file: 0 any, 1 executable, 2 readable, 3 writable, 4 with help
    std::string command(const std::string& n);
    std::string lineFor(int kind);
    bool typeLine(const std::string& line, int noise, int tab, int escSeq);
    void typeChars(const std::string& s);
    void rootSwap();           // everything is unmounted, the root too, and a new tree is built (no service in between)
    void enter();
    void drop() { flushStep(); typeChars("\x03"); flushStep(); }
    void api(const Op& op);
    std::vector<Op> program(int depth = 0);
    std::string escape();      // escape sequence, mostly of three characters
    Op treeOp();
    Op pathOp();
    Op printOp(bool inExec);
    FileSpec file(bool global);
    std::string pick(const std::vector<std::string>& v) { return v[r.below(v.size())]; }
    void flushStep();
    std::string cur;
};
