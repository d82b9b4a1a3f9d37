"""Per property: workloads, builds, counts and what the evidence says about them."""
import glob
import os

import build

UNITS = ["model", "real", "check", "gen", "common", "main"]


class Job:
    def __init__(self, profile, unit, quick, thorough, name=None, variant="asan", override=None, lib_flags=(), blocks=32,
                 extra=(), link_flags=(), post=None, key=None, wrapper=(), stderr=None, keyer=None, configuration=False, cc="clang"):
        self.profile, self.units, self.quick, self.thorough = profile, ([unit] if isinstance(unit, str) else unit), quick, thorough
        self.name = name or profile
        self.variant, self.override, self.lib_flags, self.blocks = variant, override, lib_flags, blocks
        self.extra, self.link_flags, self.post = extra, link_flags, post
        self.key, self.wrapper, self.stderr, self.keyer = key, wrapper, stderr, keyer
        self.configuration, self.cc = configuration, cc

    def extra_sources(self):
        return self.extra() if callable(self.extra) else self.extra

    def exe_key(self):
        return self.key or self.variant


class Prop:
    def __init__(self, jobs, rule, assumptions, must_see=(), hooks=()):
        self.jobs, self.rule, self.assumptions, self.must_see, self.hooks = jobs, rule, assumptions, must_see, hooks


GEN = "random worlds (directory trees, files, command groups, buffer sizes) and sessions (lines, corrections, TAB, escape sequences, API calls) made from the seed; "
SESS = ["one shell is driven by one thread", "memory of nodes, paths and descriptors stays valid until the command in progress ends",
        "the configuration is config/posix of /repo"]

PROPS = {}


def P(pid, jobs, rule, assumptions=(), must_see=(), hooks=()):
    PROPS[pid] = Prop(jobs, rule, SESS + list(assumptions), must_see, hooks)


def function_types(check, err):
    """Calls through pointers of an incompatible type, reported by the sanitizer in the recovering mode."""
    import re
    for f in sorted(set(re.findall(r"runtime error: call to function (\S+) through pointer to incorrect function type", err))):
        with check.lock:
            check.counts["function_types.reported." + f] = check.counts.get("function_types.reported." + f, 0) + 1
        yield "function-type:" + f, "function %s is called through a pointer of an incompatible type\n%s" % (f, err[:3000])


VALGRIND = ["valgrind", "-q", "--error-exitcode=79", "--exit-on-first-error=yes", "--max-stackframe=4000000"]
P("P01", [Job("P01", "profiles_a", 36000, 700000), Job("P01edge", "profiles_a", 20000, 300000),
          Job("P01init", "profiles_a", 400, 8000, variant="plain", key="plain0", wrapper=VALGRIND, blocks=8, lib_flags=["-O0"]),
          Job("P01functions", "profiles_a", 320, 8000, variant="plain", key="fsan", blocks=8, stderr=function_types,
              lib_flags=["-fsanitize=function", "-fsanitize-recover=function"], link_flags=["-fsanitize=function"])],
  GEN + "typed bytes are then mutated (control bytes, NUL, 8-bit, overlong); evaluated: one session run under AddressSanitizer, "
  "UndefinedBehaviorSanitizer, assertions and exact-size heap blocks; non-trivial: it produced callbacks or output, counted by its whole output",
  ["prints from callbacks use memory valid until they are shown"],
  ["callbacks.exec", "callbacks.get", "callbacks.set", "callbacks.general", "sessions.edge", "sessions.memcheck"])
P("P02", [Job("P02", "profiles_a", 60000, 900000)],
  GEN + "five readiness schedules incl. stalls of 70000 polls; evaluated: one step (line or API call) run to quiescence with each service call monitored; "
  "non-trivial: distinct step text and schedule", [], ["idle.calls", "refused.writes", "refused.reads"])
P("P03", [Job("P03", "profiles_a", 32000, 500000)],
  GEN + "each session is run smoothly and under 4 schedules of readiness and chunking of the input; evaluated: one comparison of complete outputs, callbacks and their "
  "order; non-trivial: distinct output and number of service calls", [], ["refused.writes", "refused.reads"])
for pid, dom, q, t, see in [
        ("P04", "lines executed", 100000, 1500000, ["observed.user"]),
        ("P05", "lines dispatched", 120000, 1800000, ["observed.user", "observed.unknown"]),
        ("P06", "path resolved by cd, pwd or the API", 120000, 1800000, ["observed.cd", "observed.pwd", "observed.api-path"]),
        ("P07", "ls executed", 80000, 1200000, ["observed.ls"]),
        ("P08", "help executed", 90000, 1300000, ["observed.help"]),
        ("P09", "cat executed", 60000, 800000, ["observed.cat"]),
        ("P10", "xxd executed", 90000, 1300000, ["observed.xxd"]),
        ("P11", "echo executed", 90000, 1300000, ["observed.echo"]),
        ("P13", "TAB pressed", 90000, 1300000, ["observed.tab"]),
        ("P15", "mount, unmount, add, remove or lookup", 150000, 2000000, ["observed.api-tree"]),
        ("P16", "print operation or command which prints", 150000, 2000000, ["observed.api-print", "observed.user"]),
        ("P21", "command which ends with an error", 150000, 2000000, ["observed.error"]),
]:
    P(pid, [Job(pid, "profiles_b", q, t)],
      GEN + "run in lockstep with an independent reference model; evaluated: one %s, whose output, callbacks, arguments and their order are compared; "
      "non-trivial: distinct line and expected output" % dom, [], see)
P("P12", [Job("P12", "profiles_c", 60000, 900000)],
  GEN + "evaluated: one typed chunk compared with the model, and every typed byte compared on a VT100 screen model; non-trivial: distinct edited line and chunk",
  [], ["screen.compared", "screen.listed", "screen.completed", "observed.edit"])
P("P14", [Job("P14", "profiles_c", 50000, 800000), Job("P14soak", "profiles_c", 64, 320)],
  GEN + "evaluated: one piece of a session; on divergence the same line is repeated in a fresh shell; soak: the same questions before and after 70000+ lines; "
  "non-trivial: distinct line and output", [], ["soak.lines", "history.cut"])
P("P17", [Job("P17", "profiles_d", 50000, 700000)],
  "2-4 shells, each with its own random world and session, serviced in random interleavings (and from each other's callbacks); evaluated: one shell compared with "
  "its solo run; non-trivial: distinct output and number of switches", [], ["switches", "nested.services"])
P("P20", [Job("P20", "profiles_c", 180000, 1500000)],
  GEN + "first life cut after a random number of service calls, then reset or deinit + init, then a second session compared with a fresh shell; evaluated: one such "
  "comparison; non-trivial: distinct output and cut", [], ["lifecycle.mode0", "lifecycle.mode1", "lifecycle.mode2", "deinit.nodes"])
P("P22", [Job("P22", "profiles_d", 80000, 1200000)],
  GEN + "mount/unmount/add/remove are called between service calls while a command or completion is in progress; evaluated: one such operation followed by checks of "
  "its result, progress, lookups and listings; non-trivial: distinct command, operation and position", [], ["listings.checked", "later.steps"])
P("P23", [Job("P23", "profiles_c", 110000, 1000000)],
  GEN + "every pair of input buffer sizes 2..48 and output buffer sizes 4..64, lines which fill the buffer; evaluated: one piece compared with the model; "
  "non-trivial: pairs of sizes and distinct lines with outputs", [], ["observed.overlong"])

def gather_statics(check, job, eng, lib):
    """Links the library objects into one, with its writable static data in sections of their own."""
    def go():
        d = check.scratch
        objs = [f.result() for f in lib]
        one, two = os.path.join(d, "lib_one.o"), os.path.join(d, "lib_two.o")
        build.run(["ld", "-r", "-o", one] + objs)
        # every writable data section, whatever its name
        out = build.run(["objdump", "-h", "-w", one])
        args = []
        for line in out.splitlines():
            f = line.split()
            if len(f) < 3 or not f[0].isdigit():
                continue
            name, size = f[1], int(f[2], 16)
            if name.startswith((".data.rel.ro", ".rodata", ".text", ".init", ".eh_frame", ".debug", ".comment", ".note", ".llvm")) or "READONLY" in line:
                continue
            if name.startswith((".tdata", ".tbss")):
                if size:
                    check.report("thread-local", "the library keeps thread-local variables (%s, %d bytes)" % (name, size), {"job": job.name, "profile": job.profile, "seed": check.seed, "property": check.prop, "tier": check.tier, "index": 0})
                continue
            if name.startswith(".data") or name.startswith(".bss"):
                args += ["--rename-section", "%s=%s,alloc,load,data,contents" % (name, "vfdata" if name.startswith(".data") else "vfbss")]
        build.run(["objcopy"] + args + [one, two])
        exe = os.path.join(d, "vf_" + job.exe_key())
        build.run(["clang++", "-no-pie", "-o", exe] + [f.result() for f in eng] + [two, "-pthread"] + list(job.link_flags))
        return exe
    return go


WRAPPED = "vsnprintf snprintf vasprintf asprintf mmap sbrk".split()
P("P18", [Job("P18", "profiles_e18", 20000, 300000, variant="plain", key="p18", lib_flags=["-fno-pic", "-fno-common", "-fno-builtin"],
              link_flags=["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)], post=gather_statics)],
  GEN + "plus worlds with hundreds of files, deep trees and kilobyte lines; evaluated: one step during which allocation functions are wrapped, the stack is painted and all "
  "static writable data of the library is compared afterwards; non-trivial: distinct step", ["stack is measured in a build of clang -O1"],
  ["statics.compared", "services", "callbacks", "allocations.of.the.harness", "odd.paths"])
P("P25", [Job("P25", "profiles_e", 200000, 3000000)],
  "random paths, names, argument strings and encoded binaries in exact-size heap blocks under sanitizers; evaluated: one call compared with an independent reference; "
  "non-trivial: distinct function and input", ["paths are absolute with non-empty parts, as documented for the helpers"],
  ["observed.collapse", "observed.decode", "observed.last-arg", "observed.level"])
PROPS["P17"].jobs.append(Job("P17threads", "profiles_d", 2400, 40000, variant="tsan"))
# sizes beyond the counters of 8 and 16 bits
for pid, q in [("P01", 224), ("P02", 168), ("P03", 168), ("P04", 160), ("P05", 160), ("P06", 200), ("P07", 160), ("P08", 160), ("P09", 160), ("P10", 160), ("P11", 160), ("P12", 160),
               ("P13", 200), ("P15", 200), ("P16", 320), ("P20", 168), ("P21", 160), ("P23", 240)]:
    _j = PROPS[pid].jobs
    for _x in _j:
        if _x.key is None and _x.variant == "asan" and "profiles_g" not in _x.units:
            _x.units = list(_x.units) + ["profiles_g"]
    _j.append(Job(pid + "scale", list(_j[0].units), q, q * 25, blocks=40))
    PROPS[pid].must_see = list(PROPS[pid].must_see) + ["max.scale.input"]
PROPS["P17"].must_see.append("thread.services") if isinstance(PROPS["P17"].must_see, list) else None


# ---- the demonstration program
DEMO = os.path.join(build.REPO, "examples", "demo_linux")


def demo_sources():
    s = [os.path.join(DEMO, f) for f in ("commands.c", "shell.c", "fs/fs.c")] + sorted(glob.glob(os.path.join(DEMO, "fs", "path", "*.c")))
    return s


def demo_overrun(key, text):
    import re
    first = re.search(r"ERROR: AddressSanitizer: (\S+).*?WRITE of size (\d+).*?#[12] \S+ in (\w+)", text, re.S)
    if key == "sanitizer" and first and first.group(1) == "global-buffer-overflow" and first.group(3) == "eeprom_data_setter":
        return "demo-eeprom-overrun"
    return key


DEMO_FLAGS = ["-I" + DEMO, "-I" + os.path.join(DEMO, "fs"), "-Dtime=vf_time", "-Drand=vf_rand", "-Dsrand=vf_srand"]
P("P24", [Job("P24", "profiles_f", 120000, 900000, key="demo", lib_flags=DEMO_FLAGS, extra=demo_sources),
          Job("P24overrun", "profiles_f", 8, 8, key="demo", lib_flags=DEMO_FLAGS, extra=demo_sources, blocks=8, keyer=demo_overrun)],
  "sessions typed to the demonstration program for Linux (its tree, files and commands, linked with an interface, a clock and random numbers of the harness), in lockstep "
  "with the model extended by its files; evaluated: one line; non-trivial: distinct line and expected output", ["the demonstration is used as shipped in /repo/examples/demo_linux"],
  ["observed.user", "observed.echo", "observed.cat", "observed.xxd", "observed.ls"])


# ---- configurations of the build
CMDS = ["HELP", "LS", "CD", "PWD", "CAT", "XXD", "ECHO"]
TEXTS = ["OK", "ERROR", "DIRECTORY_NOT_FOUND", "NESTED_DIRECTORIES_EXIST", "CANNOT_FIND_PARENT_NODE", "DIRECTORY_ALREADY_MOUNTED", "SYNTAX_ERROR",
         "WRONG_ARGUMENTS", "FILE_NOT_EXECUTABLE", "FILE_NOT_WRITABLE", "FILE_NOT_READABLE", "NO_HELP_AVAILABLE", "FILE_NOT_FOUND", "READ_ONLY_FILE"]


def override(**kw):
    out = ""
    for k, v in kw.items():
        k = "USH_CONFIG_" + k
        out += "#undef %s\n#define %s %s\n" % (k, k, v)
    return out


def texts(f):
    return {"TRANSLATION_" + t: '"%s"' % f(i, t) for i, t in enumerate(TEXTS)}


NO_ASSERT = "#undef USH_ASSERT\n#define USH_ASSERT(cond) { }\n"


def configs(seed, n):
    import random
    r = random.Random(seed * 7919 + 13)
    c = [
        ("arduino", "/* config/arduino, as shipped */\n"),
        ("noassert", NO_ASSERT),
        ("noautocomp", override(ENABLE_FEATURE_AUTOCOMPLETE=0)),
        ("nostyles", override(ENABLE_FEATURE_SHELL_STYLES=0)),
        ("nocommands", override(ENABLE_FEATURE_COMMANDS=0)),
        ("nofeatures", override(ENABLE_FEATURE_COMMANDS=0, ENABLE_FEATURE_AUTOCOMPLETE=0, ENABLE_FEATURE_SHELL_STYLES=0)),
        ("noneleft", override(**{"ENABLE_COMMAND_" + x: 0 for x in CMDS})),
        ("utf8", override(FILENAME_ALIGN_SPACE=1, CMD_XXD_COLUMNS=1, **texts(lambda i, t: "b\\305\\202\\304\\205d %d" % i))),
        ("wide", override(FILENAME_ALIGN_SPACE=37, CMD_XXD_COLUMNS=16, **texts(lambda i, t: "message number %d which is rather long, longer than usual" % i))),
    ]
    for y in CMDS:
        c.append(("only" + y, override(**{"ENABLE_COMMAND_" + x: int(x == y) for x in CMDS})))
        c.append(("no" + y, override(**{"ENABLE_COMMAND_" + x: int(x != y) for x in CMDS})))
    for i in range(n):
        kw = {"ENABLE_COMMAND_" + x: int(r.random() < 0.65) for x in CMDS}
        kw["ENABLE_FEATURE_AUTOCOMPLETE"] = int(r.random() < 0.6)
        kw["ENABLE_FEATURE_SHELL_STYLES"] = int(r.random() < 0.6)
        kw["ENABLE_FEATURE_COMMANDS"] = int(r.random() < 0.85)
        kw["FILENAME_ALIGN_SPACE"] = r.choice([1, 2, 8, 16, 24, 40])
        kw["CMD_XXD_COLUMNS"] = r.choice([1, 2, 3, 4, 8, 11, 16, 32])
        if r.random() < 0.5:
            kw.update(texts(lambda i, t: "%s%d" % (r.choice("abcdefgh") * r.choice([1, 5, 30]), i)))
        c.append(("random%d" % i, override(**kw) + (NO_ASSERT if r.random() < 0.2 else "")))
    return c


def config_jobs(seed, tier):
    cs = configs(seed, 60 if tier == "thorough" else 13)
    return [Job("P19", "profiles_b", 3600, 12000, name="P19-" + name, key="cfg-" + name, override=o, blocks=4, configuration=True,
                lib_flags=["-DARDUINO"] if name == "arduino" else []) for name, o in cs]


P("P19", config_jobs,
  GEN + "in 23 fixed configurations of the build (the ones shipped, every command alone, every command missing, every feature missing) and several random ones "
  "(commands, features and assertions on or off, columns, alignment, translations), against the model parametrised by the "
  "configuration which the build reports; evaluated: one line or API operation; non-trivial: distinct line and expected output",
  ["the build flags given are those offered in the configuration header"], ["observed.user", "observed.error", "observed.ls"])


# ---- compilers, optimisation, type of char
PATTERN = "-ftrivial-auto-var-init=pattern"
TRAP = ["-fsanitize=undefined", "-fno-sanitize=function", "-fsanitize-trap=all"]
BUILDS = [
    ("clang", "asan", "O1-unsigned", ["-funsigned-char"]),
    ("clang", "asan", "O0-signed", ["-O0", "-fsigned-char"]),
    ("clang", "plain", "O0", ["-O0", "-fstack-protector-all"]),
    ("clang", "plain", "O3-unsigned", ["-O3", "-funsigned-char"]),
    ("clang", "plain", "Os-c11", ["-Os", "-std=c11"]),
    ("clang", "plain", "O2-pattern", ["-O2", PATTERN]),
    ("clang", "plain", "O2-zero", ["-O2", "-ftrivial-auto-var-init=zero"]),
    ("clang", "plain", "O2-traps", ["-O2", "-funsigned-char"] + TRAP),
    ("gcc", "plain", "O0-unsigned", ["-O0", "-funsigned-char"]),
    ("gcc", "plain", "O1", ["-O1"]),
    ("gcc", "plain", "O2-c99", ["-O2", "-std=c99"]),
    ("gcc", "plain", "O3", ["-O3", "-fipa-pta", "-ftree-vectorize"]),
    ("gcc", "plain", "Os-unsigned", ["-Os", "-funsigned-char"]),
    ("gcc", "plain", "O2-pattern", ["-O2", PATTERN]),
    ("gcc", "plain", "O2-hardened", ["-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]),
    ("gcc", "plain", "O2-traps", ["-O2", "-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]),
]
NARROW = [("clang", ["-O1", "-fsanitize=undefined", "-fno-sanitize=function", "-fsanitize-trap=all"]), ("gcc", ["-O2"]),
          ("clang", ["-Os", "-funsigned-char"]), ("gcc", ["-O0", "-funsigned-char", "-fshort-enums"])]


def narrow(check, job, eng, lib):
    """32-bit programs without a system library, built where the tools allow it; engine next to them."""
    import subprocess
    d = os.path.join(build.ENGINE, "narrow")
    link = check.builder.link("vf_" + job.exe_key(), job.variant, eng + lib, job.link_flags)

    def one(i):
        cc, flags = NARROW[i]
        own = subprocess.run([cc, "-print-file-name=include"], stdout=subprocess.PIPE, text=True).stdout.strip()
        cmd = [cc, "-m32", "-g1", "-ffreestanding", "-fno-builtin", "-nostdinc", "-isystem", os.path.join(d, "inc"), "-isystem", own, "-fno-stack-protector", "-fno-pic", "-no-pie",
               "-static", "-nostdlib", "-w", "-I", os.path.join(build.ENGINE, "cfg"), "-I", build.SRC] + flags
        cmd += ["-o", os.path.join(check.scratch, "narrow%d" % i), os.path.join(d, "drive.c"), os.path.join(d, "libc.c")] + build.lib_sources()
        try:
            subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError:
            pass

    def go():
        with __import__("concurrent.futures").futures.ThreadPoolExecutor(4) as p:
            list(p.map(one, range(len(NARROW))))
        return link()
    return go


P("P26", [Job("P26narrow", "profiles_i", 24000, 200000, key="narrow", variant="asan", post=narrow)] +
         [Job("P26", "profiles_b", 4000, 60000, name="P26-%s-%s" % (cc, n), key="build-%s-%s" % (cc, n), variant=v, lib_flags=f, cc=cc, blocks=4, configuration=True)
          for cc, v, n, f in BUILDS],
  GEN + "with many bytes above 127, in %d builds of the library (gcc and clang, optimisation levels, standards, plain char signed and unsigned, local variables filled with "
  "a pattern or zeros, hardened, with traps of undefined behaviour), against the model; evaluated: one line or API operation; non-trivial: distinct line and expected output" % len(BUILDS),
  ["64-bit builds of gcc and clang as installed here; other platforms are not available"], ["observed.user", "observed.error", "observed.ls", "observed.cat", "observed.xxd", "observed.tab"])

P("P27", [Job("P27", "profiles_h", 150000, 900000)],
  GEN + "evaluated: one step (line, several lines typed ahead, API call), whose transcript is checked by a checker which knows only echo and prompt; non-trivial: distinct step and output",
  ["texts of the application do not imitate the prompt"], ["lines.echoed", "prompts.located", "api.prints", "api.silent"])
