"""Builds the library from /repo's working tree together with the engine, in a scratch directory."""
import concurrent.futures as cf
import glob
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
SRC = os.path.join(REPO, "src")

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]
VARIANTS = {
    # lib flags, engine flags, link flags
    "asan": (["-O1"] + ASAN, ["-O1"], ASAN),
    "tsan": (["-O1", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (["-O1"], ["-O1"], []),
}
BASE = ["-g1", "-fno-omit-frame-pointer", "-pthread"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def lib_sources():
    s = sorted(glob.glob(os.path.join(SRC, "src", "**", "*.c"), recursive=True))
    if not s:
        raise BuildError("no library sources in " + SRC)
    return s


INC = ["-I" + os.path.join(ENGINE, "cfg"), "-I" + SRC, "-I" + ENGINE]


class Builder:
    def __init__(self, scratch):
        self.dir = scratch
        self.pool = cf.ThreadPoolExecutor(8)
        self.engine = {}    # (variant flags, unit) -> future

    def obj(self, cc, src, out, flags):
        return self.pool.submit(lambda: (run([cc, "-c", src, "-o", out] + flags), out)[1])

    def engine_objs(self, variant, units):
        futs = []
        for u in units:
            key = (variant, u)
            if key not in self.engine:
                out = os.path.join(self.dir, "eng_%s_%s.o" % (variant, u))
                self.engine[key] = self.obj("clang++", os.path.join(ENGINE, u + ".cpp"), out,
                                            ["-std=c++17"] + VARIANTS[variant][1] + BASE + INC)
            futs.append(self.engine[key])
        return futs

    def lib_objs(self, name, flags, override=None, extra=(), cc="clang"):
        d = os.path.join(self.dir, "lib_" + name)
        os.makedirs(d, exist_ok=True)
        cflags = list(flags) + BASE + INC
        if override is not None:
            f = os.path.join(d, "override.h")
            with open(f, "w") as h:
                h.write(override)
            cflags.append('-DVF_OVERRIDE_FILE="%s"' % f)
        futs = []
        for i, s in enumerate(lib_sources() + [os.path.join(ENGINE, "shim.c")] + list(extra)):
            futs.append(self.obj(cc, s, os.path.join(d, "%03d_%s.o" % (i, os.path.basename(s)[:-2])), cflags))
        return futs

    def link(self, name, variant, futs, flags=()):
        exe = os.path.join(self.dir, name)
        def go():
            objs = [f.result() for f in futs]
            run(["clang++", "-o", exe] + objs + list(VARIANTS[variant][2]) + ["-pthread"] + list(flags))
            return exe
        return go
