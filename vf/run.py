#!/usr/bin/env python3
"""python3 vf/run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Rebuilds the library from /repo, runs the workloads of the property under its monitors and decides.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: the check failed to decide.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line[6:].split(" -- ")[0].split())
                out.append((f["property"], f["key"], line.split(" -- ", 1)[1]))
    return out


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=78:second_deadlock_stack=1",
}


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker:
    """One process which runs a block of episodes."""

    def __init__(self, check, exe, profile, seed, first, count, tag, wrapper=(), recover=False):
        self.check, self.exe, self.profile, self.seed, self.first, self.count = check, exe, profile, seed, first, count
        self.wrapper, self.recover = list(wrapper), recover
        self.out = os.path.join(check.scratch, "out_%s_%d.json" % (tag, first))

    def run(self, first=None, count=None, timeout=780):
        first = self.first if first is None else first
        count = self.count if count is None else count
        for suffix in ("", ".hash", ".status"):
            try:
                os.unlink(self.out + suffix)
            except FileNotFoundError:
                pass
        env = dict(os.environ)
        env.update(SAN_ENV)
        if self.recover:
            env["UBSAN_OPTIONS"] = env["UBSAN_OPTIONS"].replace("halt_on_error=1", "halt_on_error=0")
        cmd = self.wrapper + [self.exe, "--profile", self.profile, "--seed", str(self.seed), "--from", str(first), "--count", str(count),
               "--tier", "1" if self.check.tier == "thorough" else "0", "--out", self.out]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limits, cwd=self.check.scratch)
        with self.check.lock:
            self.check.procs.add(p)
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {"rc": "timeout"}
        finally:
            with self.check.lock:
                self.check.procs.discard(p)
        r = {"rc": p.returncode, "err": err.decode(errors="replace")[:200000]}
        if os.path.exists(self.out):
            try:
                r["json"] = json.load(open(self.out))
                data = open(self.out + ".hash", "rb").read()
                r["hash"] = struct.unpack("<%dQ" % (len(data) // 8), data)
            except Exception as e:
                r["rc"] = "unreadable result: %s" % e
        try:
            page = open(self.out + ".status", "rb").read()
            r["index"] = int(page[:64].split(b"\0")[0] or b"0")
            r["text"] = page[64:].split(b"\0")[0].decode(errors="replace")
        except Exception:
            r["index"], r["text"] = first, ""
        for suffix in ("", ".hash", ".status"):
            try:
                os.unlink(self.out + suffix)
            except FileNotFoundError:
                pass
        return r


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.PROPS[prop]
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False
        self.violation = None        # (key, text, replay info)
        self.errors = []
        self.counts = {}
        self.foreign_by = {}
        self.hashes = set()
        self.evals = self.episodes = self.foreign = 0
        self.samples = []
        self.known_seen = {}
        self.shipped_builds = None
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.builder = build.Builder(self.scratch)

    # -- results -------------------------------------------------------------------------------
    def report(self, key, text, info):
        for p, k, what in known_findings():
            if p == self.prop and k == key:
                self.known_seen[k] = what
                return
        with self.lock:
            if self.violation is None:
                self.violation = (key, text, info)
            self.stop = True
            for p in list(self.procs):
                try:
                    p.kill()
                except OSError:
                    pass

    def merge(self, j, hashes):
        with self.lock:
            self.episodes += j["episodes"]
            self.evals += j["evals"]
            self.foreign += j["foreign"]
            for k, v in j["counts"].items():
                self.counts[k] = max(self.counts.get(k, 0), v) if k.startswith("max.") else self.counts.get(k, 0) + v
            for k, v in j["foreign_by"].items():
                self.foreign_by[k] = self.foreign_by.get(k, 0) + v
            self.hashes.update(hashes)
            for s in j["samples"]:
                if len(self.samples) < 6 and s not in self.samples:
                    self.samples.append(s)

    def classify(self, r):
        """-> None (fine), ('violation', key, text) or ('error', text) or ('hang', text)"""
        rc = r["rc"]
        if rc == 0 and "json" in r:
            return None
        if rc == 1 and "json" in r and r["json"]["violated"]:
            t = r["json"]["text"]
            return ("violation", "oracle", t)
        err = r.get("err", "")
        if rc in (77, 78, 79) or (isinstance(rc, int) and rc < 0 and rc not in (-9, -6)) or "Sanitizer" in err and rc == 1:
            what = "crash"
            for line in err.splitlines():
                if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "WARNING: ThreadSanitizer" in line or rc == 79 and line.startswith("=="):
                    what = line.strip()
                    break
            return ("violation", "sanitizer", "%s\nexit code %s\n%s\nepisode:\n%s" % (what, rc, err[:12000], r.get("text", "")))
        if rc == -6 and "*** " in err and " detected ***" in err:       # hardened library calls, protected stack
            return ("violation", "hardening", "%s\nepisode:\n%s" % (err[:2000], r.get("text", "")))
        if rc == 96:
            return ("violation", "assert", "%s\nepisode:\n%s" % (err[:2000], r.get("text", "")))
        if rc == 97:
            return ("hang", "%s\nepisode:\n%s" % (err[:2000], r.get("text", "")))
        return ("error", "worker ended with %s: %s\n%s" % (rc, err[-3000:], r.get("text", "")[:1000]))

    def block(self, w, info, job):
        if self.stop:
            return
        r = w.run()
        c = self.classify(r)
        if self.stop and c is not None:
            return          # killed because another block found something
        if "json" in r:
            self.merge(r["json"], r.get("hash", ()))
        if job.stderr and not self.stop:
            for key, text in job.stderr(self, r.get("err", "")):
                self.report(key, text, dict(info, index=w.first))
        if c is None:
            return
        info = dict(info)
        if c[0] == "violation":
            if job.keyer:
                c = (c[0], job.keyer(c[1], c[2]), c[2])
            info["index"] = r["json"]["index"] if c[1] == "oracle" else r["index"]
            self.report(c[1], c[2], info)
            return
        if c[0] == "hang":
            # confirm alone
            info["index"] = r["index"]
            r2 = w.run(first=r["index"], count=1)
            c2 = self.classify(r2)
            if self.stop:
                return
            if c2 and c2[0] in ("hang", "violation"):
                self.report("hang", c2[-1], info)
            else:
                with self.lock:
                    self.errors.append("hang of episode %d did not repeat" % r["index"])
            return
        with self.lock:
            self.errors.append(c[1])

    # -- main ----------------------------------------------------------------------------------
    def prepare(self, jobs):
        """Starts every compilation, then links; returns [(job, exe)]"""
        links = {}
        for j in jobs:
            if j.exe_key() in links:
                continue
            eng = self.builder.engine_objs(j.variant, props.UNITS + list(j.units))
            lib = self.builder.lib_objs(j.exe_key(), build.VARIANTS[j.variant][0] + list(j.lib_flags), j.override, j.extra_sources(), j.cc)
            links[j.exe_key()] = self.builder.link("vf_" + j.exe_key(), j.variant, eng + lib, j.link_flags)
            if j.post:
                links[j.exe_key()] = j.post(self, j, eng, lib)
        exes = {k: f for k, f in links.items()}
        with cf.ThreadPoolExecutor(8) as p:
            done = {k: p.submit(f) for k, f in exes.items()}
            exes = {}
            for k, f in done.items():
                try:
                    exes[k] = f.result()
                except build.BuildError as e:
                    self.unbuilt(next(j for j in jobs if j.exe_key() == k), e)
        return [(j, exes[j.exe_key()]) for j in jobs if j.exe_key() in exes]

    def unbuilt(self, job, e):
        """A configuration which does not build is a violation where builds of all of them are promised, if the shipped one builds"""
        if not job.configuration:
            raise e
        if self.shipped_builds is None:
            objs = self.builder.engine_objs("asan", props.UNITS + list(job.units)) + self.builder.lib_objs("shipped", build.VARIANTS["asan"][0])
            self.builder.link("vf_shipped", "asan", objs)()       # raises if it does not either
            self.shipped_builds = True
        self.report("build", "the library does not build in configuration %s\n%s\n%s" % (job.name, job.override or " ".join(job.lib_flags), e),
                    {"job": job.name, "profile": job.profile, "seed": self.seed, "property": self.prop, "tier": self.tier, "index": 0})

    def run(self, only=None):
        jobs = self.spec.jobs
        if callable(jobs):
            jobs = jobs(self.seed, self.tier)
        if only:
            jobs = [j for j in jobs if j.name == only["job"]]
        todo = []
        built = self.prepare(jobs)
        self.build_s = time.time() - self.t0
        for j, exe in built:
            count = j.thorough if self.tier == "thorough" else j.quick
            info = {"job": j.name, "profile": j.profile, "seed": self.seed, "property": self.prop, "tier": self.tier}
            if only:
                todo.append((Worker(self, exe, j.profile, only["seed"], only["index"], 1, j.name, j.wrapper, bool(j.stderr)), info, j))
                continue
            n = max(1, count // j.blocks)
            first = 0
            while first < count:
                todo.append((Worker(self, exe, j.profile, self.seed, first, min(n, count - first), j.name, j.wrapper, bool(j.stderr)), info, j))
                first += n
        # interleave the jobs, so that a failure of any of them is seen early
        todo.sort(key=lambda x: (x[0].first / max(1, x[0].count), x[1]["job"]))
        if not only:
            for h in self.spec.hooks:
                h(self)
        with cf.ThreadPoolExecutor(8) as pool:
            for f in [pool.submit(self.block, w, i, j) for w, i, j in todo]:
                f.result()

    def finish(self):
        sp = self.spec
        if self.violation:
            key, text, info = self.violation
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            name = "%s-%s.txt" % (self.prop, hashlib.sha1((key + text).encode()).hexdigest()[:10])
            path = os.path.join(d, name)
            with open(path, "w") as f:
                f.write("#VF %s\n" % json.dumps(info))
                f.write("property %s, %s\nreplay: python3 vf/run.py %s --replay %s\n\n" % (self.prop, key, self.prop, path))
                f.write(text + "\n")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.hashes),
                "rule": sp.rule,
                "samples": self.samples or ["(none)"],
                "episodes": self.episodes,
                "observed": dict(sorted(self.counts.items())),
                "foreign_divergences": self.foreign_by,
            },
            "assumptions": sp.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.violation:
            print(self.violation[1][:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.errors:
            print("inconclusive: " + self.errors[0][:3000], file=sys.stderr)
            return 3
        if self.evals == 0 or len(self.hashes) < 2:
            print("inconclusive: nothing observed", file=sys.stderr)
            return 4
        def saw(k):
            if self.counts.get(k):
                return True
            return k.startswith("observed.") and any(n.startswith("observed.") and k[9:] in n[9:].split("+") and v for n, v in self.counts.items())
        missing = [k for k in sp.must_see if not saw(k)]
        if missing:
            print("inconclusive: never observed: " + ", ".join(missing), file=sys.stderr)
            return 4
        print("%s %s: held on %d episodes, %d evaluations, %d distinct (%d foreign), build %.1f s, total %.1f s" %
              (self.prop, self.tier, self.episodes, self.evals, len(self.hashes), self.foreign, self.build_s, time.time() - self.t0))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    only = None
    if a.replay:
        only = json.loads(open(a.replay).readline()[4:])
        a.seed, a.tier = only["seed"], only["tier"]
    c = Check(a.property, a.tier, a.seed)
    try:
        try:
            c.run(only)
        except build.BuildError as e:
            print("build failed: %s" % e, file=sys.stderr)
            return 2
        if only:
            if c.violation:
                print(c.violation[1])
            print("reproduced" if c.violation else "not reproduced")
            return 1 if c.violation else 0
        return c.finish()
    finally:
        c.builder.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
