#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property by running the real code under monitors.

Builds the code under test from /repo's working tree (VERIF_REPO names another tree, for development) with the
harness in /verif/harness into a scratch directory, runs the workload of the property in several processes, merges what
they observed into evidence/ID.json. Exit 0: no violation observed. Exit 1 and a VIOLATION line: violated. Exit 2: no
verdict.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
BUDGET = {"quick": 840, "thorough": 6 * 3600}[TIER if TIER in ("quick", "thorough") else "quick"]
CPUS = max(1, min(8, os.cpu_count() or 1))
OURS = ("github.com/powerpuffpenguin/sessionid", "github.com/boltdb/bolt")

sys.path.insert(0, VERIF)
from checks_config import CHECKS  # noqa: E402

sys.stdout.reconfigure(encoding="utf-8", errors="backslashreplace")
START = time.time()
procs = []


class NoVerdict(Exception):
    pass


class Violation(Exception):
    def __init__(self, info):
        self.info = info


def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off", CGO_ENABLED="1")
    return e


def run(cmd, **kw):
    left = BUDGET - (time.time() - START)
    if left <= 0:
        raise NoVerdict("out of time")
    try:
        return subprocess.run(cmd, env=kw.pop("env", env()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8",
                              errors="replace", timeout=left, **kw)
    except subprocess.TimeoutExpired:
        raise NoVerdict("timed out: " + " ".join(cmd[:4]))


class Builds:
    """The test binaries, built on demand from the working tree."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.done = {}
        self.note = []
        mod = open(os.path.join(HARNESS, "go.mod")).read()
        mod = mod.replace("=> /repo", "=> " + REPO)
        self.mod = os.path.join(tmp, "h.mod")
        open(self.mod, "w").write(mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "h.sum"))

    def overlay(self, points):
        key = "overlay%d" % points
        if key not in self.done:
            if "instr" not in self.done:
                b = os.path.join(self.tmp, "instr")
                r = run(["go", "build", "-modfile", self.mod, "-o", b, "./instr"], cwd=HARNESS)
                if r.returncode:
                    raise NoVerdict("instrumenter does not build:\n" + r.stdout)
                self.done["instr"] = b
            out = os.path.join(self.tmp, key)
            os.makedirs(out, exist_ok=True)
            cmd = [self.done["instr"], "-src", REPO, "-out", out]
            if not points:
                cmd.append("-nopoints")
            r = run(cmd)
            if r.returncode:
                raise NoVerdict("instrumenter failed:\n" + r.stdout)
            self.done[key] = os.path.join(out, "overlay.json")
        return self.done[key]

    def get(self, kind):
        if kind in self.done:
            return self.done[kind]
        out = os.path.join(self.tmp, kind + ".test")
        last = ""
        for how in ("points", "nopoints", "plain"):
            cmd = ["go", "test", "-c", "-vet=off", "-modfile", self.mod, "-o", out]
            if how != "plain":
                cmd += ["-overlay", self.overlay(how == "points")]
            if kind == "race":
                cmd += ["-race", "-tags", "vreal", "-gcflags=github.com/boltdb/bolt=-d=checkptr=0"]
            r = run(cmd + ["./checks"], cwd=HARNESS)
            last = r.stdout
            if r.returncode == 0:
                if how != "points":
                    self.note.append("instrumentation level: " + how)
                self.done[kind] = out
                return out
        raise NoVerdict("the code under test does not build with the harness:\n" + last[-4000:])


def crash(log):
    """What a process that died said, if the fault lies in the code under test."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: ).*", log, re.M)
    if not m:
        return None
    text = log[m.start():]
    head = text[:6000]
    goroutines = re.split(r"\n\n", head)
    stack = "\n\n".join(goroutines[:3])
    for line in stack.splitlines():
        if any(line.startswith(o) for o in OURS):
            return head[:3000]
    return None


def shards(build, part, prop, tmp, only=None, seed=None, tier=None):
    """Run one part of a check; returns the merged observations or raises."""
    binary = build.get(part.get("build", "virtual"))
    count = part.get("shards", CPUS)
    n = 1 if only else count
    running = []
    root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-", dir=root)
    try:
        for i in range(n):
            d = os.path.join(scratch, "s%d" % i)
            os.makedirs(d)
            out = os.path.join(tmp, "%s-%s-%d.json" % (prop, part["name"], i))
            e = env()
            e.update(VH_PROP=part.get("prop", prop), VH_TIER=tier or TIER, VH_SEED=str(seed or SEED), VH_SHARD="%d/%d" % (i, count),
                     VH_OUT=out, VH_DIR=d, GOTRACEBACK="all")
            if only:
                e["VH_ONLY"] = only
            if part.get("build", "virtual") == "virtual":
                e.update(GOMAXPROCS="1", GODEBUG="asyncpreemptoff=1")
            else:
                e.update(GORACE="halt_on_error=0 exitcode=0 history_size=5 log_path=" + os.path.join(d, "race"), GOMAXPROCS="4")
            e.update(part.get("env", {}))
            log = open(out + ".log", "w+", encoding="utf-8", errors="replace")
            p = subprocess.Popen([binary, "-test.run", "^TestCheck$", "-test.timeout", "0", "-test.v=false"], cwd=d, env=e,
                                 stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append(p)
            running.append((p, out, log, d))
        pending = list(running)
        ended = []
        while pending:
            if time.time() - START > BUDGET:
                for p, *_ in pending:
                    os.killpg(p.pid, signal.SIGQUIT)
                time.sleep(1)
                if os.environ.get("VERIF_DEBUG"):
                    for p, out, log, d in pending:
                        log.flush(); log.seek(0); sys.stderr.write(log.read()[:6000])
                raise NoVerdict("the workload did not end in time")
            for x in list(pending):
                if x[0].poll() is not None:
                    pending.remove(x)
                    ended.append(x)
                    look(prop, part, x)
            time.sleep(0.02)
        merged = {"counters": {}, "samples": [], "distinct": set(), "points": 0}
        for p, out, log, d in running:
            o = json.load(open(out, encoding="utf-8", errors="replace"))
            if o["inconclusive"]:
                raise NoVerdict(o["inconclusive"])
            for k, v in o["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            merged["samples"] += o["samples"] or []
            merged["points"] = max(merged["points"], o["points_covered"])
            merged["distinct"].update(open(out + ".distinct").read().split())
            if part.get("build") == "race":
                races(prop, part, d, merged)
        return merged
    finally:
        for p, *_ in running:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def look(prop, part, x):
    p, out, log, d = x
    log.flush()
    log.seek(0)
    text = log.read()
    if os.path.exists(out + ".fail"):
        raise Violation(json.load(open(out + ".fail", encoding="utf-8", errors="replace")))
    races(prop, part, d, {"counters": {}})
    if p.returncode == 0:
        return
    if p.returncode == 4 and os.path.exists(out):
        return
    c = crash(text)
    if c:
        raise Violation({"property": prop, "case": "", "index": 0, "seed": SEED, "tier": TIER,
                         "message": "the process died in the code under test: " + c.splitlines()[0], "trace": c.splitlines()})
    raise NoVerdict("a workload process ended with %s:\n%s" % (p.returncode, text[-3000:]))


def races(prop, part, d, merged):
    reports = []
    for f in glob.glob(os.path.join(d, "race.*")):
        reports += [r for r in open(f, encoding="utf-8", errors="replace").read().split("==================") if "DATA RACE" in r]
    merged["counters"]["race_reports"] = merged["counters"].get("race_reports", 0) + len(reports)
    for r in reports:
        if OURS[0] in r or "callerOwned" in r:
            raise Violation({"property": prop, "case": "race detector", "index": 0, "seed": SEED, "tier": TIER,
                             "message": "data race", "trace": r.strip().splitlines()[:80]})
    if reports:
        raise NoVerdict("data race in the harness:\n" + reports[0][:3000])


def violation(prop, info, part):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-seed%s.json" % (prop, info.get("seed", SEED)))
    info["part"] = part
    info["replay"] = "python3 check.py %s --replay %s" % (prop, os.path.relpath(f, VERIF))
    json.dump(info, open(f, "w"), indent=1)
    print("%s %s:%s: %s" % (prop, info.get("case"), info.get("index"), info.get("message")))
    for t in (info.get("trace") or [])[-25:]:
        print("    " + t)
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, VERIF)), flush=True)


def evidence(prop, cfg, merged, violations):
    c = merged["counters"]
    cov = {
        "evaluations": c.get("evaluations", 0),
        "distinct_nontrivial": len(merged["distinct"]),
        "rule": cfg["rule"],
        "samples": [x[:1500] for x in merged["samples"][:6]],
        "observed": {k: v for k, v in sorted(c.items()) if k != "evaluations"},
        "instrumented_points_passed_distinct": merged["points"],
        "notes": merged["notes"],
    }
    e = {"property": prop, "tier": TIER, "seed": SEED, "level": cfg["level"], "coverage": cov,
         "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - START, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


def extra_minimal(build, prop, tmp, merged):
    """C02: a program that links nothing but the package itself."""
    d = os.path.join(tmp, "minimal")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(HARNESS, "minimal", "main.go.txt"), os.path.join(d, "main.go"))
    open(os.path.join(d, "go.mod"), "w").write(
        "module verif.local/minimal\n\ngo 1.26\n\nrequire github.com/powerpuffpenguin/sessionid v0.0.0\n\n"
        "replace github.com/powerpuffpenguin/sessionid => %s\n" % REPO)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(d, "go.sum"))
    r = run(["go", "build", "-o", "minimal", "."], cwd=d)
    if r.returncode:
        raise NoVerdict("minimal program does not build:\n" + r.stdout[-2000:])
    r = run([os.path.join(d, "minimal")], cwd=d)
    lines = r.stdout.splitlines()
    for line in lines:
        if line.startswith("FAIL"):
            raise Violation({"property": prop, "case": "minimal program", "index": 0, "seed": SEED, "tier": TIER, "message": line, "trace": lines})
    if r.returncode or not lines or not lines[-1].startswith("done"):
        c = crash(r.stdout)
        if c:
            raise Violation({"property": prop, "case": "minimal program", "index": 0, "seed": SEED, "tier": TIER, "message": c.splitlines()[0], "trace": c.splitlines()})
        raise NoVerdict("minimal program: " + r.stdout[-2000:])
    merged["counters"]["minimal_program_checks"] = int(lines[-1].split()[1])


EXTRA = {"minimal": extra_minimal}


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        r = run(["go", "version"])
        print(r.stdout.strip())
        return 0 if r.returncode == 0 else 2
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    only = seed = tier = rpart = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        info = json.load(open(sys.argv[3], encoding="utf-8", errors="replace"))
        seed, tier, rpart = info["seed"], info["tier"], info.get("part")
        if info.get("case") and info["case"] not in ("race detector", "minimal program"):
            only = "%s:%d" % (info["case"], info["index"])
    tmp = tempfile.mkdtemp(prefix="verif-build-")
    merged = {"counters": {}, "samples": [], "distinct": set(), "points": 0, "notes": []}
    try:
        build = Builds(tmp)
        for part in cfg["parts"]:
            if rpart and part["name"] != rpart:
                continue
            try:
                if "extra" in part:
                    EXTRA[part["extra"]](build, prop, tmp, merged)
                    continue
                m = shards(build, part, prop, tmp, only, seed, tier)
            except Violation as v:
                merged["notes"] = build.note
                violation(prop, v.info, part["name"])
                merged["samples"].append(v.info["message"])
                evidence(prop, cfg, merged, 1)
                return 1
            for k, x in m["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + x
            merged["samples"] += m["samples"]
            merged["distinct"] |= m["distinct"]
            merged["points"] = max(merged["points"], m["points"])
        merged["notes"] = build.note
        if not only and not rpart and not os.environ.get("VH_SCALE"):
            for k, least in cfg.get("require", {}).items():
                if merged["counters"].get(k, 0) < least:
                    raise NoVerdict("observed only %d of %s (at least %d expected)" % (merged["counters"].get(k, 0), k, least))
        evidence(prop, cfg, merged, 0)
        c = merged["counters"]
        print("%s held on %d cases (%d distinct), %d operations, %.1fs" % (
            prop, c.get("evaluations", 0), len(merged["distinct"]), c.get("operations", 0), time.time() - START))
        return 0
    except NoVerdict as e:
        print("%s: no verdict: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("%s: no verdict: the machinery failed" % prop)
        return 2
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
