#!/usr/bin/env python3
"""Runs the generated-input tests of one property and writes its evidence.

    python3 check.py C12              quick or thorough tier, by VERIF_TIER
    python3 check.py C12 --replay F   run a recorded failure again (file from replays/)

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not run (build error, time out, harness error).
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CONF = json.load(open(os.path.join(HERE, "checks.json")))
CORES = 8


def goenv():
    e = {
        "HOME": "/root",
        "PATH": "/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin",
        "GOROOT": "", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off",
        "CGO_ENABLED": "1", "GOPATH": "/root/go", "GOCACHE": "/root/.cache/go-build",
        "GOFLAGS": "-mod=mod -buildvcs=false", "GONOSUMDB": "*", "GONOSUMCHECK": "1",
        "GOGC": "200",
    }
    for k in ("VERIF_SEED", "VERIF_TIER", "VH_SCALE"):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def build(cfg, work, env):
    """Compiles the property's test package against /repo's working tree."""
    mod = os.path.join(HERE, "h", cfg["module"])
    modfile = os.path.join(work, "go.mod")
    src = open(os.path.join(mod, "go.mod")).read()
    src = src.replace("=> ../vh", "=> " + os.path.join(HERE, "h", "vh"))
    open(modfile, "w").write(src)
    shutil.copy(os.path.join(mod, "go.sum"), os.path.join(work, "go.sum"))
    out = os.path.join(work, "test.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-modfile=" + modfile]
    if cfg.get("race"):
        cmd.append("-race")
    if cfg.get("overlay"):
        rep = {}
        for dst, s in cfg["overlay"].items():
            rep[os.path.join(REPO, dst)] = os.path.join(HERE, "h", s)
        ov = os.path.join(work, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        cmd += ["-overlay", ov]
    cmd.append(cfg["package"])
    p = subprocess.run(cmd, cwd=mod, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD FAILED\n" + p.stdout[-6000:])
        sys.exit(2)
    return out


class Job:
    def __init__(self, test, shard, shards):
        self.test, self.shard, self.shards = test, shard, shards
        self.rc, self.log, self.stats, self.wall, self.timeout = None, "", [], 0.0, False


def run_job(job, binary, work, env, limit, extra=()):
    d = tempfile.mkdtemp(prefix="run-", dir=work)
    job.dir = d
    e = dict(env)
    e["VH_STATS"] = os.path.join(d, "stats.json")
    e["TMPDIR"] = d
    if job.shards > 1:
        e["VH_SHARD"] = "%d/%d" % (job.shard, job.shards)
    cmd = [binary, "-test.run", "^%s$" % job.test, "-test.timeout", "%ds" % limit, "-test.v=false"] + list(extra)
    start = time.time()
    with open(os.path.join(d, "log"), "wb") as lf:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            job.rc = p.wait(timeout=limit + 20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            job.rc, job.timeout = -9, True
    job.wall = time.time() - start
    job.log = open(os.path.join(d, "log"), errors="replace").read()
    try:
        job.stats = json.load(open(e["VH_STATS"])) or []
    except (OSError, ValueError):
        job.stats = []
    return job


def judge(job):
    """ok, violation or error"""
    if job.rc == 0:
        return "ok"
    if job.timeout or "panic: test timed out" in job.log:
        return "error"
    if "HARNESS-ERROR" in job.log or job.rc == 3:
        return "error"
    if "--- FAIL" in job.log:
        return "violation"
    if "WARNING: DATA RACE" in job.log:
        return "violation"
    # the process died: only the code under test can be blamed if its frames are in the trace
    if job.rc == 2 and re.search(r"^(panic:|fatal error:)", job.log, re.M):
        if "out of memory" in job.log:
            return "error"
        return "violation" if "/repo/" in job.log else "error"
    if job.rc == 1 and not job.log.strip().startswith("flag provided"):
        return "violation"  # ended by the code under test, e.g. log.Fatal
    return "error"


def save_replay(prop, job, seed, tier):
    name = "%s-%s-%d%s" % (prop, job.test, seed, "-%d" % job.shard if job.shards > 1 else "")
    dst = os.path.join(HERE, "replays", name)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "log.txt"), "w").write(job.log)
    fail = None
    for root, _, files in os.walk(job.dir):
        for f in files:
            if f.endswith(".fail"):
                fail = "case.fail"
                shutil.copy(os.path.join(root, f), os.path.join(dst, fail))
    rec = {"property": prop, "test": job.test, "seed": seed, "tier": tier, "shard": job.shard, "shards": job.shards, "failfile": fail}
    path = os.path.join(dst, "replay.json")
    json.dump(rec, open(path, "w"), indent=1)
    return path


def build_all():
    env = goenv()
    bad = 0
    for prop, cfg in CONF.items():
        if prop.startswith("_"):
            continue
        work = tempfile.mkdtemp(prefix="verif-build-")
        env["GOTMPDIR"] = work
        try:
            build(cfg, work, env)
        except SystemExit:
            # the check itself will report it
            bad += 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    print("built all but", bad)
    return 0


def main():
    if sys.argv[1] == "--build-all":
        return build_all()
    prop = sys.argv[1]
    cfg = CONF[prop]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    start = time.time()
    env = goenv()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, cfg, replay, start, env, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, cfg, replay, start, env, tier, seed, work):
    env["GOTMPDIR"] = work
    binary = build(cfg, work, env)
    limit = 780 if tier == "quick" else 6 * 3600
    if replay:
        rec = json.load(open(replay))
        env["VERIF_SEED"], env["VERIF_TIER"] = str(rec["seed"]), rec["tier"]
        job = Job(rec["test"], rec["shard"], rec["shards"])
        extra = []
        if rec.get("failfile"):
            extra = ["-rapid.failfile=" + os.path.join(os.path.dirname(os.path.abspath(replay)), rec["failfile"])]
        run_job(job, binary, work, env, limit, extra)
        print(job.log)
        v = judge(job)
        if v == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        return {"ok": 0, "violation": 1, "error": 2}[v]
    tests = subprocess.run([binary, "-test.list", ".*"], cwd=work, env=env, stdout=subprocess.PIPE, text=True).stdout.split()
    tests = [t for t in tests if t.startswith("Test")]
    only = cfg.get("tests")
    if only:
        tests = [t for t in tests if re.match(only, t)]
    if not tests:
        print("no tests found")
        return 2
    jobs = []
    shards = cfg.get("shards") or {}
    default = max(1, CORES // len(tests))
    for t in tests:
        k = shards.get(t, default)
        jobs += [Job(t, i, k) for i in range(k)]
    # long ones first
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda j: run_job(j, binary, work, env, limit), jobs))
    verdicts = [judge(j) for j in jobs]
    merged = {}
    for j in jobs:
        for s in j.stats:
            m = merged.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "nontrivial": 0, "keys": set(), "over": 0, "classes": {}, "samples": []})
            m["evaluations"] += s["evaluations"]
            m["nontrivial"] += s["nontrivial"]
            keys = s.get("keys") or []
            m["keys"].update(keys)
            m["over"] += s["distinct_nontrivial"] - len(keys)
            for k, v in (s.get("classes") or {}).items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            m["samples"] += s.get("samples") or []
    violations = [j for j, v in zip(jobs, verdicts) if v == "violation"]
    errors = [j for j, v in zip(jobs, verdicts) if v == "error"]
    per_test, rule, samples, ev, dn = {}, [], [], 0, 0
    for name in sorted(merged):
        m = merged[name]
        d = len(m["keys"]) + m["over"]
        ev += m["evaluations"]
        dn += d
        cl = dict(sorted(m["classes"].items(), key=lambda kv: -kv[1])[:40])
        per_test[name] = {"evaluations": m["evaluations"], "distinct_nontrivial": d, "classes": cl}
        rule.append("%s: %s" % (name, m["rule"]))
        samples += ["%s: %s" % (name, s) for s in m["samples"][-3:]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": " | ".join(rule), "samples": samples, "tests": per_test},
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - start, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    known = [l for l in open(os.path.join(HERE, "known-findings.txt")) if l.startswith("finding: property=%s " % prop)] \
        if os.path.exists(os.path.join(HERE, "known-findings.txt")) else []
    for l in known:
        what = l.strip()[len("finding: "):]
        print("KNOWN-FINDING: " + what)
    print("%s %s: %d cases, %d distinct non-trivial, %d tests in %.1fs" % (prop, tier, ev, dn, len(tests), time.time() - start))
    for j in errors:
        print("CHECK ERROR in %s (exit %s):\n%s" % (j.test, j.rc, j.log[-4000:]))
    for j in violations:
        print(j.log[-5000:])
        print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, j, seed, tier)))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
