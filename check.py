#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py PROPERTY [quick|thorough]

A check is a list of jobs (see props.py).  A "model" job explores a TLA+ model with TLC.  A "replay" job lets TLC
write scenarios from the specification, replays them on the code of /repo (one process per shard and backend), and
lets TLC validate the recorded traces against the specification.
Exit status: 0 if the property held on everything explored, 1 otherwise.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


def tlc(module, scratch, env, timeout, cfg=None, heap="2g", workers=1):
    """Runs TLC on a module of spec/; returns (status, output)."""
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", (cfg or module) + ".cfg", module + ".tla"]
    e = dict(os.environ, **{k: str(v) for k, v in env.items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def worker_env(backend, scratch):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME",)}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=os.path.join(REPO, "src"), KERAS_BACKEND=backend,
             KERAS_HOME=scratch, MPLBACKEND="Agg", MPLCONFIGDIR=scratch, CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
             TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0")
    return e


class Run:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.pool = cf.ThreadPoolExecutor(max_workers=8)
        self.fails = []      # (job, shard, line)
        self.errors = []     # anything that prevented the check from deciding
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, runs_validated=0)
        self.samples = []
        self.detail = []
        self.t0 = time.time()

    # ------------------------------------------------------------------------------------------------ jobs
    def model(self, job):
        st, out = tlc(job["module"], self.scratch, job.get("env", {}), job.get("timeout", 800), cfg=job.get("cfg"),
                      heap=job.get("heap", "4g"), workers=job.get("workers", 2))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m:
            self.cov["states"] += int(m.group(2))
            self.cov["transitions"] += int(m.group(1))
        self.detail.append(dict(job="model", module=job["module"], cfg=job.get("cfg", job["module"]), status=st,
                                states=int(m.group(2)) if m else 0))
        if st != 0:
            self.fails.append((job, None, "MODEL %s: %s" % (job.get("cfg", job["module"]), tail(out))))

    def replay(self, job, i):
        """One replay job: generation, then for each shard the worker followed by the validation of its trace."""
        scen = os.path.join(self.scratch, "scen%d.json" % i)
        env = dict(job["env"], SEED=self.seed + 1000 * job.get("salt", 0), OUT=scen, TIER=self.tier)
        st, out = tlc(job["gen"], self.scratch, env, 600, heap="4g", cfg=job.get("gencfg"))
        if st != 0 or not os.path.exists(scen):
            raise RuntimeError("generation of the scenarios: " + tail(out))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m and job.get("enumerates"):
            self.cov["states"] += int(m.group(2))
            self.cov["transitions"] += int(m.group(1))
        cases = json.load(open(scen))
        n = len(cases)
        self.samples += [short(c) for c in cases[::max(1, n // 2)][:2]]
        self.detail.append(dict(job="replay", gen=job["gen"], env={k: v for k, v in job["env"].items()}, scenarios=n))
        futs = []
        for be, k in job.get("shards", (("torch", 4), ("tensorflow", 4))):
            for s in range(k):
                futs.append(self.pool.submit(self.shard, job, i, scen, be, s, k))
        return futs

    def shard(self, job, i, scen, be, s, k):
        out = os.path.join(self.scratch, "trace%d-%s-%d.json" % (i, be, s))
        for attempt in (1, 2):      # a process may be ended when the sandbox runs out of memory: try again once
            p = subprocess.run([PY, os.path.join(HARNESS, job["worker"]), scen, out, str(s), str(k)], cwd=self.scratch,
                               env=worker_env(be, self.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=job.get("timeout", 1500))
            if p.returncode == 0 and os.path.exists(out):
                break
            if attempt == 2:
                self.fails.append((job, (i, be, s), "the replay on the real code stopped (%s): %s" % (be, tail(p.stdout))))
                return
        trace = json.load(open(out))
        if not trace:
            return
        env = dict(TRACE=out, CLAUSES="+" + "+".join(job["clauses"]) + "+")
        st, o = tlc(job["trace"], self.scratch, env, job.get("timeout", 1500))
        m = re.search(r"READ (\d+) OF (\d+)", o)
        if st != 0 or not m or m.group(1) != m.group(2):
            self.errors.append("validation of the trace (%s %s): %s" % (job["trace"], be, tail(o)))
            return
        self.cov["traces_validated_against_impl"] += len(trace)
        self.cov["runs_validated"] += sum(len(c.get("runs", c.get("hist", [0]))) for c in trace)
        g = re.search(r"(\d+) states generated", o)
        self.cov["states"] += int(m.group(1))
        self.cov["transitions"] += int(g.group(1)) if g else 0
        for line in o.splitlines():
            if line.startswith('"FAIL '):
                self.fails.append((job, (i, be, s), line.strip('"').replace('\\"', "'")))

    # ---------------------------------------------------------------------------------------------- report
    def go(self):
        p = PROPS[self.prop](self.tier)
        models = [j for j in p["jobs"] if "module" in j]
        replays = [j for j in p["jobs"] if "gen" in j]
        mpool = cf.ThreadPoolExecutor(max_workers=2)
        mf = [mpool.submit(self.model, j) for j in models]
        gpool = cf.ThreadPoolExecutor(max_workers=4)
        gens = [gpool.submit(self.replay, j, i) for i, j in enumerate(replays)]
        for g in gens:
            for f in g.result():
                f.result()
        for f in mf:
            f.result()
        return p

    def save_replay(self, n, job, shard, line):
        """Writes what is needed to run the failing case again; returns the path."""
        path = os.path.join(HERE, "evidence", "replay-%s-%d.json" % (self.prop, n))
        rec = dict(property=self.prop, tier=self.tier, seed=self.seed, line=line)
        if shard and "worker" in job:
            i, be, s = shard
            m = re.search(r"case=(\S+)", line)
            scen = os.path.join(self.scratch, "scen%d.json" % i)
            cases = [c for c in json.load(open(scen)) if m and c.get("id") == m.group(1)]
            rec.update(backend=be, worker=job["worker"], trace=job["trace"], clauses=job["clauses"], scenarios=cases)
        json.dump(rec, open(path, "w"))
        return path


def short(c, n=1500):
    """A scenario, with its long lists cut, for the evidence file."""
    c = {k: (v[:2] if k in ("pts", "boxes", "runs", "steps", "centers") and isinstance(v, list) else v) for k, v in c.items()}
    if "pts" in c and isinstance(c["pts"], list):
        c["pts"] = [p[:3] if isinstance(p, list) else p for p in c["pts"]]
    t = json.dumps(c)
    return c if len(t) < n else t[:n]


def tail(s, n=1500):
    s = "\n".join(l for l in (s or "").splitlines() if not re.match(r"(Parsing|Semantic|Linting|Starting|Running|TLC2)", l))
    return s[-n:].strip().replace("\n", " | ")


def known_findings(prop):
    """Patterns of the failures of this property recorded in known_findings.txt."""
    res = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=(.*) what=(.*)", line.strip())
        if m and m.group(1) == prop:
            res.append(dict(match=m.group(2), what=m.group(3)))
    return res


def replay_file(path):
    rec = json.load(open(path))
    print(rec["line"])
    if not rec.get("scenarios"):
        return 1
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        json.dump(rec["scenarios"], open(os.path.join(scratch, "scen0.json"), "w"))
        r = Run(rec["property"], rec["tier"], rec["seed"], scratch)
        r.shard(dict(worker=rec["worker"], trace=rec["trace"], clauses=rec["clauses"]), 0, os.path.join(scratch, "scen0.json"),
                rec["backend"], 0, 1)
        for f in r.fails:
            print(f[2])
        return 1 if r.fails else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-")
    r = Run(prop, tier, seed, scratch)
    violations = 0
    try:
        try:
            p = r.go()
        except Exception as e:  # noqa
            r.errors.append("%s: %s" % (type(e).__name__, e))
            p = PROPS[prop](tier)
        known = known_findings(prop)
        seen = set()
        for job, shard, line in r.fails:
            k = next((k for k in known if re.search(k["match"], line)), None)
            if k:
                if k["what"] not in seen:
                    seen.add(k["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            violations += 1
            if violations <= 5:
                path = r.save_replay(violations, job, shard, line)
                print(line)
                print("VIOLATION property=%s replay=%s" % (prop, path))
        if r.errors and not violations:      # the check could not read what the code does: the code left the specified interface
            path = r.save_replay(1, {}, None, r.errors[0])
            print("ERROR " + r.errors[0])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            violations = 1
        cov = dict(r.cov, samples=r.samples[:6], explanation=p["covers"], checker_cmd="tlc2.TLC (TLA+ tools 1.8.0)", bounds=r.detail)
        ev = dict(property=prop, tier=tier, seed=seed, level=p["level"], coverage=cov, assumptions=p.get("assumptions", []),
                  wall_s=round(time.time() - r.t0, 1), violations=violations)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("%s %s: %d states, %d transitions, %d traces, %d runs validated, %d violations, %.1f s" % (
        prop, tier, r.cov["states"], r.cov["transitions"], r.cov["traces_validated_against_impl"], r.cov["runs_validated"], violations,
        time.time() - r.t0))
    sys.stdout.flush()
    os._exit(1 if violations else 0)


if __name__ == "__main__":
    main()
