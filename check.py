#!/usr/bin/env python3
"""Supervisor of the runtime monitors: builds the monitored program from /repo's working tree, runs its workers,
judges how they ended, and writes the evidence.

  check.py C01            one check (VERIF_SEED, VERIF_TIER or --seed/--tier)
  check.py --replay FILE  run the recorded case of a violation again
  check.py --setup        build everything once
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(WORK, "target")
EVID = os.path.join(VERIF, "evidence")
SHARDS = 8

sys.path.insert(0, os.path.join(VERIF, "tools"))
import builds, derive_build, refusal, san_build  # noqa: E402

LEVEL = {"C07": "fault_enumeration", "C08": "fault_enumeration", "C24": "fault_enumeration"}
ENGINE = {"C16": "derive", "C17": "derive", "C18": "derive", "C19": "san", "C20": "san", "C29": "builds", "C30": "builds", "C31": "refuse"}
ASSUME = {
    "main": [
        "the harness's generator and canonical model follow the public ULog file format description (cross-checked "
        "against a second decoder at run time)",
        "held on the executions observed; inputs are sampled, not enumerated, unless the rule says so",
    ],
}


class Infra(Exception):
    """The check could not be carried out (exit 2)."""


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("timed out: " + " ".join(cmd))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_main():
    cmd = ["cargo", "build", "--release", "--offline", "-q", "--bin", "ymon"]
    env = {"CARGO_TARGET_DIR": TARGET}
    rc, out = sh(cmd, cwd=os.path.join(VERIF, "harness"), env=env)
    if rc != 0:
        # The derived structs of mapped.rs do not compile: C16 to C18 judge that; here go on without them.
        rc, _ = sh(cmd + ["--no-default-features"], cwd=os.path.join(VERIF, "harness"), env=env)
    if rc != 0:
        raise Infra("the harness does not build against /repo:\n" + out[-6000:])
    return os.path.join(TARGET, "release", "ymon")


class Job:
    """One worker process."""

    def __init__(self, cmd, shard, out, env=None, cwd=None):
        self.cmd, self.shard, self.out = cmd, shard, out
        self.log = open(os.path.join(out, f"log-{shard}"), "wb")
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)

    def text(self):
        self.log.flush()
        with open(os.path.join(self.out, f"log-{self.shard}"), "rb") as f:
            b = f.read()
        return b[-20000:].decode("utf-8", "replace")

    def case(self):
        try:
            return int(open(os.path.join(self.out, f"progress-{self.shard}")).read().split()[0])
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def norm_sig(s):
    s = re.sub(r"0x[0-9a-fA-F]+", "0x#", s)
    return re.sub(r"\d+", "#", s)


def judge_end(job, rc, viol, errors):
    """Turns the end of a worker into a violation or an error of the check."""
    case = job.case()
    txt = job.text()
    if rc == 0:
        return
    if rc == 77:
        viol.append(dict(sig="hang", case=case, detail=f"case {case} used more CPU time than any message present can justify", input_hex=""))
        return
    if rc < 0:
        s = -rc
        if s == signal.SIGKILL:
            errors.append(f"worker {job.shard} was killed (memory?)")
            return
        name = signal.Signals(s).name
        if "stack overflow" in txt or "overflowed its stack" in txt:
            kind = "stack-overflow"
        elif "memory allocation of" in txt:
            kind = "memory-exhausted"
        else:
            kind = "crash:" + name
        viol.append(dict(sig=kind, case=case, detail=f"the process died with {name} in case {case}: {txt[-1500:]}", input_hex=""))
        return
    errors.append(f"worker {job.shard} ended with {rc} in case {case}: {txt[-3000:]}")


def run_workers(binary, pid, seed, tier, out, cases=None, deadline=780, env=None, shards=SHARDS):
    jobs = []
    for i in range(shards):
        cmd = [binary, "worker", pid, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--tier", tier, "--out", out]
        if cases is not None:
            cmd += ["--cases", str(cases)]
        jobs.append(Job(cmd, i, out, env))
    return wait_jobs(jobs, deadline)


def wait_jobs(jobs, deadline):
    t0 = time.time()
    viol, errors = [], []
    live = list(jobs)
    while live:
        for j in list(live):
            rc = j.p.poll()
            if rc is not None:
                live.remove(j)
                judge_end(j, rc, viol, errors)
        if live and time.time() - t0 > deadline:
            for j in live:
                errors.append(f"worker {j.shard} not finished after {deadline} s (case {j.case()})")
                j.kill()
            break
        time.sleep(0.02)
    return viol, errors


def collect(out, viol, errors):
    tot = dict(cases=0, evals=0, counters={}, samples=[])
    hashes = set()
    for f in sorted(glob.glob(os.path.join(out, "shard-*.json"))):
        d = json.load(open(f))
        tot["cases"] += d["cases"]
        tot["evals"] += d["evals"]
        for k, v in d["counters"].items():
            old = tot["counters"].get(k, 0)
            tot["counters"][k] = max(old, v) if k.startswith("max") else old + v
        if len(tot["samples"]) < 6:
            tot["samples"] += d["samples"][:2]
        viol += d["violations"]
        if d["harness_error"]:
            errors.append("harness error: " + d["harness_error"])
    for f in glob.glob(os.path.join(out, "hashes-*")):
        b = open(f, "rb").read()
        hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
    tot["distinct"] = len(hashes)
    return tot


def describe(binary, pid):
    rc, out = sh([binary, "list"])
    for l in out.splitlines():
        p = l.split("\t")
        if len(p) >= 5 and p[0] == pid:
            return p[3], [x for x in p[4].split(",") if x]
    raise Infra(f"{pid} unknown to {binary}")


def known():
    try:
        return json.load(open(os.path.join(VERIF, "known-findings.json")))["known"]
    except FileNotFoundError:
        return []


def report(pid, tier, seed, t0, tot, rule, viol, errors, need, level, assumptions, extra_cov, engine_cmd):
    """Prints the verdict, writes evidence, returns the exit code."""
    kf = [k for k in known() if k["property"] == pid]
    seen_known, fresh = set(), {}
    for v in viol:
        m = [k for k in kf if k["signature"] == v["sig"]]
        if m:
            seen_known.add(m[0]["signature"])
        else:
            fresh.setdefault(v["sig"], v)
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    lines = []
    for sig, v in list(fresh.items())[:8]:
        h = hashlib.sha1(sig.encode()).hexdigest()[:8]
        path = os.path.join(rdir, f"{pid}-{h}.json")
        json.dump(dict(property=pid, seed=seed, tier=tier, case=v["case"], signature=sig, detail=v["detail"],
                       input_hex=v.get("input_hex", ""), how=engine_cmd,
                       replay=f"python3 {VERIF}/check.py --replay {path}"), open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"[{sig}] case {v['case']}: {v['detail'][:1500]}")
    if not fresh:
        for n in need:
            if tot["counters"].get(n, 0) == 0:
                errors.append(f"the monitors never observed '{n}'")
    cov = dict(evaluations=tot["evals"], distinct_nontrivial=tot["distinct"], rule=rule, samples=tot["samples"] or ["none"],
               cases=tot["cases"], observed=dict(sorted(tot["counters"].items())), exhaustive=False)
    cov.update(extra_cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if errors:
        ev["coverage"]["errors"] = errors[:10]
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if lines:
        for l in lines:
            print(l)
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR:", e)
        return 2
    print(f"{pid} held: {tot['cases']} cases, {tot['evals']} evaluations, {tot['distinct']} distinct non-trivial, "
          f"{ev['wall_s']} s, seed {seed}, {tier}")
    return 0


def check(pid, tier, seed, cases=None):
    t0 = time.time()
    out = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=WORK)
    deadline = 780 if tier == "quick" else 6 * 3600
    try:
        eng = ENGINE.get(pid, "main")
        extra = {}
        if eng == "main":
            b = build_main()
            rule, need = describe(b, pid)
            viol, errors = run_workers(b, pid, seed, tier, out, cases, deadline)
        elif eng == "builds":
            viol, errors, rule, need, extra = builds.run(sys.modules[__name__], pid, tier, seed, out, cases, deadline)
        elif eng == "refuse":
            viol, errors, rule, need, extra = refusal.run(sys.modules[__name__], pid, tier, seed, out, cases, deadline)
        elif eng == "derive":
            viol, errors, rule, need, extra = derive_build.run(sys.modules[__name__], pid, tier, seed, out, cases, deadline)
        else:
            viol, errors, rule, need, extra = san_build.run(sys.modules[__name__], pid, tier, seed, out, cases, deadline)
        tot = collect(out, viol, errors)
        tot["evals"] += len([v for v in viol if v["sig"].startswith(("hang", "crash", "stack", "memory"))])
        return report(pid, tier, seed, t0, tot, rule, viol, errors, need, LEVEL.get(pid, "exploration"),
                      ASSUME.get(eng, ASSUME["main"]), extra, eng)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    eng = ENGINE.get(pid, "main")
    print(f"{pid} seed {r['seed']} tier {r['tier']} case {r['case']}: {r['signature']}\n{r['detail']}\n")
    if eng == "main":
        b = build_main()
    elif eng == "derive":
        b = derive_build.binary_for(sys.modules[__name__], pid, r["tier"], r["seed"], r["case"])
    else:
        print("re-running the whole check (replayed by seed)")
        return check(pid, r["tier"], r["seed"])
    if b is None:
        return 1
    rc, out = sh([b, "replay", pid, "--seed", str(r["seed"]), "--case", str(r["case"]), "--tier", r["tier"]])
    print(out)
    return 0 if rc == 0 else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    os.environ.pop("CARGO_TARGET_DIR", None)
    try:
        if a.setup:
            print(build_main())
            me = sys.modules[__name__]
            derive_build.build(me, "quick", a.seed, 0, derive_build.PROGRAMS["quick"])
            san_build.setup(me)
            builds.setup(me)
            sys.exit(0)
        if a.replay:
            sys.exit(replay(a.replay))
        sys.exit(check(a.id, a.tier, a.seed, a.cases))
    except Infra as e:
        print("ERROR:", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
