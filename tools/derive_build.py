"""Engine of C16 to C18: batches of generated programs that use the derive macros, compiled against /repo and run."""
import glob, json, os, re, shutil, time

BATCH = 10**6          # case = batch * BATCH + number within the batch
PROGRAMS = {"quick": 48, "thorough": 48}
BATCHES = {"quick": 1, "thorough": 12}


def crate(c, tier, seed, batch):
    return os.path.join(c.WORK, "derive", f"{tier}-{seed}-{batch}" if tier == "quick" else f"{tier}-{seed}")


def generate(c, d, seed, batch, n, skip):
    rc, out = c.sh([os.path.join(c.TARGET, "release", "ymon"), "gen-derive", d, os.path.join(c.VERIF, "harness"), "/repo",
                    str(seed * 1000 + batch), str(n), ",".join(map(str, sorted(skip)))])
    if rc != 0:
        raise c.Infra("gen-derive failed: " + out)
    shutil.copy(os.path.join(c.VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))


def compile_(c, d):
    """(exit code, list of (program or None, message))"""
    rc, out = c.sh(["cargo", "build", "--release", "--offline", "-q", "--message-format=json"], cwd=d,
                   env={"CARGO_TARGET_DIR": os.path.join(c.WORK, "target-derive")}, timeout=850)
    errs, rest = [], []
    for l in out.splitlines():
        if not l.startswith("{"):
            rest.append(l)
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        prog = None
        todo = list(m["message"].get("spans", []))
        while todo:
            s = todo.pop()
            g = re.search(r"generated_(\d+)\.rs", s.get("file_name", ""))
            if g:
                prog = int(g.group(1))
            if s.get("expansion"):
                todo.append(s["expansion"]["span"])
        text = m["message"].get("rendered") or m["message"]["message"]
        errs.append((prog, text))
    return rc, errs, "\n".join(rest)


def build(c, tier, seed, batch, n):
    """Builds a batch; returns (binary or None, {program: first error}, d)."""
    c.build_main()
    d = crate(c, tier, seed, batch)
    for o in glob.glob(os.path.join(c.WORK, "derive", "*")):
        if o != d and time.time() - os.path.getmtime(o) > 3600:
            shutil.rmtree(o, ignore_errors=True)
    broken = {}
    for _ in range(12):
        generate(c, d, seed, batch, n, broken)
        rc, errs, rest = compile_(c, d)
        if rc == 0:
            b = os.path.join(c.WORK, "target-derive", "release", "yderive")
            keep = os.path.join(d, "yderive")
            shutil.copy(b, keep + ".new")
            os.replace(keep + ".new", keep)
            return keep, broken, d
        new = {}
        for p, t in errs:
            if p is not None and p not in broken:
                new.setdefault(p, t)
        if not new:
            raise c.Infra("the generated programs do not build, for a reason that lies outside them:\n" +
                          "\n".join(t for p, t in errs)[-4000:] + rest[-3000:])
        broken.update(new)
        if len(broken) == n:
            return None, broken, d
    raise c.Infra("the generated programs do not build")


def classify(text):
    m = re.search(r"error(\[E\d+\])?: ([^\n]*)", text)
    s = (m.group(1) or "") + re.sub(r"`[^`]*`|\d+", "_", m.group(2)) if m else "error"
    return "does not compile: " + s[:120]


def run(c, pid, tier, seed, out, cases, deadline):
    t0 = time.time()
    viol, errors = [], []
    extra = dict(programs=0, programs_not_compiling=0, structs=0, batches=0)
    rule, need = "", []
    n = PROGRAMS[tier]
    for k in range(BATCHES[tier]):
        b, broken, d = build(c, tier, seed, k, n)
        extra["programs"] += n
        extra["batches"] += 1
        extra["programs_not_compiling"] += len(broken)
        for f in glob.glob(os.path.join(d, "src", "generated_*.rs")):
            extra["structs"] += open(f).read().count("#[derive(ULogData)]")
        if broken and pid in ("C16", "C18"):
            for p, t in sorted(broken.items()):
                src = open(os.path.join(d, "src", f"generated_{p}.rs")).read()
                viol.append(dict(sig=classify(t), case=k * BATCH + p, input_hex=src.encode().hex()[:40000],
                                 detail=f"program {p} of batch {k} (seed {seed}) is accepted by the documented rules but does not compile:\n{t[:2500]}"))
        if b is None:
            errors.append(f"no program of batch {k} compiles")
            break
        rule, need = c.describe(b, pid)
        o = os.path.join(out, f"b{k}")
        os.makedirs(o)
        jobs = []
        for i in range(c.SHARDS):
            cmd = [b, "worker", pid, "--seed", str(seed), "--shard", str(i), "--shards", str(c.SHARDS), "--tier", tier,
                   "--out", o, "--first", str(k * BATCH)]
            if cases is not None:
                cmd += ["--cases", str(cases)]
            jobs.append(c.Job(cmd, i, o))
        v, e = c.wait_jobs(jobs, max(60, deadline - (time.time() - t0)))
        viol += v
        errors += e
        for f in os.listdir(o):
            if f.startswith("shard-"):
                os.rename(os.path.join(o, f), os.path.join(out, f"shard-{k}-{f[6:]}"))
            elif f.startswith("hashes-"):
                os.rename(os.path.join(o, f), os.path.join(out, f"hashes-{k}-{f[7:]}"))
        if tier == "thorough":
            shutil.rmtree(d, ignore_errors=True)
        if time.time() - t0 > deadline:
            break
    return viol, errors, rule or "see DESIGN.md", need, extra


def binary_for(c, pid, tier, seed, case):
    """The program batch of a recorded case."""
    k = case // BATCH
    b, broken, _ = build(c, tier, seed, k, PROGRAMS[tier])
    for p, t in sorted(broken.items()):
        print(f"program {p} does not compile:\n{t[:3000]}")
    if broken:
        return None
    return b
