"""Engine of C29 and C30: the same inputs through differently built libraries (C29) and on different machines (C30: a
32-bit one, WebAssembly under node; a big-endian one, interpreted by Miri). Everything observable is folded into digests
(harness/src/digest.rs), which are compared here, case by case."""
import glob, json, os, re, shutil, signal, struct, subprocess, tarfile, threading, time

BE = "s390x-unknown-linux-gnu"
MIRIFLAGS = ("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation "
             "-Zmiri-disable-alignment-check -Zmiri-deterministic-concurrency")
PANIC, LIGHT, NUMBER = 3, 1 << 62, (1 << 61) - 1
# name, profile, directory of the profile, features
BUILDS = [
    ("optimised without checks", "user", ["--profile", "user"]),
    ("optimised without checks, no macros", "user", ["--profile", "user", "--no-default-features"]),
    ("unoptimised with checks, thread_safe", "checked", ["--profile", "checked", "--features", "thread_safe"]),
]


def cargo_error(out):
    return out[max(0, out.find("error")):][:3000]


def in_library(out):
    """Whether a compiler error points into the library."""
    return re.search(r"error(\[E\d+\])?:[^\n]*\n\s*--> [^\n]*(/repo/|\.\./repo/)(core|macros)/src", out) is not None


def build_variant(c, i, mapped=True):
    name, profile, flags = BUILDS[i]
    flags = list(flags)
    if not mapped and "--no-default-features" not in flags:
        flags.append("--no-default-features")
    target = os.path.join(c.WORK, f"target-build{i}")
    rc, out = c.sh(["cargo", "build", "--offline", "-q", "--bin", "ymon"] + flags, cwd=os.path.join(c.VERIF, "harness"),
                   env={"CARGO_TARGET_DIR": target}, timeout=700)
    return rc, out, os.path.join(target, profile, "ymon")


def parallel(fs):
    """Runs functions at once; results in order, the first failure raised."""
    res, exc = [None] * len(fs), []

    def go(i):
        try:
            res[i] = fs[i]()
        except BaseException as e:  # noqa: BLE001
            exc.append(e)
    th = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if exc:
        raise exc[0]
    return res


def digests(out):
    ref = {}
    for f in glob.glob(os.path.join(out, "digest-*")):
        b = open(f, "rb").read()
        for k in range(0, len(b) - 31, 32):
            case, h, p, d = struct.unpack_from("<4Q", b, k)
            ref[case] = (h, p, d)
    return ref


def compare(name, ref, got, viol, errors, first="reference build"):
    """One violation per kind of difference."""
    n = 0
    for case in sorted(got):
        if case not in ref:
            continue
        (h, p, d), (h2, p2, d2) = ref[case], got[case]
        if h != h2:
            errors.append(f"case {case}: the input differs between {first} and {name}")
            return n
        n += 1
        for what, a, b in (("parser", p, p2), ("derived stream", d, d2)):
            if a and b and a != b:
                kind = f"{what}: {name}: " + ("panic" if b == PANIC else "panic in the reference" if a == PANIC else "results differ")
                viol.append(dict(sig=kind, case=case & NUMBER, input_hex="",
                                 detail=f"case {case & NUMBER}: what the {what} returns differs between the {first} and: {name} "
                                        f"(digests {a:x} and {b:x}; YMON_SHOW=1 ymon replay prints the text)"))
    return n


def run_builds(c, tier, seed, out, cases, deadline):
    t0 = time.time()
    viol, errors = [], []
    built = parallel([c.build_main] + [lambda i=i: build_variant(c, i) for i in range(len(BUILDS))])
    binary = built[0]
    rule, need = c.describe(binary, "C29")
    v, e = c.run_workers(binary, "C29", seed, tier, out, cases, deadline)
    viol += v
    errors += e
    ref = digests(out)
    mapped = any(d for _, _, d in ref.values())
    compared = {}
    for i, (rc, text, b) in enumerate(built[1:]):
        name = BUILDS[i][0]
        if rc != 0:
            if mapped or "--no-default-features" in BUILDS[i][2]:
                viol.append(dict(sig=f"{name}: does not build", case=0, input_hex="", detail=f"builds otherwise, but not {name}:\n" + cargo_error(text)))
                continue
            rc, text, b = build_variant(c, i, False)
            if rc != 0:
                viol.append(dict(sig=f"{name}: does not build", case=0, input_hex="", detail=f"builds otherwise, but not {name}:\n" + cargo_error(text)))
                continue
        o = os.path.join(out, f"build{i}")
        os.makedirs(o)
        v, e = c.run_workers(b, "C29", seed, tier, o, cases, max(60, deadline - (time.time() - t0)))
        for x in v:
            x["sig"] = f"{name}: " + x["sig"]
            x["detail"] = f"{name}: " + x["detail"]
        viol += v
        errors += [f"{name}: {x}" for x in e]
        compared[name] = compare(name, ref, digests(o), viol, errors)
        if not compared[name] and not v:
            errors.append(f"nothing was compared: {name}")
    return viol, errors, rule, need, dict(cases_compared_with=compared, with_derived_structs=mapped)


def vendor(c, lib):
    """A directory with the sources of the standard library's dependencies and of ours, for -Zbuild-std off line."""
    dst = os.path.join(c.WORK, "vendor")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for d in os.listdir(os.path.join(lib, "vendor")):
        os.symlink(os.path.join(lib, "vendor", d), os.path.join(dst, d))
    home = os.path.join(os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")), "registry")
    for b in open(os.path.join(c.VERIF, "wasm", "Cargo.lock")).read().split("[[package]]")[1:]:
        f = dict(re.findall(r'(\w+) = "([^"]*)"', b))
        n = f["name"] + "-" + f["version"]
        to = os.path.join(dst, n)
        if "checksum" not in f or os.path.lexists(to):
            continue
        s, z = glob.glob(f"{home}/src/*/{n}"), glob.glob(f"{home}/cache/*/{n}.crate")
        if z:
            with tarfile.open(z[0]) as t:
                t.extractall(dst, filter="data")
        elif s:
            shutil.copytree(s[0], to)
        else:
            continue
        with open(os.path.join(to, ".cargo-checksum.json"), "w") as o:
            json.dump(dict(files={}, package=f["checksum"]), o)
    return dst


def build_wasm(c):
    rc, out = c.sh(["rustc", "+nightly", "--print", "sysroot"])
    lib = os.path.realpath(os.path.join(out.strip().splitlines()[-1], "lib/rustlib/src/rust/library"))
    dst = vendor(c, lib)
    target = os.path.join(c.WORK, "target-wasm")
    cmd = ["cargo", "+nightly", "build", "-q", "--release", "--offline", "--target", "wasm32-unknown-unknown",
           "-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{dst}"']
    first = None
    for extra in ([], ["--no-default-features"]):
        rc, out = c.sh(cmd + extra, cwd=os.path.join(c.VERIF, "wasm"), timeout=700,
                       env={"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Clink-arg=-zstack-size=8388608"})
        first = first or out
        if rc == 0:
            return os.path.join(target, "wasm32-unknown-unknown/release/ywasm.wasm"), None
    return None, first


def miri(c):
    env = {"MIRIFLAGS": MIRIFLAGS, "CARGO_TARGET_DIR": os.path.join(c.WORK, "target-be"),
           "XDG_CACHE_HOME": os.path.join(c.WORK, "cache-be")}
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", BE], env, os.path.join(c.VERIF, "san")


def build_be(c):
    cmd, env, cwd = miri(c)
    empty = os.path.join(c.WORK, "empty-corpus")
    open(empty, "w").close()
    first = None
    for extra in ([], ["--no-default-features"]):
        rc, out = c.sh(cmd + extra + ["--", "digest", empty, "0", "1"], cwd=cwd, env=env, timeout=700)
        first = first or out
        if rc == 0 and "@machine 64 big" in out:
            return extra, None
    return None, first


def machine(name, cmd, env, cwd, path, limit, res):
    """Runs one machine over a corpus; res gets its digests, traps and how it ended."""
    e = dict(os.environ)
    e.update(env)
    with open(path, "wb") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            res["late"] = True
    text = open(path, "rb").read().decode("utf-8", "replace")
    last = None
    for l in text.splitlines():
        f = l.split(" ", 2)
        if f[0] == "@case":
            last = int(f[1])
        elif f[0] == "@digest":
            v = list(map(int, l.split()[1:]))
            res["got"][v[0]] = (v[1], v[2], v[3])
            res["items"] += v[4]
        elif f[0] == "@trap":
            res["traps"][int(f[1])] = f[2] if len(f) > 2 else ""
        elif f[0] == "@machine":
            res["machine"] = l[9:]
        elif f[0] == "@done":
            res["done"] = True
    if not res["done"] and not res.get("late"):
        i = text.rfind("@case")
        res["end"] = (last, p.returncode, text[i:i + 2500])


def run_machines(c, tier, seed, out, cases, deadline):
    t0 = time.time()
    viol, errors = [], []
    binary, (wasm, wout), (be, bout) = parallel([c.build_main, lambda: build_wasm(c), lambda: build_be(c)])
    for name, b, o in (("32-bit machine", wasm, wout), ("big-endian machine", be, bout)):
        if b is None:
            if in_library(o):
                viol.append(dict(sig=f"{name}: does not build", case=0, input_hex="", detail=f"the library does not build for the {name}:\n" + cargo_error(o)))
            else:
                raise c.Infra(f"the harness does not build for the {name}:\n" + cargo_error(o))
    rule, need = c.describe(binary, "C30")
    v, e = c.run_workers(binary, "C30", seed, tier, out, cases, deadline)
    viol += v
    errors += e
    ref = digests(out)
    counters, compared = {}, {}
    if viol:
        return viol, errors, rule, need, {}
    short = os.path.join(out, "short")
    with open(short, "wb") as f:
        for s in sorted(glob.glob(os.path.join(out, "short-*"))):
            f.write(open(s, "rb").read())
    sets = []
    left = deadline - (time.time() - t0)
    budget = int(min(220, left - 200)) if tier == "quick" else 3600
    for i in range(c.SHARDS):
        corpus = os.path.join(out, f"corpus-{i}")
        if os.path.exists(corpus):
            sets.append(("32-bit machine", ["node", os.path.join(c.VERIF, "wasm/run.js"), wasm, corpus], {}, c.VERIF, 400 if tier == "quick" else 7200))
    cmd, env, cwd = miri(c)
    for i in range(c.SHARDS):
        sets.append(("big-endian machine", cmd + be + ["--", "digest", short, str(i), str(c.SHARDS)], dict(env, YSAN_BUDGET=str(budget)), cwd, budget + 300))
    for name in ("32-bit machine", "big-endian machine"):
        res = []

        def one(k, s):
            r = dict(got={}, traps={}, done=False, items=0, machine="")
            res.append(r)
            machine(s[0], s[1], s[2], s[3], os.path.join(out, f"machine-{name[0]}-{k}"), s[4], r)
        parallel([lambda k=k, s=s: one(k, s) for k, s in enumerate(x for x in sets if x[0] == name)])
        got = {}
        for r in res:
            got.update(r["got"])
            for case, t in r["traps"].items():
                h, p, d = ref.get(case, (0, 0, 0))
                if PANIC not in (p, d):
                    viol.append(dict(sig=f"{name}: panic: " + c.norm_sig(t)[-160:], case=case & NUMBER, input_hex="",
                                     detail=f"case {case & NUMBER}: panics on the {name} only: {t}"))
            if r.get("late"):
                errors.append(f"{name}: not finished in time")
            elif r.get("end"):
                last, rc, text = r["end"]
                if last is None or "unsupported operation" in text:
                    errors.append(f"{name}: ended with {rc} in case {last}: {text}")
                else:
                    viol.append(dict(sig=f"{name}: ended", case=last & NUMBER, input_hex="", detail=f"case {last & NUMBER}: the {name} ended with {rc}: {text}"))
            counters[f"items on the {name}"] = counters.get(f"items on the {name}", 0) + r["items"]
        compared[name] = compare(name, ref, got, viol, errors, "64-bit little-endian machine")
        counters[f"inputs on the {name}"] = compared[name]
        kinds = sorted({r["machine"] for r in res if r["machine"]})
        want = ["32 little"] if name == "32-bit machine" else ["64 big"]
        if kinds != want:
            errors.append(f"the {name} was {kinds}")
        if viol:
            break
    json.dump(dict(cases=0, evals=sum(compared.values()), counters=counters, violations=[], harness_error=None, samples=[]),
              open(os.path.join(out, "shard-machines.json"), "w"))
    return viol, errors, rule, need + ["inputs on the 32-bit machine", "inputs on the big-endian machine"], dict(
        machines=["x86_64 native", "wasm32 (node)", BE + " (Miri)"], inputs_compared=compared,
        with_derived_structs=any(d for _, _, d in ref.values()))


def run(c, pid, tier, seed, out, cases, deadline):
    return (run_builds if pid == "C29" else run_machines)(c, tier, seed, out, cases, deadline)


def setup(c):
    res = parallel([lambda: build_wasm(c), lambda: build_be(c)] + [lambda i=i: build_variant(c, i) for i in range(len(BUILDS))])
    for r in res[:2]:
        if r[0] is None:
            print(r[1][-3000:])
    for r in res[2:]:
        if r[0] != 0:
            print(r[1][-3000:])
