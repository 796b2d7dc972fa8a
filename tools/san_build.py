"""Engine of C19 and C20: the workloads of harness/src/san.rs (and the other monitors' workloads) under AddressSanitizer,
ThreadSanitizer and the Miri interpreter. The verdict is the tool's report, or what the workload itself compared."""
import json, os, re, signal, struct, subprocess, threading, time

TRIPLE = "x86_64-unknown-linux-gnu"
RULE = {
    "C20": "every input (valid, mutated, hostile, with appended data, in short reads) is parsed, inspected, rendered, encoded, "
           "flattened and mapped, and every character array viewed as bytes, under AddressSanitizer and under Miri; non-trivial = "
           "a distinct input driven to its end",
    "C19": "messages are shared, moved, cloned, read, encoded, rendered and dropped by 2 to 6 threads while parsers run, under "
           "ThreadSanitizer, under Miri (several scheduler seeds) and at full speed, and what each thread sees is compared with a single-threaded "
           "run; non-trivial = a distinct interleaving of the steps of the threads",
}
NEED = {
    "C20": ["asan: cases", "miri: cases", "asan: character slices viewed", "miri: character slices viewed",
            "asan: empty character slices", "miri: messages inspected", "asan: errors", "asan: logs with appended data",
            "asan: clones read after the original was dropped"],
    "C19": ["tsan: cases", "miri: cases", "tsan: clones", "tsan: drops", "tsan: encodings", "tsan: renderings",
            "tsan: messages moved", "tsan: threads sharing", "tsan: parsers at once", "tsan: parsers running meanwhile",
            "tsan: steps of all threads at once", "plain: cases", "plain: steps of all threads at once", "plain: parsers at once",
            "plain: switches between threads", "tsan: switches between threads", "miri: switches between threads"],
}
OTHERS = ["C01", "C02", "C03", "C04", "C09", "C10", "C11", "C15", "C22", "C23", "C24", "C25"]


class Tool:
    def __init__(self, c, name, target, env, cmd, flags):
        self.c, self.name, self.cmd = c, name, cmd
        self.env = dict(env, CARGO_TARGET_DIR=os.path.join(c.WORK, target), XDG_CACHE_HOME=os.path.join(c.WORK, "cache"))
        self.flags = flags
        self.mapped = True
        self.error = None
        self.violation = None

    def args(self, extra=()):
        f = list(self.flags) + ([] if self.mapped else ["--no-default-features"])
        return f + list(extra)

    def build(self):
        cwd = os.path.join(self.c.VERIF, "san")
        first = None
        for self.mapped in (True, False):
            if self.name == "miri":
                cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q"] + self.args(["--", "ub", "1", "0", "0", "1", "small"])
            elif self.name == "plain":
                cmd = ["cargo", "build", "--release", "--offline", "-q", "--target", TRIPLE] + self.args()
            else:
                cmd = ["cargo", "+nightly", "build", "--release", "--offline", "-q", "--target", TRIPLE] + self.args()
            rc, out = self.c.sh(cmd, cwd=cwd, env=self.env, timeout=700)
            if rc == 0:
                return
            first = first or out
        errs = first[first.find("error"):]
        if "thread_safe" in " ".join(self.flags) and re.search(r"cannot be (shared|sent) between threads safely", first):
            m = re.search(r"error\[E0277\][^\n]*", first)
            self.violation = dict(sig="not Send or Sync", case=0, input_hex="",
                                  detail="messages cannot be used from several threads: " + (m.group(0) if m else "") + "\n" + errs[:3000])
            return
        self.error = f"the sanitizer harness does not build ({self.name}):\n{errs[-5000:]}"

    def command(self, mode, seed, first, count, step, size):
        a = [mode, str(seed), str(first), str(count), str(step), size]
        if self.name == "miri":
            return ["cargo", "+nightly", "miri", "run", "--offline", "-q"] + self.args(["--"] + a)
        return [os.path.join(self.env["CARGO_TARGET_DIR"], TRIPLE, "release", "ysan")] + a


def tool(c, name, pid):
    ts = ["--features", "thread_safe"] if pid == "C19" else []
    if name == "asan":
        return Tool(c, name, "target-asan", {"RUSTFLAGS": "-Zsanitizer=address", "ASAN_OPTIONS":
                    "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=98"}, None, ts)
    if name == "plain":
        return Tool(c, name, "target-mt", {}, None, ts)
    if name == "tsan":
        return Tool(c, name, "target-tsan", {"RUSTFLAGS": "-Zsanitizer=thread", "TSAN_OPTIONS":
                    "halt_on_error=1:exitcode=98:history_size=4:memory_limit_mb=4000"}, None, ["-Zbuild-std"] + ts)
    return Tool(c, name, "target-miri" + ("-mt" if ts else ""), {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}, None, ts)


class Shard(threading.Thread):
    """Runs one series of cases; goes on behind a case whose end is another property's business."""

    def __init__(self, tl, mode, seed, first, count, step, size, out, idx, budget, stall, miri_seed=None):
        super().__init__(daemon=True)
        self.__dict__.update(locals())
        self.viol, self.errors, self.stats, self.hashes, self.cases = [], [], {}, set(), 0
        self.skipped = {}

    def run(self):
        try:
            self.series()
        except Exception as e:  # noqa: BLE001
            self.errors.append(f"{self.tl.name}: {e!r}")

    def series(self):
        t0 = time.time()
        first, left = self.first, self.count
        for attempt in range(25):
            rest = self.budget - (time.time() - t0)
            if left <= 0 or (attempt and rest <= 0):
                return
            last, done, again = self.once(first, left, max(rest, 1))
            if not again or last is None:
                return
            n = (last - first) // self.step + 1
            first, left = last + self.step, left - n

    def once(self, first, count, budget):
        tl = self.tl
        env = dict(os.environ)
        env.update(tl.env)
        env["YSAN_BUDGET"] = str(int(budget))
        if self.miri_seed is not None:
            env["MIRIFLAGS"] += f" -Zmiri-seed={self.miri_seed}"
        path = os.path.join(self.out, f"san-{tl.name}-{self.idx}")
        with open(path, "wb") as log:
            p = subprocess.Popen(tl.command(self.mode, self.seed, first, count, self.step, self.size), stdout=log,
                                 stderr=subprocess.STDOUT, env=env, cwd=os.path.join(tl.c.VERIF, "san"), start_new_session=True)
            size, since, stalled = -1, time.time(), False
            while p.poll() is None:
                time.sleep(0.05)
                s = os.fstat(log.fileno()).st_size
                if s != size:
                    size, since = s, time.time()
                elif time.time() - since > self.stall:
                    stalled = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
        rc = p.returncode
        text = open(path, "rb").read().decode("utf-8", "replace")
        os.remove(path)
        return self.judge(rc, stalled, text)

    def judge(self, rc, stalled, text):
        name = self.tl.name
        last, threads, done = None, None, False
        for l in text.splitlines():
            m = re.match(r"@(\w+) (-?\d+) ?(.*)", l)
            if not m:
                continue
            k, v, r = m.group(1), int(m.group(2)), m.group(3)
            if k == "case":
                last = v
                self.cases += 1
            elif k == "threads":
                threads = v
            elif k == "stat":
                self.stats[r] = self.stats.get(r, 0) + v
            elif k == "hash":
                self.hashes.add(v)
            elif k == "violation":
                self.viol.append(dict(sig=f"{name}: " + self.tl.c.norm_sig(r)[:120], case=v, input_hex="",
                                      detail=f"{name}, workload {self.mode}, case {v}: {r}"))
            elif k == "done":
                done = True
        where = f"{name}, workload {self.mode}, seed {self.seed}, case {last}"
        if name == "miri" and self.miri_seed is not None:
            where += f", -Zmiri-seed={self.miri_seed}"

        def report(kind, at):
            t = text[max(0, at - 200): at + 3500]
            self.viol.append(dict(sig=f"{name}: {kind}", case=last, input_hex="", detail=f"{where}:\n{t}"))
            return last, False, False

        def skip(why):
            self.skipped[why] = self.skipped.get(why, 0) + 1
            self.stats[f"ended by {why} (not judged here)"] = self.stats.get(f"ended by {why} (not judged here)", 0) + 1
            return last, False, True

        m = re.search(r"error: Undefined Behavior: ([^\n]*)", text)
        if m:
            kind = re.sub(r"alloc\d+|<\d+>|0x[0-9a-f]+|\d+", "_", m.group(1))[:110]
            return report("undefined behaviour: " + kind, m.start())
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]*)", text)
        if m:
            return report(m.group(1).strip(), m.start())
        m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z-]+)", text)
        if m:
            kind = m.group(1)
            if kind in ("stack-overflow", "allocation-size-too-big", "out-of-memory", "requested", "calloc-overflow"):
                return skip(kind)
            return report(kind, m.start())
        m = re.search(r"unsafe precondition\(s\) violated[^\n]*|misaligned pointer dereference[^\n]*|null pointer dereference[^\n]*", text)
        if m:
            return report("unsafe precondition violated", m.start())
        m = re.search(r"error: (?:the evaluated program )?deadlocked?|error: a thread deadlocked|error: deadlock", text)
        if m:
            return report("deadlock", m.start()) if threads == last else skip("a deadlock")
        if stalled:
            if self.mode == "mt" and threads == last and last is not None:
                return report("the threads stopped making progress", len(text))
            return skip("a hang")
        if done and rc == 0:
            return last, True, False
        m = re.search(r"error: unsupported operation[^\n]*", text)
        if m:
            self.errors.append(f"{where}: {text[m.start():m.start() + 1500]}")
            return last, False, False
        if "overflowed its stack" in text or "stack overflow" in text:
            return skip("stack overflow")
        if re.search(r"memory allocation of|rss limit|resource exhaustion|tried to allocate more memory|ran out of", text) or rc == -9:
            return skip("memory")
        if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP):
            return report("crash: " + signal.Signals(-rc).name, max(0, len(text) - 2000))
        if re.search(r"abnormal termination|panic in a function that cannot unwind|panicked while processing|thread caused non-unwinding", text) or rc == -signal.SIGABRT:
            return skip("an abort")
        self.errors.append(f"{where} ended with {rc}: {text[-2500:]}")
        return last, False, False


def prepare(c, tools):
    th = [threading.Thread(target=t.build) for t in tools]
    for t in th:
        t.start()
    for t in th:
        t.join()


def tools_of(c, pid):
    return [tool(c, n, pid) for n in (("asan", "miri") if pid == "C20" else ("tsan", "miri", "plain"))]


def setup(c):
    ts = tools_of(c, "C20") + tools_of(c, "C19")
    prepare(c, ts)
    for t in ts:
        if t.error:
            print(t.error)


def phase(shards, errors, limit):
    for s in shards:
        s.start()
    end = time.time() + limit
    for s in shards:
        s.join(max(0.1, end - time.time()))
        if s.is_alive():
            errors.append(f"{s.tl.name} {s.mode} {s.idx}: not finished in time")


def run(c, pid, tier, seed, out, cases, deadline):
    t0 = time.time()
    viol, errors = [], []
    quick = tier == "quick"
    tls = tools_of(c, pid)
    prepare(c, tls)
    for t in tls:
        if t.error:
            raise c.Infra(t.error)
        if t.violation:
            viol.append(t.violation)
    built = round(time.time() - t0, 1)
    native, miri = tls[:2]
    shards = []
    if not viol:
        k = 1 if quick else 40
        n = lambda x: (cases or x * k)  # noqa: E731
        a = []
        if pid == "C20":
            for i in range(c.SHARDS):
                a.append(Shard(native, "ub", seed, i, n(2000), c.SHARDS, "big", out, f"ub{i}", 60 * k, 120))
            b = []
            for i, m in enumerate(OTHERS):
                b.append(Shard(native, m, seed, 0, n(150), 1, "big", out, m, 60 * k, 120))
            phase(a, errors, 300 * k)
            phase(b, errors, 300 * k)
            shards = a + b
        else:
            # Many short processes, as some things happen only once in a process.
            for rep in range(8 if quick else 100):
                a = [Shard(native, "mt", seed + 1000 * rep, i, n(12) if quick else n(3), c.SHARDS, "big", out, f"mt{rep}-{i}", 40, 120)
                     for i in range(c.SHARDS)]
                phase(a, errors, 300)
                shards += a
            # The same at full speed, which reaches other interleavings; two processes at a time share the cores.
            if not any(s.viol for s in shards):
                for rep in range(4 if quick else 100):
                    a = [Shard(tls[2], "mt", seed + 1000 * rep, i, n(60) if quick else n(30), 2, "big", out, f"pl{rep}-{i}", 12, 120)
                         for i in range(2)]
                    phase(a, errors, 200)
                    shards += a
        left = deadline - (time.time() - t0)
        bud = min(200, left - 150) if quick else 5400
        if not any(s.viol for s in shards):
            m = []
            for i in range(c.SHARDS):
                if pid == "C20":
                    mode, size = ("C22", "small") if i == 7 else ("ub", "small")
                    m.append(Shard(miri, mode, seed, i, n(400), c.SHARDS, size, out, f"{mode}{i}", bud, 500))
                else:
                    m.append(Shard(miri, "mt", seed, i, n(400), 8, "small", out, f"mt{i}", bud, 600, miri_seed=seed * 100 + i))
            phase(m, errors, bud + 400)
            shards += m
    tot, hashes, done, skipped = {}, set(), 0, {}
    for s in shards:
        viol += s.viol
        errors += s.errors
        done += s.cases
        hashes |= s.hashes
        for a, b in s.stats.items():
            tot[f"{s.tl.name}: {a}"] = tot.get(f"{s.tl.name}: {a}", 0) + b
        for a, b in s.skipped.items():
            skipped[a] = skipped.get(a, 0) + b
    with open(os.path.join(out, "hashes-san"), "wb") as f:
        f.write(b"".join(struct.pack("<Q", h & (2**64 - 1)) for h in hashes))
    evals = sum(v for k, v in tot.items() if not k.endswith(("not judged here)", "bytes rendered", "characters", "switches between threads")))
    json.dump(dict(cases=done, evals=evals, counters=tot, violations=[], harness_error=None,
                   samples=[f"{s.tl.name} {s.mode}: {s.cases} cases, {sum(s.stats.values())} observations" for s in shards[:2] + shards[-2:]]),
              open(os.path.join(out, "shard-san.json"), "w"))
    need = list(NEED[pid])
    if native.mapped:
        need.append("asan: derived items" if pid == "C20" else "tsan: derived streams at once")
    extra = dict(tools=[t.name for t in tls], build_s=built, ended_by_other_properties=skipped,
                 with_derived_structs=native.mapped)
    return viol, errors, RULE[pid], need, extra
