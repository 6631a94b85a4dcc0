"""C31: the same real code, built once for the Miri interpreter and three times with a compiler
sanitizer (address, memory, thread), under the hostile workloads of the other harnesses.

What the instrumentation reports, and a text that is not UTF-8, is a violation here; whatever else
the workloads notice belongs to other properties and is only counted."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import threading
import time

UB = re.compile(r"Undefined Behavior|unsafe precondition|ERROR: AddressSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer")
# Running out of stack or memory is no undefined behaviour.
BENIGN = re.compile(r"AddressSanitizer: (stack-overflow|out of memory|allocation-size-too-big|requested allocation size|allocator is out)")
TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {
    "asan": ("-Zsanitizer=address", []),
    "msan": ("-Zsanitizer=memory", ["-Zbuild-std"]),
    "tsan": ("-Zsanitizer=thread", ["-Zbuild-std"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1",
}

# Cases per tier: quick, thorough.
MIRI_SMALL = (80, 1500)     # per shard, seven shards
MIRI_RIG = (160, 3000)
MEM = {"asan": (24_000, 1_600_000), "msan": (8_000, 400_000)}
IO = {
    "asan": {"C17": (200, 4000), "C18": (200, 4000), "C19": (400, 8000), "C20": (200, 3000), "C21": (120, 1500), "C22": (400, 8000),
             "C23": (200, 4000), "C24": (100, 1000), "C26": (4000, 100_000), "C27": (4000, 100_000), "C30": (200, 4000), "C31": (400, 8000)},
    "msan": {"C17": (80, 2000), "C18": (120, 3000), "C19": (200, 4000), "C21": (60, 1000), "C22": (160, 4000), "C26": (2000, 50_000),
             "C27": (2000, 50_000), "C30": (80, 1500), "C31": (200, 4000)},
    "tsan": {"C17": (160, 4000), "C18": (80, 2000), "C19": (200, 4000), "C20": (120, 2000), "C21": (60, 1000), "C22": (240, 6000),
             "C23": (160, 4000), "C24": (60, 800), "C31": (80, 1000)},
}


class Run:
    def __init__(self, chk, tier, seed):
        self.chk, self.tier, self.seed = chk, tier, seed
        self.n = 1 if tier == "thorough" else 0
        self.lock = threading.Lock()
        self.runs, self.samples, self.violations, self.unclear, self.others = {}, [], [], [], []
        self.evaluations = self.distinct = 0

    # -- building

    def build_miri(self):
        self.chk.run_build(self.miri_cmd(1, 0, 0, "small"), self.chk.VERIF, os.path.join(self.chk.TARGET, "miri"), **self.miri_env("small"))

    def miri_cmd(self, seed, lo, hi, mode):
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(self.chk.VERIF, "harness/mem/Cargo.toml"),
                "--target-dir", os.path.join(self.chk.TARGET, "miri"), "--", str(seed), str(lo), str(hi), mode]

    def miri_env(self, mode):
        # The error type of the rig loop (eyre) breaks the stricter of the two aliasing models when it
        # is rendered, so those scripts run under the other one.
        flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        if mode == "rig":
            flags += " -Zmiri-tree-borrows"
        return {"RUSTFLAGS": "--cfg verif_hooks -Awarnings", "MIRIFLAGS": flags}

    def build_san(self, san, crate):
        flag, more = SAN[san]
        self.chk.run_build(
            ["cargo", "+nightly", "build", "--offline", "--release", "--manifest-path", os.path.join(self.chk.VERIF, "harness", crate, "Cargo.toml"),
             "--target", TRIPLE, "--target-dir", self.dir(san)] + more,
            self.chk.VERIF, self.dir(san), RUSTFLAGS=flag + " --cap-lints allow --cfg verif_hooks")

    def dir(self, san):
        return os.path.join(self.chk.TARGET, san)

    def exe(self, san, crate):
        return os.path.join(self.dir(san), TRIPLE, "release", crate)

    # -- judging

    def violation(self, what, detail, record):
        with self.lock:
            self.violations.append((what, detail, record))

    def mem(self, name, cmd, extra, lo, hi, mode, limit):
        """One shard of the socket-free workload."""
        try:
            p = subprocess.run(cmd, env=self.chk.env(**extra), cwd=self.chk.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace"), None
        last, begun, ended, counts = lo, 0, False, {}
        for l in out.splitlines():
            tag, _, rest = l.partition(" ")
            num, _, text = rest.partition(" ")
            if tag == "BEGIN":
                last, begun = int(num), begun + 1
            elif tag == "COUNT":
                counts[text] = int(num)
            elif tag == "DISTINCT":
                counts["distinct"] = int(num)
            elif tag == "BAD":
                self.violation("a text that is not UTF-8", text, {"case": int(num), "runner": name, "mode": mode})
            elif tag == "END":
                ended = True
        with self.lock:
            r = self.runs.setdefault(name, {"cases": 0, "observed": {}})
            r["cases"] += begun
            for k, v in counts.items():
                r["observed"][k] = r["observed"].get(k, 0) + v
            self.evaluations += begun
            self.distinct += counts.get("distinct", 0)
            if begun:
                self.samples.append("%s, cases %d..%d: %s" % (name, lo, hi, ", ".join("%s %d" % kv for kv in sorted(counts.items()))))
        hit = UB.search(err)
        if hit and not BENIGN.search(err):
            lines = err[hit.start():].splitlines()
            self.violation(lines[0][:300], " / ".join(x.strip() for x in lines[1:12])[:1500], {"case": last, "runner": name, "mode": mode})
        elif rc is None:
            if begun < (hi - lo) // 24:
                with self.lock:
                    self.unclear.append("%s: %d of cases %d..%d within %d s" % (name, begun, lo, hi, limit))
        elif not ended:
            with self.lock:
                self.others.append("%s, case %d: exit %s: %s" % (name, last, rc, err[-400:]))
                if "unsupported operation" in err:
                    self.unclear.append("%s: %s" % (name, err[-400:]))

    def io(self, san, prop, cases, only=None):
        out = os.path.join(self.chk.TARGET, "C31-%s-%s.json" % (san, prop))
        if os.path.exists(out):
            os.remove(out)
        cmd = [self.exe(san, "io"), prop] + (["--case", str(only)] if only is not None else [])
        extra = dict(SAN_ENV, VERIF_CASES=str(cases), VERIF_EVIDENCE_OUT=out, VERIF_SLOW="10")
        # The replay files of these runs would pass for the other property's own.
        scratch = os.path.join(self.chk.TARGET, "C31-replays")
        extra["VERIF_DIR"] = scratch
        p = subprocess.run(cmd, env=self.chk.env(**extra), cwd=self.chk.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        text = p.stdout + p.stderr
        m = re.search(r"violation in case (\d+): (.*)", p.stderr)
        hit = UB.search(text)
        if hit and not BENIGN.search(text):
            lines = text[hit.start():].splitlines()
            self.violation(lines[0][:300], " / ".join(x.strip() for x in lines[1:14])[:1500], {"case": int(m.group(1)) if m else 0, "runner": san + "-io", "mode": prop})
        elif m and "not UTF-8" in m.group(2):
            self.violation("a text that is not UTF-8", m.group(2)[:1500], {"case": int(m.group(1)), "runner": san + "-io", "mode": prop})
        elif m:
            with self.lock:
                self.others.append("%s under %s, case %s: %s" % (prop, san, m.group(1), m.group(2)[:300]))
        if os.path.exists(out):
            e = json.load(open(out))
            with self.lock:
                c = e["coverage"]
                self.runs["%s: %s" % (san, prop)] = {"cases": c["evaluations"], "distinct": c["distinct_nontrivial"], "observed": c["observed"]}
                self.evaluations += c["evaluations"]
                self.distinct += c["distinct_nontrivial"]
                if c["samples"]:
                    self.samples.append("%s under %s: %s" % (prop, san, c["samples"][0]))


def check(chk, record, evidence):
    start = time.time()
    r = Run(chk, os.environ["VERIF_TIER"], int(os.environ["VERIF_SEED"]))
    if record:
        return again(r, record)
    failed = []

    def attempt(f, *a):
        try:
            f(*a)
            return True
        except SystemExit:
            failed.append(a)
            return False

    # First the builds, side by side.
    with cf.ThreadPoolExecutor(4) as pool:
        jobs = [pool.submit(attempt, r.build_miri)]
        jobs.append(pool.submit(lambda: attempt(r.build_san, "asan", "mem") and attempt(r.build_san, "asan", "io")))
        jobs.append(pool.submit(lambda: attempt(r.build_san, "msan", "io") and attempt(r.build_san, "msan", "mem")))
        jobs.append(pool.submit(attempt, r.build_san, "tsan", "io"))
        for j in jobs:
            j.result()
    if failed:
        return 2
    built = time.time() - start
    # On a slow or busy machine the quick tier sees less rather than running out of its time.
    left = lambda until: 6 * 3600 if r.n else max(60, until - int(time.time() - start))
    phases, skipped = {"build": round(built, 1)}, []
    # The interpreter: eight shards, one of them for the rig loop.
    limit = left(460)
    with cf.ThreadPoolExecutor(8) as pool:
        jobs = []
        k = MIRI_SMALL[r.n]
        for i in range(7):
            jobs.append(pool.submit(r.mem, "miri", r.miri_cmd(r.seed, i * k, (i + 1) * k, "small"), r.miri_env("small"), i * k, (i + 1) * k, "small", limit))
        jobs.append(pool.submit(r.mem, "miri-rig", r.miri_cmd(r.seed, 0, MIRI_RIG[r.n], "rig"), r.miri_env("rig"), 0, MIRI_RIG[r.n], "rig", limit))
        for j in jobs:
            j.result()
    phases["miri"] = round(time.time() - start - built, 1)
    for san in ("asan", "msan"):
        if r.violations:
            break
        limit = left(540)
        with cf.ThreadPoolExecutor(8) as pool:
            k = MEM[san][r.n] // 8
            jobs = [pool.submit(r.mem, san, [r.exe(san, "mem"), str(r.seed), str(i * k), str((i + 1) * k), "large"], SAN_ENV, i * k, (i + 1) * k, "large", limit) for i in range(8)]
            for j in jobs:
                j.result()
    for san in ("asan", "msan", "tsan"):
        for prop, n in IO[san].items():
            if r.violations:
                break
            if not r.n and time.time() - start > 620:
                skipped.append("%s under %s" % (prop, san))
                continue
            r.io(san, prop, n[r.n])
    phases["sanitizers"] = round(time.time() - start - sum(phases.values()), 1)
    if not r.violations:
        for name, least in (("miri", 60), ("miri-rig", 4), ("asan", 2000), ("msan", 500)):
            have = r.runs.get(name, {"cases": 0})["cases"]
            if have < least and not r.others:
                r.unclear.append("only %d cases under %s" % (have, name))
    ev = {
        "property": "C31", "tier": r.tier, "seed": r.seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct,
            "rule": "a case is one input or session of the codec, reader, station id, error rendering, rig or modem workloads, executed under the named instrument; non-trivial: distinct content within its run",
            "samples": r.samples[:12],
            "runs": r.runs,
            "seen but for other properties to judge": r.others,
            "inconclusive": r.unclear,
            "phases_s": phases,
            "left out for want of time": skipped,
        },
        "assumptions": ["Miri, AddressSanitizer, MemorySanitizer and ThreadSanitizer report what they claim to", "socket code runs under the sanitizers only: tokio 1.14 itself breaks Miri's aliasing models"],
        "wall_s": round(time.time() - start, 3),
        "violations": len(r.violations),
    }
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    json.dump(ev, open(evidence, "w"))
    for k, v in sorted(r.runs.items()):
        print("  %s: %d cases" % (k, v["cases"]))
    if skipped:
        print("  left out for want of time: %s" % ", ".join(skipped))
    for o in r.others[:5]:
        print("  not judged here: %s" % o[:200].replace("\n", " "))
    print("  evaluations %d  distinct %d  wall %.1fs, of which building %.1fs" % (r.evaluations, r.distinct, time.time() - start, built))
    return verdict(r)


def verdict(r):
    if r.violations:
        d = os.path.join(r.chk.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (what, detail, rec) in enumerate(r.violations[:10]):
            path = os.path.join(d, "C31-%d-%d.json" % (r.seed, i))
            json.dump(dict(rec, property="C31", tier=r.tier, seed=r.seed, what=what, detail=detail), open(path, "w"))
            print("  %s: %s" % (what, detail))
            print("VIOLATION property=C31 replay=%s" % path)
        return 1
    if r.unclear:
        for u in r.unclear:
            print("  %s" % u)
        print("INCONCLUSIVE property=C31")
        return 2
    print("HELD property=C31 on what was explored")
    return 0


def again(r, rec):
    """One recorded case."""
    runner, mode, case = rec["runner"], rec["mode"], rec["case"]
    if runner.startswith("miri"):
        r.build_miri()
        r.mem(runner, r.miri_cmd(r.seed, case, case + 1, mode), r.miri_env(mode), case, case + 1, mode, 3600)
    elif runner.endswith("-io"):
        san = runner[:-3]
        r.build_san(san, "io")
        r.io(san, mode, 1, only=case)
    else:
        r.build_san(runner, "mem")
        r.mem(runner, [r.exe(runner, "mem"), str(r.seed), str(case), str(case + 1), mode], SAN_ENV, case, case + 1, mode, 3600)
    return verdict(r)
