#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, runs the
workload and its monitors, and passes on their verdict.

    check.py C07                 the check (VERIF_SEED, VERIF_TIER from the environment)
    check.py C07 --replay FILE   one recorded case again
    check.py --build             builds everything (setup)
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")

PURE = ["C%02d" % i for i in range(1, 17)]
IO = ["C%02d" % i for i in range(17, 31)] + ["C32"]
MEMORY = ["C31"]


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        # Nothing from outside may change how things are built.
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_LOG", "RUSTDOCFLAGS", "MIRIFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["VERIF_DIR"] = VERIF
    e.update(extra)
    return e


def forget(target):
    """Makes cargo look at the library's sources again whatever their time stamps say."""
    for base, dirs, _ in os.walk(target):
        if os.path.basename(base) == ".fingerprint":
            for d in dirs:
                if d.startswith("plusendi-"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []
        elif base.count(os.sep) - target.count(os.sep) > 3:
            dirs[:] = []


def run_build(cmd, cwd, target, quiet=False, **extra):
    """Builds; a tree that does not build decides nothing."""
    forget(target)
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=env(**extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write("\n".join(p.stdout.splitlines()[-60:]) + "\n")
        print("BUILD FAILED: %s" % " ".join(cmd), flush=True)
        raise SystemExit(2)
    print("  built %s in %.1f s" % (os.path.relpath(target, VERIF), time.time() - t), flush=True)


def build(crate):
    target = os.path.join(TARGET, crate)
    run_build(["cargo", "build", "--offline", "--release"], os.path.join(VERIF, "harness", crate), target)
    return os.path.join(target, "release", crate)


def build_bin():
    target = os.path.join(TARGET, "bin")
    run_build(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "plusendi", "--target-dir", target], VERIF, target)
    return os.path.join(target, "debug/plusendi")


def build_preloaded(name):
    """What is put between the program and the system; without a compiler it runs without."""
    out = os.path.join(TARGET, "clock", name + ".so")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run(["cc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(VERIF, "harness", "clock", name + ".c")])
    return out if p.returncode == 0 else ""


def version():
    """The version the program identifies itself with."""
    for l in open(os.path.join(REPO, "Cargo.toml")):
        if l.strip().startswith("version"):
            return l.split('"')[1]
    return "0.1.0"


# ---------------------------------------------------------------- running

def run(exe, prop, case=None, **extra):
    return subprocess.run([exe, prop] + (["--case", str(case)] if case is not None else []), env=env(**extra), cwd=VERIF).returncode


def merge(prop, parts, out):
    """One evidence file from those of several runs."""
    evs = []
    for name, path in parts:
        if os.path.exists(path):
            evs.append((name, json.load(open(path))))
    if not evs:
        return
    first = evs[0][1]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "; ".join("%s: %s" % (n, e["coverage"]["rule"]) for n, e in evs), "samples": [], "runs": {}}
    for name, e in evs:
        c = e["coverage"]
        cov["evaluations"] += c["evaluations"]
        cov["distinct_nontrivial"] += c["distinct_nontrivial"]
        cov["samples"] += ["%s: %s" % (name, s) for s in c["samples"][:6]]
        cov["runs"][name] = {k: v for k, v in c.items() if k not in ("rule", "samples")}
    ev = {
        "property": prop,
        "tier": first["tier"],
        "seed": first["seed"],
        "level": first["level"],
        "coverage": cov,
        "assumptions": sorted({a for _, e in evs for a in e.get("assumptions", [])}),
        "wall_s": sum(e["wall_s"] for _, e in evs),
        "violations": sum(e.get("violations", 0) for _, e in evs),
    }
    os.makedirs(os.path.dirname(out), exist_ok=True)
    json.dump(ev, open(out, "w"))


def check_c30(case, evidence):
    """The readers and the codec in one harness, modem and rig in the other."""
    if case is not None:
        crate, n = case.split(":") if isinstance(case, str) else ("io", case)
        return run(build(crate), "C30", n)
    parts, worst = [], []
    for crate in ("pure", "io"):
        out = os.path.join(TARGET, "C30-%s.json" % crate)
        if os.path.exists(out):
            os.remove(out)
        worst.append(run(build(crate), "C30", VERIF_EVIDENCE_OUT=out, VERIF_CRATE=crate))
        parts.append((crate, out))
        if worst[-1] == 1:
            break
    merge("C30", parts, evidence)
    return 1 if 1 in worst else max(worst)


def replay(prop, path):
    r = json.load(open(path))
    os.environ["VERIF_SEED"] = str(r["seed"])
    os.environ["VERIF_TIER"] = r["tier"]
    os.environ.setdefault("VERIF_EVIDENCE_OUT", "/dev/null")
    return r


def main():
    args = sys.argv[1:]
    if args == ["--build"]:
        for crate in ("pure", "io"):
            build(crate)
        build_bin()
        return 0
    prop = args[0]
    case = None
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ.setdefault("VERIF_TIER", "quick")
    record = None
    if len(args) == 3 and args[1] == "--replay":
        record = replay(prop, args[2])
        case = record["case"]
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    if record is None and os.path.exists(evidence):
        os.remove(evidence)
    if prop == "C31":
        import memory
        return memory.check(sys.modules[__name__], record, evidence)
    if prop == "C30":
        if record is not None:
            case = "%s:%d" % (record.get("crate") or "io", case)
        return check_c30(case, evidence)
    if prop in PURE:
        return run(build("pure"), prop, case)
    if prop in IO:
        extra = {}
        if prop in ("C28", "C29", "C32"):
            extra = {"VERIF_BIN": build_bin(), "VERIF_VERSION": version(), "VERIF_CLOCK": build_preloaded("fast"), "VERIF_LINE": build_preloaded("line")}
        return run(build("io"), prop, case, **extra)
    print("no such property: %s" % prop)
    return 3


if __name__ == "__main__":
    sys.exit(main())
