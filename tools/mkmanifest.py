#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
import subprocess

BUILT = [l.split()[0] for l in open("/verif/tools/built.txt") if l.strip()]
ORACLE = {
    "C01": ("round-trip oracle over generated texts", "exploration"),
    "C02": ("independent decoder as oracle over the encoder's output", "exploration"),
    "C03": ("independent encoder as workload, exact-content oracle", "exploration"),
    "C04": ("reference decoder as oracle over hostile streams, guarded buffers", "exploration"),
    "C05": ("exhaustive-search oracle per emitted code", "exploration"),
    "C06": ("bit-at-a-time reference, step function covered completely", "exploration"),
    "C07": ("independent reader as oracle over damaged messages", "exploration"),
    "C08": ("independent writer as workload, exact-content oracle", "exploration"),
    "C09": ("prefix monitor: verdict at every cut of every input", "exploration"),
    "C10": ("panic and termination monitor, logging on and off", "exploration"),
    "C11": ("independent reader as oracle over generated lines", "exploration"),
    "C12": ("independent reader as oracle over generated lines", "exploration"),
    "C13": ("independent reader as oracle over generated lines", "exploration"),
    "C14": ("independent acceptor as oracle, exhaustive over short strings", "exploration"),
    "C15": ("independent writer as oracle, collision monitor", "exploration"),
    "C16": ("content monitor over generated errors", "exploration"),
    "C17": ("trace monitor at a simulated modem: lines exactly once and in order, replies matched to calls", "exploration"),
    "C18": ("online comparison of accessors with a model of the reports, monotonicity monitor", "exploration"),
    "C19": ("fault injection on the control connection, quiescence and processor-use monitor", "exploration"),
    "C20": ("trace monitor over histories of connection attempts", "exploration"),
    "C21": ("conservation and order monitor on both ends of the data connection", "exploration"),
    "C22": ("result monitor of readers and writers around provoked disconnects, wake-up monitor", "exploration"),
    "C23": ("exactly-once monitor over control lines at the modem", "exploration"),
    "C24": ("quiescence, processor-use and socket-closure monitor", "exploration"),
    "C25": ("connection monitor over listening sockets on loopback addresses", "exploration"),
    "C26": ("operation monitor on a scripted rig stream", "exploration"),
    "C27": ("fault injection on a scripted rig stream, operation and wake-up monitor", "exploration"),
    "C28": ("trace monitor around the running program: sockets, pseudo-terminal, pipes, exit status", "exploration"),
    "C29": ("order monitor on a pseudo-terminal in place of the rig", "exploration"),
    "C30": ("differential monitor: the same run with logging off and at levels", "exploration"),
    "C32": ("configuration monitor around the running program: sockets and decoys, terminal settings, exit status, log levels", "exploration"),
    "C31": ("Miri, AddressSanitizer, MemorySanitizer, ThreadSanitizer, UTF-8 monitor", "exploration"),
}
NOTE = {
    "pure": "Held on the executions the evidence file counts; inputs are generated, not exhausted, except where the evidence says so. Trusts the independent reference in /verif/harness/pure, validated against third-party captures.",
    "io": "Held on the executions the evidence file counts; schedules are provoked (several runtimes, segmentations, delays, cancellations), not enumerated. Trusts the simulated peer and the quiescence monitor in /verif/harness/io.",
}
NOTE["memory"] = "Held on the executions the evidence file counts; Miri runs the code that uses no sockets, the sanitizers all of it. A violation not executed is not seen."
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif hooks")]
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        tech, level = ORACLE[i]
        cmd = "python3 check.py " + i
        checks.append({
            "property": i,
            "quick_cmd": cmd,
            "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "runtime monitoring: " + tech,
            "level": level,
            "level_note": NOTE["pure" if int(i[1:]) <= 16 else "memory" if i == "C31" else "io"],
        })
    else:
        na.append({"property": i, "reason": "its check is still being built"})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS --cfg verif_hooks, set in /verif/harness/pure/.cargo/config.toml and, for C31, by /verif/memory.py", "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Known findings and repaired defects: known-findings.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
