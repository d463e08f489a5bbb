#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SSH = ("Real nora_ssh and nora_ssh_core in one process under a seeded simulator of network, process pipes, timers and task wake-ups; "
       "model client and reference rules as oracle. Sampled, not exhaustive; trusts the simulator's transport model and its independent SSH implementation.")
SSHD = ("Real nora_sshd main.rs with real nora_ssh, compiled against a simulated async-std (network, child processes, timers, executor). "
        "Sampled, not exhaustive; trusts that stand-in to behave like async-std.")
SCP = ("The real scp binary; every input, output and file call goes through a seeded simulator of peer, kernel and disk with fault injection and kills. "
       "Sampled, not exhaustive; trusts the interposed libc calls to be all it makes.")
checks = []
for i in range(1, 24):
    p = f"C{i:02}"
    note = SCP if 16 <= i <= 19 else SSHD if 20 <= i <= 22 else SSH
    if os.environ.get("NOSCP") and 16 <= i <= 19: continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
        "level": "exploration",
        "level_note": note,
    })
na = [
    {"property": "N01", "reason": "Pure functions of their input: no scheduling, time, I/O or other party for a simulator to control. Input generation alone would decide it, which is another technique; the parsers are exercised inside C05, C07, C11 and C12."},
    {"property": "N02", "reason": "Pure constructors and an iterator over a byte string: nothing nondeterministic for a simulator to control."},
]
if os.environ.get("NOSCP"):
    na += [{"property": f"C{i}", "reason": "check under construction"} for i in range(16, 20)]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo. ./replay.sh FILE reproduces a violation from its replay file."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
