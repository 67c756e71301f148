#!/usr/bin/env python3
"""Tells which planted bugs change lines of the original repository."""
import subprocess, sys, pathlib
BASE = "43a94c1"
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    cur = None; hit = miss = adds = 0
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            base = set(x.strip() for x in subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{cur}"], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and l[1:].strip():
            if l[1:].strip() in base: hit += 1
            else: miss += 1
        elif l.startswith("+") and not l.startswith("+++"):
            adds += 1
    print(f"{d.name:32} original {hit} own {miss} added {adds}")
