#!/usr/bin/env python3
"""Makes planted bugs from descriptions and tries them out in scratch copies of /repo.

usage: plant.py FILE [--only ID,...] [--jobs N] [--no-tests] [--no-checks] [--keep-going]
FILE defines BUGS: dicts with id, prop, edits [(file, old, new)], needs, breaks, demo (Python that
uses fake.py) or demo_sh and files {name: text}. A bug is kept in /verif/seeded/<id> if the demonstration passes without and fails
with the change, and the stable tests pass with it. Then the check of its property is run on it."""
import concurrent.futures, json, os, queue, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
args = sys.argv[1:]
def opt(name, default=None):
    if name in args:
        i = args.index(name)
        v = args[i + 1]
        del args[i:i + 2]
        return v
    return default
def flag(name):
    if name in args:
        args.remove(name)
        return True
    return False
only = opt("--only"); jobs = int(opt("--jobs", "4")); notests = flag("--no-tests"); nochecks = flag("--no-checks")
BUGS = []
for f in args:
    BUGS += runpy.run_path(f)["BUGS"]
if only:
    BUGS = [b for b in BUGS if b["id"] in only.split(",")]

def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

pool = queue.Queue()
for i in range(jobs):
    w = "/tmp/plant/%d" % i
    if not os.path.exists(w):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=w, check=True)
    pool.put(w)

def one(b):
    w = pool.get()
    try:
        return b["id"], run(b, w)
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w)
        pool.put(w)

def run(b, w):
    d = os.path.join("/tmp/plant/seeded", b["id"])
    shutil.rmtree(d, True)
    os.makedirs(d)
    if "demo" in b:
        shutil.copy(HERE + "/tools/fake.py", d)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom fake import *\n\n" + b["demo"].strip() + "\n")
        demo = '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'
    else:
        demo = b["demo_sh"]
    for n, t in b.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # unchanged
    r = sh("cargo build -q --offline", w)
    if r.returncode: return "does not build unchanged\n" + r.stdout
    r = sh("timeout 300 %s/demo.sh" % d, w)
    if r.returncode: return "demo fails on the unchanged tree\n" + r.stdout
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1: return "%d matches in %s: %s" % (s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh("cargo test --workspace --no-run --offline", w)
    if r.returncode: return "does not build\n" + r.stdout[-3000:]
    r = sh("timeout 300 %s/demo.sh" % d, w)
    if r.returncode == 0: return "demo passes with the change"
    out = "demo: " + r.stdout.strip().split("\n")[-1][:300]
    if not notests:
        r = sh("rm -rf %s/firmware/target; timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 1" % w, w)
        ok = sum(l.startswith("test ") and l.endswith("... ok") for l in r.stdout.split("\n"))
        bad = [l for l in r.stdout.split("\n") if l.startswith("test ") and "FAILED" in l]
        if bad or ok < len(BASE): return "tests: %d ok, failed: %s" % (ok, bad)
    dst = os.path.join(HERE, "seeded", b["id"])
    shutil.rmtree(dst, True)
    shutil.copytree(d, dst)
    if not nochecks:
        env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=w + ".build", VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS="2")
        for prop in [b["prop"]] + b.get("also", []):
            r = subprocess.run([HERE + "/run.sh", "check", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            out += "\n    %s: %s" % (prop, "CAUGHT" if v and r.returncode == 1 else "missed (exit %d)" % r.returncode)
    return out

os.makedirs("/tmp/plant/seeded", exist_ok=True)
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, b) for b in BUGS]):
        print("%s: %s" % f.result(), flush=True)
