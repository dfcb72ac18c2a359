#!/usr/bin/env python3
"""Applies every planted bug of seeded/ to a scratch copy of /repo and runs the quick check of its property against it.
seeded.py [id...]  prints one line per bug and, without ids, rewrites SEEDED.md.   (No registered check uses this.)"""
import json, os, queue, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get("PW", "3"))
ids = sys.argv[1:] or sorted(d for d in os.listdir(HERE + "/seeded") if os.path.isdir(HERE + "/seeded/" + d))
root = tempfile.mkdtemp(prefix="seeded.")
pool = queue.Queue()
for k in range(W):
    d = "%s/%d" % (root, k)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
    pool.put(d)


def one(i):
    d = pool.get()
    try:
        meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/r", check=True)
        r = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (HERE, i)], cwd=d + "/r", stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return i, meta, "does not apply", ""
        env = dict(os.environ, SIM_REPO=d + "/r", SIM_BUILD=d + "/b", SIM_EVIDENCE=d + "/e", SIM_JOBS=os.environ.get("SIM_JOBS", "3"), VERIF_SEED="1")
        t = time.time()
        p = subprocess.run([sys.executable, HERE + "/check.py", meta["property"], "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        line = [l for l in p.stdout.splitlines() if l.startswith("violation class")]
        cls = re.match(r"violation class ([^ ]+?):? ", line[0]).group(1) if line else ""
        return i, meta, {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR") + " %ds" % (time.time() - t), cls
    finally:
        pool.put(d)


rows = []
with ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, ids):
        rows.append(r)
        print(r[0], r[2], r[3], flush=True)
shutil.rmtree(root, ignore_errors=True)
if len(sys.argv) < 2:
    with open(HERE + "/SEEDED.md", "w") as f:
        f.write("# Planted bugs and what the quick check of their property (seed 1) says\n\n| bug | result | violation class | what it needs |\n|---|---|---|---|\n")
        for i, m, res, cls in rows:
            f.write("| %s | %s | %s | %s |\n" % (i, res.split()[0], cls, m["needs"].replace("|", "/").replace("\n", " ")))
        f.write("\n%d of %d caught.\n" % (sum(r[2].startswith("caught") for r in rows), len(rows)))
