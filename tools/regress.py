#!/usr/bin/env python3
"""Takes back every repair listed in known_findings.txt, one at a time, in a scratch copy of /repo, and shows that the
check of its property reports the defect again.   regress.py [commit...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
entries = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(os.path.join(HERE, "known_findings.txt"))]
entries = [m.groups() for m in entries if m and (len(sys.argv) < 2 or m.group(2) in sys.argv[1:])]


def one(e):
    pid, commit, text = e
    d = tempfile.mkdtemp(prefix="regress.")
    try:
        subprocess.run(["git", "clone", "-q", REPO, d + "/r"], check=True)
        r = subprocess.run(["git", "-c", "core.autocrlf=false", "revert", "-n", commit], cwd=d + "/r", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return pid, commit, "cannot be taken back alone (later repairs touch the same lines)"
        env = dict(os.environ, SIM_REPO=d + "/r", SIM_BUILD=d + "/b", SIM_EVIDENCE=d + "/e", SIM_JOBS="3")
        out = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "quick"], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        line = [l for l in out.stdout.splitlines() if l.startswith("violation class")]
        return pid, commit, ("reported again: " + line[0][16:140] if out.returncode == 1 and line else "NOT REPORTED rc=%d" % out.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, entries):
        print("%s %s %s" % r, flush=True)
