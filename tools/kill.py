#!/usr/bin/env python3
"""Runs checks against the planted changes, in copies of /repo: kill.py [-p C01,C02|own|all] [-j N] [id...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props, jobs = "own", 2
while args and args[0].startswith("-"):
    o, v = args[0], args[1]
    args = args[2:]
    if o == "-p": props = v
    if o == "-j": jobs = int(v)
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
allp = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]

def one(i):
    t = tempfile.mkdtemp(prefix="kill-")
    try:
        own = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
        ps = [own] if props == "own" else allp if props == "all" else props.split(",")
        repo, ver = t + "/repo", t + "/verif"
        os.mkdir(repo)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {repo}; cd {repo}; git init -q .; git apply {VERIF}/seeded/{i}/patch.diff", shell=True, check=True)
        subprocess.run(["cp", "-a", VERIF, ver], check=True)
        p = ver + "/harness/Cargo.toml"
        s = open(p).read().replace('"/repo"', f'"{repo}"')
        open(p, "w").write(s)
        out = []
        for q in ps:
            e = dict(os.environ, CSS_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["python3", ver + "/run/check.py", q], capture_output=True, text=True, env=e, cwd=ver)
            out.append(f"{q}:{ {0: 'missed', 1: 'CAUGHT', 2: 'ERROR'}.get(r.returncode, r.returncode)}")
            if r.returncode not in (0, 1):
                out.append((r.stderr + r.stdout)[-800:])
        return f"{i} ({own}): " + " ".join(out)
    finally:
        shutil.rmtree(t, ignore_errors=True)

with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(one, ids):
        print(line, flush=True)
