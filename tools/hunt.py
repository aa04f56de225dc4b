#!/usr/bin/env python3
"""hunt.py [-t] [ID...]: run the check of its property against each planted bug, in scratch copies of the repository."""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = "thorough" if "-t" in sys.argv else "quick"
ids = [a for a in sys.argv[1:] if a != "-t"] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    if not os.path.isfile(d + "/meta.json"):
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="hunt-")
    try:
        shutil.copytree("/repo/src", tmp + "/repo/src")
        shutil.copytree("/repo/machines", tmp + "/repo/machines")
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp + "/repo", d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run("patch -p1 < %s/patch.diff" % d, shell=True, cwd=tmp + "/repo", capture_output=True, text=True)
            if r.returncode:
                print(i, "does not apply", r.stdout, r.stderr)
                continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_CACHE=tmp + "/cache", VERIF_EVIDENCE=tmp + "/ev")
        r = subprocess.run(["python3-vt", V + "/check.py", prop, tier], env=env, cwd=V, capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        print("%-18s %s %-7s %5.1fs  %s" % (i, prop, "caught" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED", time.time() - t,
                                           (out[0] if out else r.stderr[-200:])[:150]), flush=True)
    finally:
        shutil.rmtree(tmp)
