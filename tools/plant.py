#!/usr/bin/env python3
"""Write the planted bugs of seeded/ from a table, and verify them.

plant.py TABLE [ID...]    TABLE is a Python file with a list BUGS of dicts: id, prop, edits [(file, old, new)], needs, what, demo
For each bug: make the edit in a scratch copy of the repository, build, run the tests, run the demonstration with and
without the edit, and write seeded/<id>/ if everything is as required.
"""
import json, os, re, shutil, subprocess, sys, tempfile

REPO = "/repo"
HEAD = """#!/bin/bash
# {what}
B=$PWD/_build/tree/bin
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
asm() {{ cat > t.asm; "$B/dasm" t.asm -ot.bin "$@" > log 2>&1; }}
hex() {{ od -An -v -tx1 "${{1:-t.bin}}" | tr -d ' \\n'; }}
want() {{ [ "$1" = "$2" ] || {{ echo "got $1, want $2"; exit 1; }}; }}
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def original(rel):
    b = os.environ.get("BASE", "c6a313a")
    return sh("git show %s:%s" % (b, rel), REPO).stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh("bash /opt/vp/build.sh", REPO)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", b["id"])
        if not ids and os.path.isdir(d):
            continue
        bad = None
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p, newline="", encoding="latin-1").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    bad = "%d places in %s" % (s.count(old), f)
                    break
                open(p, "w", newline="", encoding="latin-1").write(s.replace(old, new))
            if bad:
                print(b["id"], bad)
                continue
            diff = subprocess.run(["git", "diff"], cwd=REPO, capture_output=True).stdout
            for l in diff.decode("latin-1").splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    if l[1:].rstrip("\r") not in [x.rstrip("\r") for x in original(b["edits"][0][0]).split("\n")]:
                        bad = "line not in the original: " + l
            demo = HEAD.format(what=b["what"]) + b["demo"].strip("\n") + "\nexit 0\n"
            tmp = tempfile.mkdtemp()
            open(tmp + "/demo.sh", "w").write(demo)
            r = sh("bash /opt/vp/build.sh", REPO)
            if r.returncode:
                bad = "build: " + r.stdout[-300:] + r.stderr[-300:]
            else:
                sh("bash /opt/vp/test.sh %s/t.json" % tmp, REPO)
                miss = stable - set(json.load(open(tmp + "/t.json"))["passed"])
                if miss:
                    bad = "tests notice: %s" % sorted(miss)[:3]
                r = sh("bash %s/demo.sh" % tmp, REPO, timeout=300)
                if r.returncode == 0:
                    bad = (bad or "") + " demo does not notice"
                with_bug = (r.returncode, r.stdout[-200:])
        finally:
            sh("git checkout -- .", REPO)
        sh("bash /opt/vp/build.sh", REPO)
        if not bad:
            r = sh("bash %s/demo.sh" % tmp, REPO, timeout=300)
            if r.returncode:
                bad = "demo fails on the unchanged tree: " + r.stdout[-300:] + r.stderr[-300:]
        if bad:
            print(b["id"], "NOT PLANTED:", bad)
        else:
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            shutil.copy(tmp + "/demo.sh", d + "/demo.sh")
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            print(b["id"], "ok", with_bug)
        shutil.rmtree(tmp)


main()
