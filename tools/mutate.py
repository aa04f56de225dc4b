"""Mutation testing of the checks: mutate.py [-n MUTANTS] [-c CASES] [-s SEED] [-f FILES] [-o OUT]

Makes small random changes to copies of the C sources and runs the cases of every check on each one,
without shrinking.  Prints for every mutant which checks notice it; the ones that nobody notices show
where the generators are weak (or are equivalent to the original).
"""

import argparse
import json
import os
import pickle
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import build, harness, judge  # noqa: E402
from lib.gen import G, Skip  # noqa: E402
from lib.props import CHECKS  # noqa: E402
from lib.refasm import OutOfModel  # noqa: E402
import multiprocessing as mp  # noqa: E402


class CD:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def draw_integer(self, lo, hi):
        return self.r.randint(lo, hi)

    def draw_boolean(self, p):
        return self.r.random() < p


def gen_cases(a):
    prop, lo, hi = a
    out = []
    c = CHECKS[prop]
    parts = [(w, f) for w, _, f in c.parts]
    for i in range(lo, hi):
        g = G(CD("%s/%d" % (prop, i)))
        try:
            out.append((i, g.weighted(parts)(g).data))
        except (Skip, OutOfModel):
            pass
    return out


SWAPS = [
    (r"(?<![<>=!-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=!-])>(?![>=])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\|=", ["&="]), (r"\+=", ["-=", "="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![=!<>+*/|&^-])= ", ["+= "]),
    (r"\bif \((?!.*\?)", ["if (0 && ", "if (1 || "]), (r"& ~", ["& "]), (r"&= ~", ["&= "]), (r"<<", [">>"]), (r">>", ["<<"]),
]
NUM = re.compile(r"(?<![\w.\"'%$])(0x[0-9A-Fa-f]+|\d+)(?![\w.\"'])")


def sites(path):
    """[(line number, column, old, new)] of one source file."""
    out = []
    comment = False
    for n, line in enumerate(open(path, encoding="latin-1").read().split("\n")):
        s = line.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("#", "//", "*")):
            continue
        code = re.sub(r"//.*|/\*.*", lambda m: " " * len(m.group()), line)
        bare = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', code)
        for pat, news in SWAPS:
            for m in re.finditer(pat, bare):
                out += [(n, m.start(), m.group(), new) for new in news]
        for m in NUM.finditer(bare):
            v = int(m.group(), 0) if not re.match(r"0\d", m.group()) else int(m.group(), 8)
            out += [(n, m.start(), m.group(), str(w)) for w in {v + 1, v - 1, 0} - {v} if w >= 0]
        if re.match(r"^\s*[\w>()*\[\].-]+(\s*(=|\+=|-=|\|=|&=)[^=].*|\+\+|--|\(.*\));\s*$", bare) and not re.match(
                r"^\s*(return|static|int|char|long|unsigned|SYMBOL|FILE|short|bool|const|extern)\b", bare):
            out.append((n, len(bare) - len(bare.lstrip()), bare.strip(), ";"))
        if re.match(r"^\s*(\+\+|--)[\w>.-]+;\s*$", bare):
            out.append((n, len(bare) - len(bare.lstrip()), bare.strip(), ";"))
        if s == "break;":
            out.append((n, line.index("break"), "break;", ";"))
    return out


def compile_mutant(src, where, mut):
    f, n, col, old, new = mut
    shutil.copytree(src, where)
    p = os.path.join(where, f)
    lines = open(p, encoding="latin-1").read().split("\n")
    lines[n] = lines[n][:col] + new + lines[n][col + len(old):]
    if new == "if (0 && " or new == "if (1 || ":  # close the bracket that was opened
        rest = lines[n][col + len(new):]
        d, k = 1, 0
        while k < len(rest) and d:
            d += {"(": 1, ")": -1}.get(rest[k], 0)
            k += 1
        if d:
            return None
        lines[n] = lines[n][:col] + new + "(" + rest[: k - 1] + "))" + rest[k:]
    open(p, "w", encoding="latin-1").write("\n".join(lines))
    r = subprocess.run(["make", "-C", where, "CC=gcc", "CFLAGS=-O1 -w", "all"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = r.returncode == 0 and all(os.access(os.path.join(where, b), os.X_OK) for b in ("dasm", "ftohex"))
    return ok


def work(a):
    idx, mut = a
    f, n, col, old, new = mut
    judge.GUARD_S = 4
    root = tempfile.mkdtemp(prefix="mut", dir=ROOT)
    d = os.path.join(root, "src")
    try:
        if not compile_mutant(CLEAN, d, mut):
            return idx, None
        same = all(open(os.path.join(d, b), "rb").read() == open(os.path.join(CLEAN, b), "rb").read() for b in ("dasm", "ftohex"))
        if same:
            return idx, "same"
        bins = {t: os.path.join(d, t.split("_")[0]) for t in ("dasm", "ftohex", "dasm_asan", "ftohex_asan")}
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        killers = {}
        s = judge.Scratch(root, True)
        for lo, hi in STAGES:
            hangs = 0
            for prop, cases in CASES.items():
                for k, case in enumerate(cases[lo:hi]):
                    m = judge.judge(case, bins, s.path, s.clean)
                    if m:
                        killers[prop] = (lo + k, m[:300])
                        break
            if killers:
                break
        s.close()
        return idx, killers
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    global CASES, CLEAN, ROOT, STAGES
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=100)
    ap.add_argument("-c", type=int, default=1500)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default="exp.c,main.c,ops.c,symbols.c,ftohex.c,mnef8.c,errors.c,util.c,globals.c")
    ap.add_argument("-o", default="/tmp/mutants.jsonl")
    ap.add_argument("-p", default="")
    ap.add_argument("-l", default="")  # only lines a-b
    o = ap.parse_args()
    ROOT = judge.scratch_root()
    try:
        props = o.p.split(",") if o.p else list(CHECKS)
        with mp.Pool(8) as pool:
            jobs = [(p, i, i + 25) for p in props for i in range(0, o.c, 25)]
            CASES = {p: [] for p in props}
            for (p, _, _), l in zip(jobs, pool.imap(gen_cases, jobs, 8)):
                CASES[p] += [c for _, c in l]
        for p in props:
            rd = os.path.join(HERE, "regress", p)
            if os.path.isdir(rd):
                CASES[p] = [json.load(open(os.path.join(rd, f)))["case"] for f in sorted(os.listdir(rd))] + CASES[p]
        print(sum(map(len, CASES.values())), "cases", flush=True)
        STAGES = [(0, 300), (300, 10 ** 9)]
        CLEAN = os.path.join(ROOT, "clean")
        shutil.copytree(os.path.join(build.REPO, "src"), CLEAN)
        subprocess.run(["make", "-C", CLEAN, "CC=gcc", "CFLAGS=-O1 -w", "all"], stdout=subprocess.DEVNULL, check=True)
        for f in os.listdir(CLEAN):
            if f.endswith(".o"):
                os.unlink(os.path.join(CLEAN, f))
        r = random.Random(o.s)
        muts = []
        for f in o.f.split(","):
            muts += [(f,) + x for x in sites(os.path.join(CLEAN, f))]
        if o.l:
            a, b = map(int, o.l.split("-"))
            muts = [m for m in muts if a <= m[1] + 1 <= b]
        print(len(muts), "sites", flush=True)
        r.shuffle(muts)
        muts = muts[: o.n]
        with mp.get_context("fork").Pool(8) as pool, open(o.o, "a") as out:
            for idx, k in pool.imap_unordered(work, list(enumerate(muts)), 1):
                if k is None or k == "same":
                    continue
                f, n, col, old, new = muts[idx]
                text = open(os.path.join(CLEAN, f), encoding="latin-1").read().split("\n")[n].strip()
                out.write(json.dumps({"file": f, "line": n + 1, "col": col, "old": old, "new": new, "text": text, "killers": k}) + "\n")
                out.flush()
                print("%s:%d %r -> %r  [%s]  %s" % (f, n + 1, old[:30], new[:20], text[:70], " ".join(k) or "SURVIVED"), flush=True)
    finally:
        shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == "__main__":
    main()
