"""Drives a check: generated cases in parallel shards, shrinking, replay, evidence."""

import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import sys
import time
import traceback
from collections import Counter

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

from . import build, judge
from .gen import G, Skip
from .refasm import OutOfModel

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
SHRINK_S = 45


class Failed(AssertionError):
    pass


class Enough(BaseException):
    """Ends shrinking; the smallest failing case is already recorded."""


class Check:
    """One property's check.

    parts: list of (weight, name, generator); generator(g) returns a gen.Case.
    quick, thorough: number of generated cases per shard.
    """

    def __init__(self, prop, parts, rule, quick, thorough, asan=False, known=()):
        self.prop, self.parts, self.rule = prop, parts, rule
        self.quick, self.thorough, self.asan, self.known = quick, thorough, asan, known


def bins_for(asan):
    plain = build.build("plain")
    b = {"dasm": os.path.join(plain, "dasm"), "ftohex": os.path.join(plain, "ftohex")}
    if asan:
        d = build.build("asan")
        b["dasm_asan"] = os.path.join(d, "dasm")
        b["ftohex_asan"] = os.path.join(d, "ftohex")
    return b


def size_of(data):
    return len(json.dumps(data))


def shard_main(check, shard, n, base_seed, bins, conn, root):
    sys.stdout.flush()
    judge.die_with_parent()
    scratch = judge.Scratch(root, check.asan)
    stats = {
        "generated": 0, "judged": 0, "discarded": Counter(), "runs": 0, "tags": Counter(), "parts": Counter(),
        "nontrivial": 0, "hashes": set(), "samples": [], "accepted": 0, "rejected": 0,
    }
    best = {"case": None, "msg": None, "t0": None, "found": 0}
    parts = [(w, (nm, f)) for w, nm, f in check.parts]

    def body(data):
        if best["t0"] is not None and time.monotonic() - best["t0"] > SHRINK_S:
            raise Enough
        g = G(data.conjecture_data)
        nm, f = g.weighted(parts)
        counting = best["case"] is None
        if counting:
            stats["generated"] += 1
        try:
            case = f(g)
        except (Skip, OutOfModel) as e:
            if counting:
                stats["discarded"][str(e)] += 1
            return
        if counting:
            stats["judged"] += 1
            stats["parts"][nm] += 1
            stats["runs"] += len(case.data["runs"])
            stats["tags"].update(set(g.tags))
            if any(r["expect"].get("exit") == "nz" for r in case.data["runs"] if "expect" in r):
                stats["rejected"] += 1
            else:
                stats["accepted"] += 1
            if case.nontrivial:
                stats["nontrivial"] += 1
                blob = json.dumps(case.data["files"], sort_keys=True) + repr([r["args"] for r in case.data["runs"]])
                stats["hashes"].add(hashlib.blake2b(blob.encode(), digest_size=8).digest())
                if len(stats["samples"]) < 3 and stats["judged"] > 4:
                    stats["samples"].append({"part": nm, "files": trim(case.data["files"]),
                                             "args": [r["args"] for r in case.data["runs"]]})
        msg = judge.judge(case.data, bins, scratch.path, scratch.clean)
        if msg:
            if best["t0"] is None:
                best["t0"] = time.monotonic()
                conn.send(("found", shard))
            best["found"] += 1
            if best["case"] is None or size_of(case.data) <= size_of(best["case"]):
                best["case"], best["msg"], best["part"] = case.data, msg, nm
            raise Failed(msg)

    run = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
    )(seed(base_seed * 1000003 + shard * 7919 + int(check.prop[1:]))(given(st.data())(body)))
    err = None
    try:
        sys.stdout = open(os.devnull, "w")
        sys.stderr = sys.stdout
        run()
    except Enough:
        pass
    except BaseException:
        if best["case"] is None:
            err = traceback.format_exc()
    finally:
        sys.stdout = sys.__stdout__
        scratch.close()
    conn.send(("done", shard, stats, best if best["case"] else None, err))
    conn.close()
    os._exit(0)


def trim(files):
    return {k: (v if not isinstance(v, str) or len(v) < 600 else v[:600] + "...") for k, v in list(files.items())[:4]}


def replay_case(data, bins, asan, root, times=3):
    """Judge a case in a fresh process several times -> list of messages (None = as expected)."""
    r, w = mp.Pipe(False)

    def child():
        try:
            judge.die_with_parent()
            s = judge.Scratch(root, asan)
            out = []
            for _ in range(times):
                out.append(judge.judge(data, bins, s.path, s.clean))
            s.close()
            w.send(out)
        except BaseException:
            w.send(traceback.format_exc())
        os._exit(0)

    p = mp.get_context("fork").Process(target=child)
    p.start()
    w.close()
    out = r.recv()
    p.join()
    if isinstance(out, str):
        raise RuntimeError(out)
    return out


def load_known(prop):
    """Known findings: lines 'open: property=<id> case=<file> <what fails>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("open: property=%s " % prop):
                words = l.split(" ", 3)
                out.append((words[2].partition("=")[2], words[3].strip()))
    return out


def run_check(check, tier):
    root = judge.scratch_root()
    try:
        return run_in(check, tier, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_in(check, tier, root):
    t0 = time.monotonic()
    seed_ = int(os.environ.get("VERIF_SEED", "1"))
    bins = bins_for(check.asan)
    n = check.quick if tier == "quick" else check.thorough
    if os.environ.get("VERIF_CASES"):
        n = int(os.environ["VERIF_CASES"])
    violation = None

    # regression cases: shrunk inputs of defects found earlier
    reg_dir = os.path.join(HERE, "regress", check.prop)
    regs = sorted(os.listdir(reg_dir)) if os.path.isdir(reg_dir) else []
    for name in regs:
        with open(os.path.join(reg_dir, name)) as f:
            data = json.load(f)
        msgs = replay_case(data["case"], bins, check.asan, root)
        if all(msgs):
            violation = (data["case"], msgs[0], "regression " + name)
            break
    known_lines = []
    for case_file, what in load_known(check.prop):
        with open(os.path.join(HERE, case_file)) as f:
            data = json.load(f)
        if any(replay_case(data["case"], bins, check.asan, root, 1)):
            known_lines.append(what)

    tot = {
        "generated": 0, "judged": 0, "discarded": Counter(), "runs": 0, "tags": Counter(), "parts": Counter(),
        "nontrivial": 0, "hashes": set(), "samples": [], "accepted": 0, "rejected": 0,
    }
    unreproduced = 0
    errors = []
    if violation is None:
        ctx = mp.get_context("fork")
        procs = []
        for s in range(SHARDS):
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=shard_main, args=(check, s, n, seed_, bins, w, root))
            p.start()
            w.close()
            procs.append([s, p, r, False])
        finder = None
        while any(not d[3] for d in procs):
            for item in mp.connection.wait([d[2] for d in procs if not d[3]], timeout=5):
                d = next(x for x in procs if x[2] is item)
                try:
                    m = item.recv()
                except EOFError:
                    d[3] = True
                    continue
                if m[0] == "found":
                    if finder is None:
                        finder = m[1]
                        for x in procs:  # one failure is enough: free the processors for shrinking
                            if x[0] != finder and not x[3]:
                                x[1].terminate()
                                x[3] = True
                    continue
                d[3] = True
                _, _, stats, best, err = m
                for k, v in stats.items():
                    if isinstance(v, set):
                        tot[k] |= v
                    else:
                        tot[k] += v
                if err:
                    errors.append(err)
                if best:
                    msgs = replay_case(best["case"], bins, check.asan, root)
                    if not all(msgs):
                        more = replay_case(best["case"], bins, check.asan, root, 20)
                        if sum(map(bool, msgs + more)) >= 5:
                            msgs = [m2 for m2 in msgs + more if m2]
                    if all(msgs):
                        violation = (best["case"], msgs[0], best["part"])
                    else:
                        unreproduced += 1
        for d in procs:
            d[1].join()

    for what in known_lines:
        print("KNOWN-FINDING: property=%s %s" % (check.prop, what))
    status = 0
    replay = None
    if violation:
        data, msg, part = violation
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(HERE, "evidence", "replay", "%s.json" % check.prop)
        with open(replay, "w") as f:
            json.dump({"property": check.prop, "part": part, "message": msg, "case": data}, f, indent=1)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (check.prop, replay))
        status = 1
    if errors:
        # a defect of the machinery itself: never silent
        print(errors[0])
        print("CHECK ERROR: %d shard(s) failed" % len(errors))
        status = 1
    wall = time.monotonic() - t0
    ev = {
        "property": check.prop,
        "tier": tier,
        "seed": seed_,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["judged"],
            "distinct_nontrivial": len(tot["hashes"]),
            "rule": check.rule,
            "samples": tot["samples"][:5],
            "generated": tot["generated"],
            "discarded_out_of_model": sum(tot["discarded"].values()),
            "discard_reasons": dict(tot["discarded"].most_common(12)),
            "program_runs": tot["runs"],
            "expected_accept": tot["accepted"],
            "expected_reject": tot["rejected"],
            "parts": dict(tot["parts"].most_common()),
            "classes": dict(tot["tags"].most_common(80)),
            "regression_cases": len(regs),
            "known_findings_reproduced": len(known_lines),
            "unreproduced": unreproduced,
            "violation": {"message": violation[1], "replay": replay} if violation else None,
        },
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases judged (%d distinct non-trivial), %d discarded, %d program runs, %.1f s: %s" % (
        check.prop, tier, tot["judged"], len(tot["hashes"]), sum(tot["discarded"].values()), tot["runs"], wall,
        "held" if not status else "FAILED"))
    return status
