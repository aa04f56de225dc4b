"""Builds dasm and ftohex from the working tree of /repo into a cache outside it."""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))

VARIANTS = {
    "plain": ["CC=gcc"],
    "asan": [
        "CC=clang",
        "CFLAGS=-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
        "-fno-sanitize=shift,function,signed-integer-overflow",
        "LDFLAGS=-fsanitize=address,undefined",
    ],
}


def sources():
    src = os.path.join(REPO, "src")
    names = []
    for d, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")) or f == "Makefile":
                names.append(os.path.relpath(os.path.join(d, f), src))
    return src, names


def build(variant="plain"):
    """Returns the directory that holds the binaries, or exits with status 1 if the tree does not build."""
    src, names = sources()
    h = hashlib.sha256(variant.encode() + repr(VARIANTS[variant]).encode())
    for n in names:
        with open(os.path.join(src, n), "rb") as f:
            h.update(n.encode() + b"\0" + hashlib.sha256(f.read()).digest())
    key = "%s-%s" % (variant, h.hexdigest()[:24])
    out = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(out, "ok")):
        return out
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        for n in names:
            os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
            shutil.copyfile(os.path.join(src, n), os.path.join(out, n))
        env = {k: v for k, v in os.environ.items() if not k.startswith("MAKE") and k not in ("CFLAGS", "LDFLAGS", "OS")}
        p = subprocess.run(
            ["make", "-C", out, "-j8"] + VARIANTS[variant] + ["all"], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        if p.returncode or not all(os.access(os.path.join(out, b), os.X_OK) for b in ("dasm", "ftohex")):
            sys.stdout.write(p.stdout.decode("utf-8", "replace")[-3000:])
            print("BUILD FAILED (%s)" % variant)
            sys.exit(1)
        for old in os.listdir(CACHE):  # keep the cache small
            if old.startswith(variant + "-") and old != key:
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        open(os.path.join(out, "ok"), "w").close()
    return out


if __name__ == "__main__":
    for v in VARIANTS:
        print(build(v))
