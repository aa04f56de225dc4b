"""Runs the programs under test on a case and compares what they did with what the case expects.

A case is plain data (and is what a replay file contains):

  files   name -> text (latin-1) or {"hex": ...}
  runs    list of {"tool", "args", "expect", optional "pre": files created before the run}

Every key of "expect" is one comparison, see the functions named x_*.  Death by a signal and a run
that does not end are failures whatever is expected.
"""

import os
import re
import resource
import select
import shutil
import signal
import ctypes
import tempfile

from . import build
from .cpu6502 import Cpu, Mirrored, Stop

GUARD_S = 30  # far beyond any run of a terminating program; only stops real endless loops


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="dasmv-", dir=base)


class Scratch:
    """A private directory the calling process works in."""

    def __init__(self, root, asan=False):
        self.path = tempfile.mkdtemp(prefix="s", dir=root)
        self.work = os.path.join(self.path, "w")
        os.mkdir(self.work)
        os.chdir(self.work)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def clean(self):
        for n in os.listdir("."):
            if os.path.isdir(n) and not os.path.islink(n):
                shutil.rmtree(os.path.join(self.work, n))
            else:
                os.unlink(os.path.join(self.work, n))

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.path, ignore_errors=True)


ENV = {
    "PATH": "/usr/bin:/bin",
    "LC_ALL": "C",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:malloc_context_size=5",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=0",
}


class Outcome:
    __slots__ = ("exit", "sig", "hang", "stdout", "stderr")


running = 0  # process id of the program under test


def die_with_parent():
    """Call in a worker: ends it, and the program it is running, when the check ends."""
    def term(*_):
        if running:
            os.kill(running, signal.SIGKILL)
        os._exit(1)

    signal.signal(signal.SIGTERM, term)
    ctypes.CDLL(None).prctl(1, signal.SIGTERM)  # PR_SET_PDEATHSIG


def spawn(path, args, sdir):
    global running
    so, se = os.path.join(sdir, "stdout"), os.path.join(sdir, "stderr")
    flags = os.O_WRONLY | os.O_CREAT | os.O_TRUNC
    pid = os.posix_spawn(
        path, [path] + args, ENV,
        file_actions=[
            (os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0),
            (os.POSIX_SPAWN_OPEN, 1, so, flags, 0o600),
            (os.POSIX_SPAWN_OPEN, 2, se, flags, 0o600),
        ],
        setsigdef=[signal.SIGPIPE, signal.SIGXFSZ],
    )
    running = pid
    o = Outcome()
    o.hang = False
    fd = os.pidfd_open(pid)
    try:
        p = select.poll()
        p.register(fd, select.POLLIN)
        if not p.poll(GUARD_S * (4 if "asan" in path else 1) * 1000):
            o.hang = True
            os.kill(pid, signal.SIGKILL)
    finally:
        os.close(fd)
    _, st = os.waitpid(pid, 0)
    running = 0
    o.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    o.exit = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
    with open(so, "rb") as f:
        o.stdout = f.read(4 << 20).decode("latin-1")
    with open(se, "rb") as f:
        o.stderr = f.read(1 << 20).decode("latin-1")
    return o


def put(files):
    for name, data in files.items():
        d = os.path.dirname(name)
        if d:
            os.makedirs(d, exist_ok=True)
        b = bytes.fromhex(data["hex"]) if isinstance(data, dict) else data.encode("latin-1")
        with open(name, "wb") as f:
            f.write(b)


def get(name):
    try:
        with open(name, "rb") as f:
            return f.read()
    except OSError:
        return None


def diff(got, want):
    n = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
    return "at offset %d: got %s... (%d bytes), want %s... (%d bytes)" % (
        n, got[n : n + 8].hex(), len(got), want[n : n + 8].hex(), len(want))


# --------------------------------------------------------------- comparisons


def x_exit(o, want, prev):
    if want == "nz":
        if o.exit == 0:
            return "exit status 0 for a program that has to be rejected"
    elif want == "any":
        return None
    elif o.exit != want:
        return "exit status %d, want %d; output: %s" % (o.exit, want, o.stdout.strip()[-300:])


def x_out(o, want, prev):
    """want: {"file": name, "hex": data}"""
    got = get(want["file"])
    if got is None:
        return "no file " + want["file"]
    exp = bytes.fromhex(want["hex"])
    if got != exp:
        return want["file"] + " differs " + diff(got, exp)


def x_same(o, want, prev):
    """Files of this run equal the remembered files of an earlier run: [[name, run, name there], ...]"""
    for name, run, other in want:
        if get(name) != prev[run]["files"].get(other):
            a, b = get(name), prev[run]["files"].get(other)
            return "%s differs from %s of run %d %s" % (
                name, other, run, "(missing)" if a is None or b is None else diff(a, b))


def x_same_stdout(o, want, prev):
    if o.stdout != prev[want]["stdout"]:
        return "standard output differs from that of run %d" % want


def x_same_exit(o, want, prev):
    if o.exit != prev[want]["exit"]:
        return "exit status %d differs from run %d (%d)" % (o.exit, want, prev[want]["exit"])


def x_gone(o, want, prev):
    for n in want:
        if os.path.exists(n):
            return "file %s exists" % n


def x_passes(o, want, prev):
    """A run limited to some passes succeeds exactly if the earlier, verbose run took no more than that."""
    n = prev[want["run"]]["stdout"].count("START OF PASS")
    if n <= want["limit"]:
        if o.exit:
            return "exit status %d with a limit of %d passes, %d are needed" % (o.exit, want["limit"], n)
        return x_same(o, [[want["file"], want["run"], want["as"]]], prev)
    if not o.exit:
        return "exit status 0 with a limit of %d passes, %d are needed" % (want["limit"], n)
    return x_gone(o, [want["file"]], prev)


def x_exists(o, want, prev):
    for n in want:
        if not os.path.exists(n):
            return "file %s missing" % n


def x_unresolved(o, want, prev):
    """The list of unresolved symbols names all of these, and its summary counts its lines."""
    m = re.search(r"^--- Unresolved Symbol List\n(.*?)^--- (\d+) Unresolved Symbol([ s])$", o.stdout, re.M | re.S)
    if not m:
        return "no list of unresolved symbols: %r" % o.stdout[-300:]
    got = [l.split()[0] for l in m[1].split("\n") if l.strip()]
    if int(m[2]) != len(got) or (m[3] == " ") != (len(got) == 1):
        return "%s Unresolved Symbol%s, listed: %s" % (m[2], m[3], got)
    if not set(want) <= set(got):
        return "unresolved symbols %s, want %s" % (got, want)


def x_has(o, want, prev):
    for t in want:
        if t not in o.stdout:
            return "standard output lacks %r: %r" % (t, o.stdout[-400:])


def x_hasnt(o, want, prev):
    for t in want:
        if t in o.stdout:
            return "standard output contains %r" % t


def x_has_line(o, want, prev):
    """Each is a regular expression that has to match a whole line of standard output."""
    lines = o.stdout.split("\n")
    for t in want:
        if not any(re.fullmatch(t, l) for l in lines):
            return "standard output has no line like %r: %r" % (t, o.stdout[-400:])


DIAG = [r"(?P<f>\S+) \((?P<n>\d+)\): error: (?P<t>.*)", r"line (?P<n> *\d+) (?P<f>\S+) *(?P<t>.*)",
        r"(?P<f>\S+):(?P<n>\d+): error: (?P<t>.*)"]


def x_diag(o, want, prev):
    """want: {"format": 0|1|2, "at": [[file, line, regular expression for the text or None], ...]}: the messages, in order."""
    src = o.stdout
    if want.get("file"):
        src = (get(want["file"]) or b"").decode("latin-1")
    got = []
    for l in src.split("\n"):
        m = re.fullmatch(DIAG[want["format"]], l)
        if m:
            got.append((m["f"], int(m["n"]), m["t"]))
            if want["format"] == 1 and not re.match(r"line [ \d]{7,} \S", l):
                return "malformed message %r" % l
    exp = want["at"]
    for at in [] if want.get("some") else want.get("more", []):  # a line whose text cannot be read may be reported more than once
        got = [x for i, x in enumerate(got) if i == 0 or list(x[:2]) != at or list(got[i - 1][:2]) != at]
        exp = [x for i, x in enumerate(exp) if i == 0 or list(x[:2]) != at or list(exp[i - 1][:2]) != at]
    if want.get("last") and (not got or list(got[-1][:2]) != exp[-1][:2]):
        return "last message for %r, want %r" % (got[-1:], exp[-1])
    if want.get("some"):
        it = iter(got)
        for e in exp:
            if not any(g[0] == e[0] and g[1] == e[1] and (e[2] is None or re.fullmatch(e[2], g[2])) for g in it):
                return "messages for %r, want among them %r" % ([g[:2] for g in got][:8], e)
        return
    if len(got) != len(exp):
        return "messages for %r, want %r" % ([g[:2] for g in got][:8], exp[:8])
    for g, e in zip(got, exp):
        if g[0] != e[0] or g[1] != e[1] or (e[2] is not None and not re.fullmatch(e[2], g[2])):
            return "message %r, want %r" % (g, e)


REMARKS = {"(Must be a valid hex digit)", "EQM label not found", "must specify EQM label for DV", "not within a macro", "too many endif's",
           "no repeat", "']' error, no arg on stack", "too many ops"}


def x_echo(o, want, prev):
    """The messages printed before the final status line, exactly.

    Remarks that the assembler makes at once, even in a pass that is thrown away, are not messages of the program.
    """
    head = o.stdout.split("Complete.")[0]
    got = [l for l in head.split("\n") if l != "" and l not in REMARKS]
    if got != want:
        return "messages are %r, want %r" % (got[:20], want[:20])


SYM = re.compile(
    r"(?P<name>\S+) +(?P<value>[0-9a-f]{4,}) (?P<unk>\?{4} |     )(?P<str>str |    )(?P<eqm>eqm |    )"
    r"(?P<marks>\([R ][S ]\)|    )? *(?: \"(?P<text>.*)\")?$"
)


def parse_symbols(text):
    lines = text.split("\n")
    if len(lines) < 2 or not lines[0].startswith("--- Symbol List") or lines[-2:] != ["--- End of Symbol List.", ""]:
        raise ValueError("symbol file lacks its frame: %r" % text[:200])
    out = []
    for l in lines[1:-2]:
        m = SYM.match(l)
        if not m:
            raise ValueError("unreadable symbol line %r" % l)
        out.append(
            {
                "name": m["name"], "value": int(m["value"], 16), "unk": "?" in m["unk"], "str": "str" in m["str"],
                "eqm": "eqm" in m["eqm"], "marks": m["marks"] or "", "text": m["text"],
            }
        )
    return lines[0], out


LOCAL = re.compile(r"(\d+)(\.\S*|\$\S*)$")


def x_sym(o, want, prev):
    """want: {"file", "sort": 0|1|2|None, "entries": [[name, value|None, kind, text, R, S]], "exact": bool}

    kind: num, str, eqm, unk; text for str/eqm; R (referenced) and S (made by SET or EQM): required/forbidden/None.
    Names of local symbols are compared without their scope number.
    """
    raw = get(want["file"])
    if raw is None:
        return "no symbol file"
    try:
        head, got = parse_symbols(raw.decode("latin-1"))
    except ValueError as e:
        return str(e)
    srt = want.get("sort")
    if srt is not None:
        title = ["(sorted by symbol)", "(sorted by address)", "(sorted by order)"][srt]
        if title not in head:
            return "symbol list header %r, want %s" % (head, title)
        if srt == 0:
            keys = [g["name"].lower() for g in got]
            if keys != sorted(keys):
                return "symbols not sorted by name: %r" % keys
        elif srt == 1:
            keys = [g["value"] - (1 << 64 if g["value"] >> 63 else 0) for g in got]
            if keys != sorted(keys):
                return "symbols not sorted by value: %r" % [hex(k) for k in keys]
        elif want.get("order") is not None:
            pos = {}
            for i, g in enumerate(got):
                pos.setdefault(g["name"], i)
            idx = [pos.get(n) for n in want["order"]]
            if None in idx or idx != sorted(idx):
                return "symbols not in definition order: %r, want %r" % ([g["name"] for g in got], want["order"])

    def norm(n):
        m = LOCAL.match(n)
        return "#" + m[2] if m else n

    have = {}
    for g in got:
        have.setdefault(norm(g["name"]), []).append(g)
    names = [g["name"] for g in got]
    if len(set(names)) != len(names):
        return "symbol listed twice: %r" % sorted(n for n in names if names.count(n) > 1)[:4]
    exp = {}
    for e in want["entries"]:
        exp.setdefault(norm(e[0]), []).append(e)
    for n, es in exp.items():
        gs = have.get(n, [])
        if es[0][2] == "unk" and not gs:
            continue
        if len(gs) < len(es) or (want.get("exact") and len(gs) != len(es)):
            return "symbol %s listed %d times, want %d" % (n, len(gs), len(es))

        def gkey(g):
            k = "unk" if g["unk"] else "eqm" if g["eqm"] else "str" if g["str"] else "num"
            return (k, g["value"] if k in ("num", "str") else 0, (g["text"] or "") if k in ("str", "eqm") else "")

        def ekey(e):
            k = e[2].rstrip("?")
            return (k, (e[1] or 0) & ((1 << 64) - 1) if k in ("num", "str") else 0, e[3] or "")

        if es[0][2] == "any":
            continue
        if len(es) == 1 and es[0][2] == "num?":
            if len(gs) == 1 and gs[0]["unk"]:
                continue
            es = [[es[0][0], es[0][1], "num", None] + es[0][4:]]
        a, b = sorted(map(gkey, gs)), sorted(map(ekey, es))
        if len(gs) == len(es) and a != b:
            return "symbol %s is %r, want %r" % (n, a, b)
        if len(gs) != len(es) and not set(b) <= set(a):
            return "symbol %s is %r, want among them %r" % (n, a, b)
        if len(gs) == 1 and len(es) == 1:
            for mark, w in zip("RS", es[0][4:]):
                if w is not None and (mark in gs[0]["marks"]) != w:
                    return "symbol %s is marked %r, want %s%s" % (n, gs[0]["marks"], "" if w else "no ", mark)
    if want.get("exact"):
        # symbols that were only asked for may be listed as unknown
        extra = {n for n in set(have) - set(exp) if not all(g["unk"] for g in have[n])}
        if extra:
            return "unexpected symbols %r" % sorted(extra)[:5]


LIST = re.compile(r" *(?P<line>\d+) (?P<u>[U ])(?P<addr>[0-9a-f]{4,}) (?P<rest>.*)$")


def detab(s):
    out = ""
    for c in s:
        if c == "\t":
            out += " " * (8 - len(out) % 8)
        else:
            out += c
    return out


def parse_listing(text):
    """-> list of ("file", name) and ("line", no, bss, addr, unknown, bytes, mark, source text with blanks collapsed)"""
    out = []
    for raw in text.split("\n"):
        if raw == "":
            continue
        if raw.startswith("------- FILE "):
            m = re.fullmatch(r"------- FILE (.*?)(?: LEVEL (\d+) PASS (\d+))?", raw)
            out.append(("file", m[1], int(m[2]) if m[2] else None, int(m[3]) if m[3] else None))
            continue
        l = detab(raw) + " "
        m = re.match(r" *(\d+) ([U ])([0-9a-f]{4,}) ", l)
        if not m:
            out.append(("text", raw))
            continue
        # sftos: "%04lx " + 5 + 4 + 4 + 4 columns, then four times "xx ", the last blank is the mark
        at = m.end()
        unk = l[at : at + 4] == "????"
        at += 5 + 4 + 4 + 4
        cells = l[at : at + 11].ljust(11)
        mark = l[at + 11 : at + 12] or " "
        data = "".join(c for c in cells.split(" ") if c)
        out.append(("line", int(m[1]), m[2] == "U", int(m[3], 16), unk, data, mark, l[at + 12 :]))
    return out


def squeeze(s):
    return " ".join(s.split())


def x_list(o, want, prev):
    """want: {"file", "entries": [...], "hidden": [texts]}: the listing has to contain these entries in this order.

    Entry: {"k": "file", "name", "level"} or {"k": "line", "no", "addr", "bytes", "bss", "mark", "src"};
    missing keys are not compared.  With "exact" the listing has no other lines.
    """
    raw = get(want["file"])
    if raw is None:
        return "no list file"
    got = parse_listing(raw.decode("latin-1"))
    if want.get("every"):
        # -L: one listing per pass, the last one is judged
        starts = [i for i, g in enumerate(got) if g[0] == "file" and g[2] == 1]
        if [got[i][3] for i in starts] != list(range(1, len(starts) + 1)):
            return "passes listed: %r" % [got[i][3] for i in starts]
        got = got[starts[-1] :] if starts else got
    if want.get("pass_only"):
        got = [g for g in got if g[0] != "text"] if not want.get("text") else got
    i = 0

    def match(g, e):
        if e["k"] == "file":
            return g[0] == "file" and g[1] == e["name"] and ("level" not in e or g[2] == e["level"])
        if e["k"] == "text":
            return g[0] == "text" and g[1] == e["text"]
        if g[0] != "line":
            return False
        return (
            ("no" not in e or g[1] == e["no"])
            and ("addr" not in e or g[3] == e["addr"])
            and ("bytes" not in e or g[5] == e["bytes"])
            and ("bss" not in e or g[2] == e["bss"])
            and ("mark" not in e or g[6] == e["mark"])
            and ("src" not in e or squeeze(g[7]).rstrip(" ;") == e["src"])
            and ("flat" not in e or "".join(g[7].split()).rstrip(";") == e["flat"])
        )

    for n, e in enumerate(want["entries"]):
        if want.get("exact"):
            if e.get("opt") and (i >= len(got) or not match(got[i], e)):
                continue
            if i >= len(got) or not match(got[i], e):
                return "listing entry %d is %r, want %r" % (n, got[i] if i < len(got) else None, e)
            i += 1
            continue
        j = i
        while j < len(got) and not match(got[j], e):
            j += 1
        if j >= len(got):
            return "listing lacks entry %d %r; next lines %r" % (n, e, got[i : i + 3])
        i = j + 1
    if want.get("exact") and i != len(got):
        return "listing has extra lines %r" % (got[i : i + 3],)
    for t in want.get("hidden", ()):
        if any(g[0] == "line" and t in g[7] for g in got):
            return "listing shows suppressed line %r" % t


def parse_ihex(text):
    if not text.endswith("\r\n") and not text.endswith("\n"):
        raise ValueError("last record not terminated")
    mem, end = [], False
    for l in re.split("\r?\n", text)[:-1]:
        if end:
            raise ValueError("record after the end record")
        if not re.fullmatch(r":([0-9A-Fa-f]{2})+", l):
            raise ValueError("malformed record %r" % l)
        b = bytes.fromhex(l[1:])
        if len(b) != b[0] + 5:
            raise ValueError("record length %r" % l)
        if sum(b) & 255:
            raise ValueError("record checksum %r" % l)
        if b[3] == 1:
            if b[0] != 0:
                raise ValueError("end record with data")
            end = True
        elif b[3] == 0:
            if b[0] == 0:
                raise ValueError("empty data record")
            a = b[1] << 8 | b[2]
            mem += [((a + i) & 0xFFFF, c) for i, c in enumerate(b[4:-1])]
        else:
            raise ValueError("record type %d" % b[3])
    if not end:
        raise ValueError("no end record")
    return mem


def x_ihex(o, want, prev):
    """want: {"file", "mem": [[address, hex], ...]} in order"""
    raw = o.stdout.encode("latin-1") if want["file"] is None else get(want["file"])
    if raw is None:
        return "no hex file"
    try:
        got = parse_ihex(raw.decode("latin-1"))
    except ValueError as e:
        return str(e)
    exp = [((a + i) & 0xFFFF, c) for a, h in want["mem"] for i, c in enumerate(bytes.fromhex(h))]
    if got != exp:
        n = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        return "hex file differs at byte %d: %r, want %r (%d/%d bytes)" % (
            n, got[n : n + 3], exp[n : n + 3], len(got), len(exp))


def x_fmt(o, want, prev):
    """Formats 1, 2 and 3 of one program (runs given) describe the same memory: [run1, run2, run3, fill or None]"""
    f1, f2, f3 = (prev[r]["files"].get(n) for r, n in want["runs"])
    if f1 is None or f2 is None or f3 is None:
        return "output missing"
    if not f3:
        return None if not f1 and not f2 else "formats disagree about empty output"
    if f1[2:] != f3:
        return "format 1 without its origin differs from format 3 " + diff(f1[2:], f3)
    base = f1[0] | f1[1] << 8
    img = {}
    i = 0
    while i < len(f2):
        if i + 4 > len(f2):
            return "format 2 record cut"
        a, n = f2[i] | f2[i + 1] << 8, f2[i + 2] | f2[i + 3] << 8
        if i + 4 + n > len(f2) or n == 0:
            return "format 2 record length %d at %d" % (n, i)
        for k in range(n):
            img[(a + k) & 0xFFFF] = f2[i + 4 + k]
        i += 4 + n
    if len(f3) > 0xFFFF:
        return None
    for k, c in img.items():
        p = (k - base) & 0xFFFF
        if p >= len(f3) or f3[p] != c:
            return "byte at %04x differs between formats 2 and 3" % k


def x_sane(o, want, prev):
    t = o.stderr
    if "AddressSanitizer" in t or "runtime error:" in t or o.exit == 99:
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+)", t)
        at = re.search(r"#\d+ \S+ in (?!__|mem|str|printf|vsp|vfp|spr|fpr|fwr|fre|put)(\S+)", t)
        return "sanitizer report: %s in %s" % (m[1] if m else t[:200], at[1] if at else "?")


_VAL = r"([0-9a-f]{4,16}) (\?{4}|    ) .{12}"
_SEG = re.compile(r"^(.{24,}) (\[u\]|   ) " + " ".join([_VAL] * 4) + "$")
_STATS = re.compile(r"^(\d+) references to unknown symbols\.\n(\d+) events requiring another assembler pass\.$", re.M)


def x_verbose(o, want, prev):
    """The reports of -v: segments, files, symbols and reasons, pass by pass."""
    parts = re.split(r"^START OF PASS: (\d+)$", o.stdout, flags=re.M)
    if [int(n) for n in parts[1::2]] != list(range(1, len(parts) // 2 + 1)) or len(parts) < 3:
        return "passes reported: %s" % parts[1::2]
    level = want["level"]
    for k, text in enumerate(parts[2::2]):
        last = k == len(parts) // 2 - 1
        st = list(_STATS.finditer(text))
        if len(st) != 1:
            return "pass %d: %d reports of events" % (k + 1, len(st))
        refs, events = map(int, st[0].groups())
        if (events == 0) != last:
            return "pass %d of %d: %d events" % (k + 1, len(parts) // 2, events)
        why = re.findall(r"^ - (.*)$", text[st[0].end():].partition("\n\n")[0], re.M)
        if last and why:
            return "reasons after the last pass: %s" % why
        if k == 0 and want.get("first"):
            r, e, reasons = want["first"]
            if (refs, events) != (r, e) or sorted(why) != sorted(reasons):
                return "first pass: %d references, %d events, %s; want %d, %d, %s" % (refs, events, why, r, e, reasons)
        inc = re.findall(r'^ *Including file "(.*)"$', text, re.M)
        back = re.findall(r"^back to: (.*)$", text, re.M)
        if last:
            if inc != (want["files"] if 2 <= level != 5 else []):
                return "files %s, want %s" % (inc, want["files"])
            if level > 3 and len(back) != len(want["files"]) - 1:
                return "returns %s, files %s" % (back, want["files"])
        rows = [_SEG.match(l) for l in text.split("\n")]
        rows = [m.groups() for m in rows if m]
        if last:
            got = {}
            for m in rows:
                v = [None if m[3 + 2 * i] != "    " else int(m[2 + 2 * i], 16) for i in range(4)]
                got[m[0] if len(m[0]) > 24 else m[0].rstrip()] = [m[1] == "[u]"] + v
            exp = {n: e for n, *e in want["segs"]}
            if len(rows) != len(want["segs"]) or got != exp:
                return "segments %s, want %s" % (sorted(got.items()), sorted(exp.items()))
        tables = re.findall(r"^(--- Symbol List.*?^--- End of Symbol List\.)$", text, re.M | re.S)
        if len(tables) != (level >= 3 and (last or level == 4)):
            return "pass %d: %d symbol tables" % (k + 1, len(tables))
        if last and level >= 3:
            dump = (get("o.sym") or b"").decode("latin-1").rstrip("\n")
            if tables[0] != dump:
                return "symbol table differs from the symbol file"
            open_ = re.findall(r"^(\S+) +\S+ \?{4}", dump, re.M)
            m = re.search(r"^--- Unresolved Symbol List\n(.*?)^--- (\d+) Unresolved Symbols?", text, re.M | re.S)
            got = sorted(l.split()[0] for l in m[1].split("\n") if l) if m else []
            if got != sorted(open_) or (m and int(m[2]) != len(got)):
                return "unresolved symbols %s, want %s" % (got, sorted(open_))
    return None


def x_cpu(o, want, prev):
    """Runs parts of the output on a 6502: {"file", "sym", "org", "parts": [[from, to, registers, wanted]]}"""
    image = get(want["file"]) or b""
    try:
        at = {e["name"]: e["value"] for e in parse_symbols((get(want["sym"]) or b"").decode("latin-1"))[1]}
    except ValueError as e:
        return str(e)
    for start, end, regs, w in want["parts"]:
        if start not in at or end not in at:
            return "no label %s or %s" % (start, end)
        tag = "%s to %s (%s): " % (start, end, w["name"])
        if "pos" in w:
            pad = image[at[start] - want["org"] : at[end] - want["org"]]
            if at[end] & 255 != w["pos"] or len(pad) != (w["pos"] - at[start]) % 256 or any(pad):
                return tag + "%04x to %04x, filled with %s" % (at[start], at[end], pad.hex())
            continue
        mem = Mirrored(image, want["org"])
        c = Cpu(mem, *regs)
        p0 = c.p
        try:
            c.run(at[start], at[end])
        except Stop as e:
            return tag + str(e)
        if "cycles" in w and c.cycles != w["cycles"]:
            return tag + "takes %d cycles, want %d" % (c.cycles, w["cycles"])
        for n, v in zip("axys", regs):
            if getattr(c, n) != w.get(n, v) and n not in w.get("free", ""):
                return tag + "leaves %02x in %s, want %02x" % (getattr(c, n), n.upper(), w.get(n, v))
        if (c.p ^ p0) & ~w.get("flags", 0) or c.p & w.get("flags_off", 0) or ~c.p & w.get("flags_on", 0):
            return tag + "leaves flags %02x" % c.p
        if "writes" in w and [list(x) for x in c.writes] != w["writes"]:
            return tag + "writes %s, want %s" % (c.writes[:9], w["writes"])
        if w.get("clear") and any(mem.b[:256]):
            return tag + "leaves memory that is not 0"
        if "vsync" in w:
            # three lines with the signal on, switched at line starts
            vs, ws = w["vsync"]
            seq = [(ad, v >> 1 & 1) if ad == vs else (ad, 0) for ad, v in c.writes]
            if seq != [(ws, 0), (vs, 1)] * 3 + [(ws, 0), (vs, 0)]:
                return tag + "writes %s" % c.writes[:12]


def x_status(o, want, prev):
    if not 0 <= o.exit < 64:
        return "irregular exit status %d" % o.exit


CHECKS = {k[2:]: v for k, v in globals().items() if k.startswith("x_")}


def judge(case, bins, sdir, clean):
    """-> None if everything is as expected, else a description."""
    clean()
    put(case["files"])
    prev = []
    for n, run in enumerate(case["runs"]):
        if run.get("pre"):
            put(run["pre"])
        args = [a.replace("@machines@", os.path.join(build.REPO, "machines")) for a in run["args"]]
        o = spawn(bins[run.get("tool", "dasm")], args, sdir)
        tag = "run %d (%s): " % (n, " ".join([run.get("tool", "dasm")] + run["args"]))
        if o.hang:
            return tag + "does not terminate"
        if o.sig:
            return tag + "killed by signal %d" % o.sig
        prev.append(
            {
                "exit": o.exit, "stdout": o.stdout,
                "files": {f: get(f) for f in run.get("keep", ())},
            }
        )
        for key, want in run.get("expect", {}).items():
            r = CHECKS[key](o, want, prev)
            if r:
                return tag + r
    return None
