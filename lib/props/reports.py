"""Listing, symbol dump, diagnostics and exit status (C23-C26)."""
import re

from ..gen import Case, Skip
from ..proggen import P, DEFAULT
from ..refasm import strip_comment, ExprSyntax
from .util import *


def squeeze(s):
    return " ".join(s.split())


def shown_text(e):
    """("src"|"flat", text) a listing line has to show for a source line, None where the text is rearranged."""
    raw, ln = e["raw"], e["ln"]
    if raw is None or ln.dyn or "^" in raw or "{" in raw:
        return None
    code, comment = strip_comment(raw)
    code = code.replace("\x80", " ").replace("\t", " ")
    if code.lstrip().startswith("#") or code.startswith("*"):
        return None
    k = "src"
    m = re.match(r"[^ :=,]*:", code)
    if m:
        code = code[: m.end() - 1] + " " + code[m.end() :]
    if "=" in code:
        k = "flat"
    if comment and e["fkind"] == "file":
        code += " ;" + comment
    code = squeeze(code).rstrip(" ;")
    return k, (code if k == "src" else code.replace(" ", ""))


def list_entries(res):
    out, on, nolist = [], True, set()
    for e in res.listing:
        if "enter" in e:
            out.append({"k": "file", "name": e["enter"], "level": e["level"]})
            continue
        if "leave" in e:
            out.append({"k": "file", "name": e["leave"]})
            continue
        if "echo" in e:
            out.append({"k": "text", "text": e["echo"]})
        fr = e["frame"]
        m = e["ln"].mnem
        if m == "mexit" and fr["kind"] == "macro" and not e["skipped"]:
            fr = fr["parent"]
        if "list" in e:
            a = e["list"]
            if a.startswith("localof"):
                nolist.add(id(fr))
            elif a.startswith("localon"):
                nolist.discard(id(fr))
            else:
                on = not a.startswith("of")
        if not on:
            continue
        opt = False
        if id(fr) in nolist:
            if "call" not in e:
                continue
            opt = True
        d = {"k": "line"}
        if opt:
            d["opt"] = True
        if "call" not in e and m not in ("mexit", "end") and not e.get("loop"):
            d["no"] = e["line"]
        if e["addr"] is not None and e["known"]:
            d["addr"], d["bss"] = e["addr"] & 0xFFFFFFFFFFFFFFFF, e["bss"]
        data = e["data"]
        if "equ" in e:
            s = res.symbols.get(e["name"])
            data = e["equ"] if s is not None and s.refd else None
        if m == "incbin":
            data = b""
        if data is not None and len(data) < 4096:
            d["bytes"] = data[:4].hex()
            d["mark"] = "*" if len(data) > 4 else "-" if e["skipped"] else " "
        if m not in ("mac", "macro", "endm", "byte", "word", "long", "db", "dw", "dd"):
            t = shown_text(e)
            if t:
                d[t[0]] = t[1]
        out.append(d)
    return out


def list_expect(res):
    if res.warnings or res.loose:
        return {}
    return {"list": {"file": "o.lst", "entries": list_entries(res), "exact": True, "text": True}}


def listed(**kw):
    def gen(g):
        p = P(g, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        return list_case(g, files, p.fmt)

    return gen


def list_case(g, files, fmt):
    every = g.chance(15)
    if every:
        g.tag("all passes")

    def more(res):
        e = list_expect(res)
        if every and e:
            e["list"]["every"] = True
        return e

    name = g.pick(["o.lst", "o.lst", "./o.lst", "list.txt"])

    def named(res):
        e = more(res)
        if e:
            e["list"]["file"] = name.replace("./", "")
            g.tag("listing compared")
        return e

    c = simple_case(g, files, fmt, extra=[("-L" if every else "-l") + name], more_expect=named)
    c.nontrivial = c.nontrivial and "list" in c.data["runs"][0]["expect"]
    return c


WORDS = ["note", "x", "tail  of  line", "a;b", "'", '"', "tab\there", "{1}", "/", "*", "long " * 12, "0 1000  a9 05", "\xe9\xff",
         "$1234", "", " ", "=", "- - -"]


def comment(g):
    return "" if g.chance(45) else g.pick([";", " ;", "\t; ", "  ;;"]) + g.pick(WORDS)


def lines_(g):
    """Lines of every shape: byte counts around the four shown, long names, comments, tabs, marks and addresses."""
    cpu = g.pick(CPUS)
    res = "res" if cpu == "f8" else "ds"
    out = head(g, cpu)
    out.append(" org %s" % num(g, g.pick([0, 5, 0x10, 0xFF0, 0x1000, 0xFFF0, 0x12345, 0x8F000])))
    files = {}
    depth, n, bss = [], 0, False
    for _ in range(g.int(3, 16)):
        lab = ""
        if g.chance(40) and "repeat" not in depth:
            n += 1
            lab = g.pick(["a%d", "label_%d", "a_rather_long_label_%d", "Exactly10_%d", "x%d"]) % n
            if g.chance(15):
                lab += ":"
        sep = g.pick([" ", " ", "\t", "   ", "\t\t"])
        k = g.weighted([(30, "dc"), (8, "str"), (6, "ds"), (6, "equ"), (3, "set"), (10, "list"), (5, "blank"),
                        (5, "seg"), (8, "if"), (4, "else"), (8, "end"), (4, "repeat"), (3, "inc"), (3, "mac"),
                        (3, "rorg"), (2, "hex"), (3, "echo"), (2, "align"), (2, "incbin"), (3, "block")])
        if k == "block" and not depth:
            files["blk"] = ""
            out += g.pick([["/* one", " two */"], [" /* x */ dc.b 1"], ["; /*"], [" dc.b 2 /* y */"], ["/*", " dc.b 9", "*/"]])
            continue
        if k == "dc":
            w, top = g.pick([("b", 255), ("w", 65535), ("l", 0x7FFFFFFF), ("", 255), ("B", 255)])
            vals = [g.pick([0, 1, top, g.int(0, top), -1]) for _ in range(g.pick([1, 1, 2, 3, 4, 5, 5, 9]))]
            t = "%s%s%s%s%s%s" % (lab, sep, g.pick(["dc", "DC", "dc"] + [".dc"] * (not w)), "." + w if w else "", g.pick([" ", "\t", "  "]),
                                ",".join(num(g, v) for v in vals))
        elif k == "str":
            t = "%s%sdc.b%s\"%s\"" % (lab, sep, sep, g.pick(["a", "ab  cd", "abcde", "; no", "x;y  z", "'", "a b c"]))
        elif k == "ds":
            t = "%s%s%s%s %d%s" % (lab, sep, res, g.pick(["", ".b", ".w", ".l"]), g.pick([0, 1, 2, 3, 4, 5, 7, 300, 1023]),
                                 g.pick(["", ",%d" % g.int(0, 255)]) if not bss else "")
        elif k == "equ":
            n += 1
            t = "e%d%s%s %s" % (n, sep, g.pick(["equ", "EQU", "="]), num(g, g.pick([0, 1, 255, 256, 0xFFFF, 0x10000, 0x12345678, -1])))
            if "repeat" not in depth:
                out.append(t + comment(g))
                depth.append("if")
                t = " if e%d == e%d" % (n, n)
        elif k == "set":
            n += 1
            t = "s%d%sset %d" % (n, sep, g.int(0, 70000))
        elif k == "list":
            t = "%s%s%s %s" % (lab, sep, g.pick(["list", "LIST", ".list"]),
                               g.pick(["on", "off", "localoff", "localon", "OFF", "ON", "LOCALOFF", "LOCALON"]))
        elif k == "blank":
            t = lab or g.pick(["", " ", "\t"])
        elif k == "seg":
            if depth:
                continue
            bss = not bss
            t = " seg.u vars" if bss else " seg code"
            out.append(t + comment(g))
            if bss and "vars" not in files:
                files["vars"] = ""
                out.append(" org %d" % g.pick([0x80, 0x200]))
            elif not bss and "code" not in files:
                files["code"] = ""
                out.append(" org %s" % num(g, 0x9F000))
            continue
        elif k == "if":
            depth.append("if")
            t = "%s%s%s %s" % (lab, sep, g.pick(["if", "IF", ".if"]), g.pick(["0", "1", "2>1", "1-1"]))
        elif k == "else":
            if not depth or depth[-1] != "if":
                continue
            depth[-1] = "else"
            t = "%s%selse" % (lab, sep)
        elif k == "end":
            if not depth:
                continue
            d = depth.pop()
            t = " repend" if d == "repeat" else "%s%s%s" % (lab, sep, g.pick(["endif", "eif", "ENDIF"]))
        elif k == "repeat":
            if any(d == "repeat" for d in depth):
                continue
            depth.append("repeat")
            t = " repeat %d" % g.pick([0, 1, 2, 3])
            out.append(t)
            continue
        elif k == "inc":
            f = "inc%d.asm" % len(files)
            files[f] = "\n".join(g.pick([" dc.b 1,2,3,4,5", " list localoff", " list off", "", " dc.b 7 ; seven", " list localon",
                                        " list on", " if 0\n dc.b 6\n endif", "; only"]) for _ in range(g.int(1, 5))) + "\n"
            t = " include \"%s\"" % f
        elif k == "mac":
            if depth:
                continue
            m = "m%d" % len(files)
            files[m] = ""
            out.append(" %s %s%s" % (g.pick(["mac", "MAC", "macro"]), m, comment(g)))
            for _ in range(g.int(0, 3)):
                out.append(g.pick([" dc.b {1},2,3,4,5", " list localoff", " dc.w 77", " list off", ".l dc.w .l", "", " mexit"]) + comment(g))
            out.append(" endm" + comment(g))
            for _ in range(g.int(0, 2)):
                out.append("%s%s%s 9,8" % (lab if _ == 0 else "", sep, m) + comment(g))
            continue
        elif k == "rorg":
            if depth:
                continue
            out.append(" rorg %s%s" % (num(g, g.pick([0, 0x100, 0x8000, 0xF000])), comment(g)))
            out.append("r%d dc.w r%d" % (n + 50, n + 50))
            n += 51
            t = " rend"
        elif k == "hex":
            t = "%s%shex %s" % (lab, sep, g.pick(["01", "0102 03", "0102030405", "ff 00 ff 00 ff"]))
        elif k == "echo":
            t = " echo %s" % g.pick(['"text"', "5", '"a",6', '"1 2"'])
        elif k == "align":
            t = "%s%salign %d" % (lab, sep, g.pick([1, 2, 4, 16]))
        elif k == "incbin":
            files["d.bin"] = "binary"
            t = "%s%sincbin \"d.bin\"" % (lab, sep)
        else:
            continue
        out.append(t + comment(g))
    for d in reversed(depth):
        out.append(" repend" if d == "repeat" else " endif")
    out += [" dc.b %d" % g.int(0, 255)] * g.chance(50)
    files = {k: v for k, v in files.items() if "." in k}
    files["main.asm"] = "\n".join(out) + "\n"
    return list_case(g, files, 2)


add("C23", "the program assembles and its list file is compared line by line with the expected one", 6000, 24000,
    [(5, "lines", lines_),
     (3, "switches", listed(weights=only(lst=40, include=14, macro=14, repeat=10, cond=14, seg=8, data=20, ds=8))),
     (2, "whole", listed())])


# ---------------------------------------------------------------- C24: symbol dump
STEMS = ["a", "ab", "abc", "Zed", "zed", "ZED", "mid", "x", "X", "_u", "label", "Label", "LABEL", "q_q", "n1", "n10", "n2", "N2",
         "a_name_of_exactly_24_chr", "a_name_of_more_than_twenty_four_characters", "A_NAME_OF_MORE_THAN_TWENTY_FOUR_CHARACTERS"]


def names(g, n):
    out = []
    for i in range(n):
        s = g.pick(STEMS)
        if g.chance(40):
            s += g.pick(["", "_", "A", "z", "0", "9", "_b", "Q"]) + str(g.int(0, 30))
        if g.chance(4):
            s = s + "x" * g.pick([30, 100, 300])
        if s not in out and s.lower() not in RESERVED:
            out.append(s)
    return out


RESERVED = {"a", "x", "y", "s", "i", "d", "j", "h", "k", "q", "w"}
VALUES = [0, 0, 1, 2, 15, 16, 127, 128, 255, 256, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x12345, 0x7FFFFFFF,
          -1, -2, -128, -65536, -0x7FFFFFFF]


def table(g):
    """Symbol tables of every kind of symbol, with a sort mode."""
    cpu = g.pick(CPUS)
    res = "res" if cpu == "f8" else "ds"
    out = head(g, cpu, g.pick([0, 0x80, 0x1000, 0xFFF0, 0x12340]))
    ns = names(g, g.int(1, 24))
    again, known = [], []
    for n in ns:
        k = g.weighted([(30, "label"), (25, "equ"), (12, "set"), (6, "setstr"), (6, "eqm"), (8, "same"), (5, "expr"), (4, "string")])
        if g.chance(15):
            out.append(" dc.%s %s" % (g.pick("bwl") if k not in ("setstr", "string") else "b",
                                      ("<" if g.chance(50) and k not in ("setstr", "string") else "") + n)
                       if k not in ("setstr", "string", "eqm") else " dc.b 1")
            if out[-1].startswith(" dc.b") and "<" not in out[-1] and out[-1] != " dc.b 1":
                out[-1] = " dc.l " + n
        if k == "label":
            out.append(n + g.pick(["", "", ":", " dc.b 1", " %s %d" % (res, g.int(1, 300)), " dc.w 5", " org .+%d" % g.int(0, 40)]))
        elif k == "equ":
            out.append("%s %s %s" % (n, g.pick(["equ", "=", "EQU"]), num(g, g.pick(VALUES))))
        elif k == "set":
            for _ in range(g.int(1, 3)):
                out.append("%s set %s" % (n, num(g, g.pick(VALUES))))
        elif k == "setstr":
            out.append("%s setstr %s" % (n, g.pick(["text", "A", "two_words", "x1"])))
        elif k == "eqm":
            out.append("%s eqm %s" % (n, g.pick(["1+2", "5", "*", "[1+2]*3"])))
        elif k == "same" and known:
            out.append("%s = %s" % (n, g.pick(known)))
        elif k == "expr" and known:
            out.append("%s = %s+%d" % (n, g.pick(known), g.int(0, 9)))
        elif k == "string":
            out.append('%s = "%s"' % (n, g.pick(["s", "str", "a b", "x;y"])))
            continue
        else:
            out.append(n)
        if k in ("set", "setstr", "eqm"):
            again.append((n, k))
        if k in ("label", "equ", "set"):
            known.append(n)
        if g.chance(25) and known:
            out.append(" dc.l " + g.pick(known))
    if again and g.chance(50):
        # new values leave a symbol where it is in the order
        for n, k in g.sample(again, min(len(again), 3)):
            out.append("%s %s" % (n, "set %s" % num(g, g.pick(VALUES)) if k == "set" else "eqm 7" if k == "eqm" else "setstr again"))
        g.tag("defined again")
    if g.chance(20):
        out.append(g.pick([".loc", "1$", ".A", "99$"]))
    out.append(" dc.b 0")
    sort = g.int(0, 2)
    g.tag("sort %d" % sort)
    return out, sort


def sort_args(g, sort):
    if sort == 0 and g.chance(40):
        return []
    return [g.pick(["-T%d", "-T%d", "/T%d"]) % sort]


def tables(g):
    out, sort = table(g)
    extra = ["-so.sym"] + sort_args(g, sort)
    defs = []
    if g.chance(20):
        n = g.pick(["cmd1", "Cmd2", "zz_cmd"])
        defs = [(g.pick("DDM"), g.pick([n, n + "=5", n + "=$1234", n + "=1+2"]))]
        if defs[0][0] == "M" and "=" not in defs[0][1]:
            defs = [("M", n + "=7")]
        g.tag("command line symbol")
    return finish(g, out, fmt=2, extra=extra, defs=defs, more_expect=sym_expect(sort, refs=True))


def failed(g):
    """The symbol file of an assembly that fails because of its last statement."""
    out, sort = table(g)
    src = "\n".join(out) + "\n"
    fmt = g.pick([1, 2, 3])
    res = ref_run({"main.asm": src}, "main.asm", 2)
    if not res.ok:
        raise Skip("meant to be valid")
    unk = ["nowhere", None, "unk", None]
    bad = g.pick([" dc.b nowhere", " no_mnemonic 1", ' include "nofile"', " if nowhere\n endif"]
                 if res.passes < 3 else [" no_mnemonic 1", " no_mnemonic2"])
    ent = sym_entries(res)
    e = {"file": "o.sym", "entries": ent, "exact": False, "sort": sort}
    exp = {"exit": "nz", "sym": e, "exists": ["o.sym"]}
    g.tag("failed", "rejected")
    c = Case({"main.asm": src + bad + "\n"},
             [{"tool": "dasm", "args": ["main.asm", "-f2", "-oo.bin", "-so.sym", "-T%d" % sort] + pass_args(res), "expect": exp}])
    c.nontrivial = len(ent) > 1
    return c


def dumped(**kw):
    def gen(g):
        p = P(g, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        sort = g.int(0, 2)
        g.tag("sort %d" % sort)
        return simple_case(g, files, p.fmt, extra=["-so.sym"] + sort_args(g, sort), more_expect=sym_expect(sort, refs=True))

    return gen


add("C24", "the program assembles (or fails as meant) and its symbol file is compared with the expected symbols", 6500, 26000,
    [(5, "tables", tables), (1, "failed", failed),
     (2, "symbols", dumped(weights=only(equ=25, set=20, eqm=8, label=15, local=12, dollar=8, dyn=8, setstr=8, macro=8, sub=6))),
     (2, "whole", dumped())])


# ---------------------------------------------------------------- C25: diagnostics
TEXT = [
    (r"unknown mnemonic (\S+)", r"Unknown Mnemonic '%s'\."), ("division by zero", r"Division by zero\."),
    ("ERR", r"ERR pseudo-op encountered\."), ("addressing mode", r"Illegal Addressing mode '.*'\."),
    ("forced mode", r"Illegal forced Addressing mode on '.*'\."), ("branch out of range", r"Branch out of range \(-?\d+ bytes\)\."),
    ("repeat", r"REPEAT parameter < 0 \(ignored\)\."), ("EQU mismatch", r"EQU: Value mismatch\."), ("label .* twice", r"Label mismatch\.\.\."), ("file missing", r"Unable to open file\."),
    ("no such file", r"Unable to open file\."),
    ("processor not supported", r"Processor '.*' not supported\."), ("only one processor", r"Only one processor type may be selected\."),
    ("value must be <100", r"Value in '.*' must be <\$100\."), ("origin goes backwards", r"Origin Reverse-indexed\."),
    ("premature end of file", r"Premature EOF\."), ("not enough arguments", r"Not enough arguments\."),
    ("macro recursion", r"Recursion too deep in .*"), ("macro argument missing", r"Not enough args passed to Macro\."),
    ("hex digit", r"Syntax Error 'Bad Hex Digit .'\."), ("spurious comment close", r"Multi-line comment closed without open\."),
    ("syntax: unterminated string", None), ("syntax.*", r"(Syntax Error '.*'|Illegal character '.*'|Unbalanced Braces \[\])\."),
]


def text_of(why):
    for a, b in TEXT:
        m = re.fullmatch(a, why)
        if m:
            return b % re.escape(m[1]) if b and "%s" in b else b
    return None


def diag_expect(g, c, e, listing=None):
    """Adds the expected messages to a case judged by the reference."""
    res = c.res
    exp = c.data["runs"][0]["expect"]
    if res.ok:
        exp["echo"] = res.echo
        return c
    at = []
    for why, where in res.errors:
        if where is None:
            return c
        at.append([where[0], where[1], text_of(why)])
    if res.reason.startswith("unresolvable") and not res.errors:
        g.tag("no message")
    exp["diag"] = {"format": e, "at": at}
    more = [list(where[:2]) for why, where in res.errors if "comment close" in why or "unterminated" in why]
    if more:
        exp["diag"]["more"] = more
    if res.backwards or res.passes > 2:
        del exp["diag"]
    elif "label moved" in res.reason:
        exp["diag"]["some"] = True  # the other definition of the label is reported as well
    elif res.reason.startswith("abort"):
        # messages about values that are open in the pass that was cut short may come first
        exp["diag"].update({"at": at[-1:], "some": True, "last": True})
    return c


def fault(g, cpu):
    """A statement that is wrong wherever it is assembled."""
    pool = [[" no_mnem%d 5" % g.int(1, 99)], [" err"], [" dc.b 7/0"], [' include "gone.h"'], [" processor z80"],
            ["dupe_sym equ 1", "dupe_sym equ 2"], ["dupe_lab dc.b 1", "dupe_lab dc.b 2"], [" dc.b 1 2"], [' incbin "gone.bin"'],
            [" processor " + ("6502" if cpu != "6502" else "f8")], [" org 0"], ["lab_%d badop" % g.int(1, 99)],
            [" hex 0%c" % g.pick("gG-")], [" */"], [" echo \"open"]]
    if cpu != "f8":
        imm = [m for m, md in PAIRS[cpu] if md == "IMM8"]
        rel = [m for m, md in PAIRS[cpu] if md == "REL"]
        pool += [[" %s #$1ff" % g.pick(imm)], [" %s .+1000" % g.pick(rel)], [" nop 5"], [" nop #1"], [" %s.r #1" % g.pick(imm)]]
    else:
        pool += [[" li $1ff"], [" br .+1000"]]
    return g.pick(pool)


def faults(g):
    p = P(g, weights=only(macro=14, repeat=10, include=14, cond=14, echo=10), size=(2, 22))
    p.sure_loops = g.chance(90)
    p.generate()
    g.tag("cpu " + p.cpu)
    files = dict(p.files)
    files["main.asm"] = p.source()
    texts = [n for n, t in files.items() if isinstance(t, str) and n.endswith(".asm")]
    for _ in range(g.pick([1, 1, 1, 2])):
        n = g.pick(texts + ["main.asm"])
        lines = files[n].split("\n")[:-1]
        at = g.int(2 if n == "main.asm" else 0, len(lines))
        if n == "main.asm" and at < 2:
            at = len(lines)
        lines[at:at] = fault(g, p.cpu)
        files[n] = "\n".join(lines) + "\n"
    return diag_case(g, files, p.fmt, True)


def diag_case(g, files, fmt, faulty=False):
    e = g.int(0, 2)
    g.tag("error format %d" % e)
    extra = ["-E%d" % e] if e or g.chance(50) else []
    if g.chance(20):
        extra.append("-lo.lst")
    c = simple_case(g, files, fmt, extra=extra, passes=False)
    if c.res.loose and (faulty or not c.res.ok):
        raise Skip("loop of unknown count")  # the program may run into the fault in an earlier pass
    if not c.res.ok and c.res.passes > 6:
        raise Skip("too many passes")
    return diag_expect(g, c, e)


def placed(g):
    """One fault at a known place: file depth, macro, loop, conditional."""
    cpu = g.pick(CPUS)
    body = ([" echo \"before\""] if g.chance(20) else []) + [" dc.b %d" % g.int(0, 9)] * g.int(0, 4) + fault(g, cpu)
    files = {}
    pre = head(g, cpu, 0x1000)
    for level in range(g.int(0, 4)):
        k = g.int(0, 5)
        pad = [g.pick(["", "; c", " dc.b 1", "l%d_%d" % (level, i)]) for i in range(g.int(0, 3))]
        after = [" dc.b 2"] * g.int(0, 2)
        if k == 0:
            n = g.pick(["inc%d.asm", "a%d.i", "name_longer_than_ten%d.asm"]) % level
            files[n] = "\n".join(pad + body + after) + "\n"
            body = [' include "%s"' % n]
        elif k == 1 and not any("mac" in l or "endm" in l for l in body):
            body = pad + [" mac m%d" % level] + body + [" endm"] + [" dc.b 3"] * g.int(0, 2) + [" m%d" % level] + after
        elif k == 2:
            body = pad + [" if %d" % g.pick([1, 1, 1, 0])] + body + g.pick([[" endif"], [" else", " dc.b 9", " endif"]])
        elif k == 3 and not any(re.match(r" mac|l\d|dupe|lab_", l) for l in body) and not any(
                re.search(r"^(l\d|dupe|lab_| mac)", t, re.M) for t in files.values()):
            body = [" repeat %d" % g.int(1, 3)] + body + [" repend"]
        else:
            body = pad + body + after
    files["main.asm"] = "\n".join(pre + body + [" dc.b 5"]) + "\n"
    return diag_case(g, files, g.pick([1, 2, 3]))


def echoes(g):
    p = P(g, weights=only(echo=45, macro=12, repeat=12, include=8, cond=10, equ=10, label=10, set=10), size=(2, 20)).generate()
    g.tag("cpu " + p.cpu)
    files = dict(p.files)
    files["main.asm"] = p.source()
    return diag_case(g, files, p.fmt)


add("C25", "a message is expected at a known file and line, or ECHO output is compared", 6000, 24000,
    [(4, "placed", placed), (4, "faults", faults), (3, "echoes", echoes)])


# ---------------------------------------------------------------- C26: exit status, limits, -R
def outcome(res, name="o.bin", remove=False):
    """What one run has to show for a program judged by the reference."""
    if res.ok:
        return {"exit": 0, "out": {"file": name, "hex": res.image.hex()}, "has_line": [r"Complete\. \(0\)"]}
    exp = {"exit": "nz", "hasnt": ["Complete. (0)"]}
    exp["gone" if remove else "exists"] = [name]
    return exp


def exits(**kw):
    """Programs with and without faults, with and without -R."""
    def gen(g):
        faulty = g.chance(65)
        p = P(g, **kw)
        p.sure_loops = faulty and g.chance(90)
        p.generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        if faulty:
            lines = files["main.asm"].split("\n")[:-1]
            at = g.int(2, max(2, len(lines)))
            bad = g.weighted([(6, "fault"), (1, "unknown"), (1, "comment"), (1, "endm"), (1, "endif")])
            if bad == "fault":
                lines[at:at] = fault(g, p.cpu)
            elif bad == "unknown":
                lines[at:at] = g.pick([[" dc.b nowhere"], [" ds nowhere_%d" % g.int(0, 9)] if p.cpu != "f8" else [" res nowhere"],
                                       [" if nowhere", " endif"], ["here = nowhere", " dc.w here"], [" repeat nowhere", " repend"],
                                       [" org nowhere"], [" align nowhere"]])
            files["main.asm"] = "\n".join(lines) + "\n"
            if bad in ("comment", "endm"):
                end = g.pick(["/* open", " dc.b 1 /* open"]) if bad == "comment" else " mac never\n dc.b 1"
                c = simple_case(g, files, p.fmt)
                if not c.res.ok or re.search(r"^\s+[.#]?end\b", files["main.asm"], re.M | re.I):
                    raise Skip("meant to be valid")
                g.tag(bad)
                files["main.asm"] += end + "\n"
                runs = [{"tool": "dasm", "args": ["main.asm", "-f%d" % p.fmt, "-oo.bin"] + pass_args(c.res) + r,
                         "expect": {"exit": "nz", "hasnt": ["Complete. (0)"], **({"gone": ["o.bin"]} if r else {})}} for r in ([], ["-R"])]
                c = Case(files, runs)
                c.nontrivial = True
                return c
        c = simple_case(g, files, p.fmt, passes=False)
        res = c.res
        if res.passes > 8 or (res.loose and (faulty or not res.ok)):
            raise Skip("too many passes")
        base = ["main.asm", "-f%d" % p.fmt]
        ps = pass_args(res)
        rm = g.pick([["-R"], ["-R"], ["/R"], ["-Rx"]])
        extra = g.pick([[], [], ["-lo.lst"], ["-so.sym"], ["-v1"], ["-E2"], ["-E1"]])
        c.data["runs"] = [{"tool": "dasm", "args": base + g.pick([["-oo.bin"] + rm, rm + ["-oo.bin"]]) + ps + extra, "expect": outcome(res, remove=True)},
                          {"tool": "dasm", "args": base + ["-oo2.bin"] + ps, "expect": outcome(res, "o2.bin")}]
        if g.chance(20):
            c.data["runs"].append({"tool": "dasm", "args": base + rm + ps, "expect": outcome(res, "a.out", True)})
        if g.chance(30):
            # an output of an earlier run is there already
            c.data["files"]["o.bin"] = {"hex": "00" * g.pick([1, 300, 70000])} if res.ok else {"hex": "aa"}
        c.nontrivial = True
        return c

    return gen


def passes(g):
    """Exact number of passes: n are enough, n-1 are not."""
    cpu = g.pick(CPUS)
    out = head(g, cpu, g.pick([0, 0x1000]))
    n = g.weighted([(6, g.int(1, 9)), (3, g.int(8, 12)), (2, g.int(10, 40))])
    fwd = ["s%d = s%d%s" % (i, i + 1, g.pick(["", "+1", "-1", "*1"])) for i in range(n)]
    out += [" dc.w s0"] * g.chance(50) + fwd + ["s%d = %d" % (n, g.int(0, 200))] + [" dc.w s0"] * g.chance(70) + [" dc.b 1"]
    return limited(g, {"main.asm": "\n".join(out) + "\n"}, g.int(1, 3))


def limited(g, files, fmt):
    c = simple_case(g, files, fmt, passes=False)
    res = c.res
    if not res.ok:
        raise Skip("meant to be valid")
    n = res.passes
    g.tag("passes %s" % (n if n < 12 else "12+"))
    base = ["main.asm", "-f%d" % fmt]
    ok, no = outcome(res), {"exit": "nz", "hasnt": ["Complete. (0)"]}
    runs = [{"tool": "dasm", "args": base + ["-oo.bin", "-P%d" % n], "expect": ok},
            {"tool": "dasm", "args": base + ["-ox.bin", "-P%d" % (n - 1), "-R"], "expect": {**no, "gone": ["x.bin"]}},
            {"tool": "dasm", "args": base + ["-oy.bin", "-p%d" % (n - 1)], "expect": no},
            {"tool": "dasm", "args": base + ["-oo.bin", "-P%d" % (n + g.int(1, 30))], "expect": ok}]
    if n <= 10:
        runs.append({"tool": "dasm", "args": base + ["-oo.bin", "-P10"], "expect": ok})
    else:
        runs.append({"tool": "dasm", "args": base + ["-oz.bin", "-R"], "expect": {**no, "gone": ["z.bin"]}})
    if n == 1:
        runs[1:3] = []
    if n <= 2:
        runs.append({"tool": "dasm", "args": base + ["-oo.bin", "-p%d" % n], "expect": ok})
    c.data["runs"] = runs
    c.nontrivial = n > 1
    return c


def default_passes(g):
    """Chains that come nearer to their end in every pass: ten passes are made without being asked."""
    cpu = g.pick(CPUS)
    out = head(g, cpu, g.pick([0, 0x1000]))
    n = g.pick([g.int(2, 12), 7, 8, 9, 10])
    uses = ["s%d" % i for i in range(n)]
    lines = ["s%d = s%d+1" % (i, i + 1) for i in range(n)]
    size = g.pick("bwl")
    out += [" dc.%s %s" % (size, u) for u in uses] if g.chance(50) else [" dc.%s %s" % (size, ",".join(uses))]
    out += lines + ["s%d = %d" % (n, g.int(0, 200))] + [" dc.b 1"]
    fmt = g.int(1, 3)
    c = simple_case(g, {"main.asm": "\n".join(out) + "\n"}, fmt, passes=False)
    if not c.res.ok:
        raise Skip("meant to be valid")
    k = c.res.passes
    g.tag("default passes %d" % k)
    base = ["main.asm", "-f%d" % fmt, "-R"]
    no = {"exit": "nz", "hasnt": ["Complete. (0)"], "gone": ["o.bin"]}
    runs = [{"tool": "dasm", "args": base + ["-oo.bin"], "expect": outcome(c.res) if k <= 10 else no}]
    for m in {k, k - 1, g.int(1, 15)}:
        if m:
            runs.append({"tool": "dasm", "args": base + ["-oo.bin", "-p%d" % m], "expect": outcome(c.res) if m >= k else no})
    c.data["runs"] = runs
    c.nontrivial = True
    return c


def whole_passes(g):
    p = P(g, weights=only(repeat=8, cond=12, org=8, equ=20, align=8, macro=6), forward=70, size=(3, 18)).generate()
    files = dict(p.files)
    files["main.asm"] = p.source()
    c = simple_case(g, files, p.fmt, passes=False)
    if not c.res.ok:
        raise Skip("meant to be valid")
    base = ["main.asm", "-f%d" % p.fmt, "-R"]
    c.data["runs"] = [{"tool": "dasm", "args": base + ["-oo.bin", "-P30", "-v1"], "keep": ["o.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": c.res.image.hex()}}}]
    for k in range(1, 6):
        c.data["runs"].append({"tool": "dasm", "args": base + ["-ox%d.bin" % k, "-P%d" % k],
                               "expect": {"passes": {"run": 0, "limit": k, "file": "x%d.bin" % k, "as": "o.bin"}}})
    c.nontrivial = c.res.passes > 1
    return c


def sizes(g):
    """Images and origins around the size limit."""
    cpu = g.pick(CPUS)
    res = "res" if cpu == "f8" else "ds"
    kb = g.weighted([(6, g.int(65, 72)), (2, 128), (1, 640), (3, 0)])
    lim = (kb or 640) * 1024
    near = lim + g.pick([-300, -2, -1, 0, 1, 2, 300])
    out = head(g, cpu)
    k = g.int(0, 5)
    if k == 0:
        out += [" org %s" % num(g, g.pick([0, 1000])), " %s %s" % (res, num(g, near)), " dc.b 1"]
    elif k == 1:
        out += [" org 10", " dc.b 1", " org %s" % num(g, near), " dc.b 2"]
    elif k == 2:
        out += [" org %s" % num(g, near - g.int(0, 3)), " dc.b 2,3"]
    elif k == 3:
        a = g.pick([0, 16, 4096])
        n = g.pick([64, 256, 1000])
        out += [" org %d" % a, " %s %d" % (res, near - a - n), " repeat %d" % n, " dc.b 7", " repend"] + [" dc.w 1"] * g.int(0, 2)
    elif k == 4:
        out += [" org 0", " %s 100" % res, " seg.u big", " org %d" % g.pick([0, 100]), " %s %s" % (res, num(g, near)), "z " + res + " 1"]
    else:
        out += [" org 0", " dc.b 1", " align %s" % num(g, g.pick([lim, lim // 2, 65536])), " dc.b 1", " %s %d" % (res, g.pick([0, 1, 300]))]
    fmt = g.int(1, 3)
    src = "\n".join(out) + "\n"
    g.tag("limit %d kB" % kb)
    c = simple_case(g, {"main.asm": src}, fmt, maxsize=lim, passes=False)
    if c.res.passes > 2:
        raise Skip("passes")
    r = c.data["runs"][0]
    r["args"] = ["main.asm", "-f%d" % fmt, "-oo.bin", "-R"] + (["-m%d" % kb] if kb else [])
    r["expect"] = outcome(c.res, remove=True)
    c.nontrivial = True
    g.tag("accepted" if c.res.ok else "too large")
    return c


def command(g):
    """Valid and invalid command lines for a valid program."""
    src = " processor 6502\n org $1000\n dc.b 1,2,3\n"
    files = {"main.asm": src}
    good = [["-f1"], ["-f2"], ["-f3"], ["-E0"], ["-E1"], ["-E2"], ["-T0"], ["-T1"], ["-T2"], ["-ll.lst"], ["-LL.lst"], ["-ss.sym"], ["-snodir/s.sym"],
            ["-v0"], ["-v1"], ["-d"], ["-d0"], ["-DA"], ["-DA=1"], ["-MB=2"], ["-I."], ["-Inodir"], ["-p5"], ["-P5"], ["-S"], ["-R"],
            ["-m65"], ["-m1000"]]
    bad = [["-f0"], ["-f4"], ["-f"], ["-f9"], ["-f-1"], ["-E3"], ["-E-1"], ["-E99"], ["-T3"], ["-T-1"], ["-o"], ["-l"], ["-L"], ["-s"],
           ["-m64"], ["-m0"], ["-m"], ["-m-5"], ["-z"], ["-Z1"], ["--"], ["-"], ["extra.asm"], ["-x", "y"], ["--help"], ["-q"],
           ["-onodir/o.bin"], ["-lnodir/x.lst"], ["-Lnodir/x.lst"], ["-1"], ["-F2"], ["-t1"], ["-e1"], ["main.asm"], ["f2"]]
    opts = [g.pick(good) for _ in range(g.int(0, 4))]
    kind = g.weighted([(5, "good"), (9, "bad"), (2, "source"), (1, "none")])
    g.tag("command line " + kind)
    if kind == "bad":
        b = g.pick(bad)
        opts.insert(g.int(0, len(opts)), b)
        if b[0].startswith(("-l", "-L")):
            opts = [o for o in opts if o is b or not o[0].startswith(("-l", "-L"))]
    args = [("/" + a[1:] if a.startswith("-") and len(a) > 1 and g.chance(15) else a) for o in opts for a in o]
    o = ["-oo.bin"]
    if kind == "bad" and any(a.startswith(("-onodir", "/onodir")) for a in args):
        o = []
    at = g.int(0, len(args))
    args[at:at] = o
    exp = {"exit": "nz", "hasnt": ["Complete. (0)"]}
    if kind == "good":
        fmt = [x[0] for x in opts if x[0].startswith("-f")]
        img = bytes([1, 2, 3])
        img = {"1": b"\x00\x10" + img, "2": b"\x00\x10\x03\x00" + img, "3": img}[fmt[-1][2] if fmt else "1"]
        exp = {"exit": 0, "out": {"file": "o.bin", "hex": img.hex()}}
        run = ["main.asm"] + args
    elif kind == "bad":
        run = ["main.asm"] + args
    elif kind == "source":
        run = [g.pick(["missing.asm", "nodir/x.asm", "main", "MAIN.ASM"])] + args
        if "-R" in run:
            exp["gone"] = ["o.bin"]
    else:
        run = []
        exp["has"] = ["Usage: dasm sourcefile [options]"] + ["\n-" + t for t in (
            "f#", "oname", "lname", "Lname", "sname", "v#", "d ", "Dsymbol ", "Dsymbol=", "Msymbol=", "Idir", "p#", "P#", "T#", "E#", "S ", "R ", "m#")]
    c = Case(files, [{"tool": "dasm", "args": run, "expect": exp}])
    c.nontrivial = kind != "none"
    return c


add("C26", "success or failure is decided by the reference; exit status, output file and its removal are compared", 4250, 17000,
    [(5, "exits", exits(size=(2, 20))), (3, "passes", passes), (2, "default passes", default_passes), (2, "whole passes", whole_passes), (4, "sizes", sizes), (3, "commands", command)])
