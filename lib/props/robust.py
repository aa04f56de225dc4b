"""C27 fuzzing, C28 observation options, C29 layout, C30 size."""

import re

from ..gen import Case, Skip
from ..proggen import P, ref_run
from ..refasm import strip_comment
from .reports import fault
from .util import *


# ---------------------------------------------------------------- C27: hostile inputs
WORDS = """processor org rorg rend seg seg.u subroutine dc dc.b dc.w dc.l dc.s byte word long db dw dd ds ds.b ds.w ds.l dv dv.w hex
align repeat repend if ifconst ifnconst ifdef ifndef else endif eif mac macro endm mexit include incbin incdir equ eqm set setstr setsym
err echo list end res trace lda lda.z lda.w sta jmp bne bit ldx asl nop brk bsr bclr brset bset brclr mul tst pshs lr li br bf bt dci
xppc ins outs sl sr lis lisu lisl ldd cmpd aim oim .byte .dc #dc.b = := + - * / % & | ^ ~ ! << >> < > <= >= == != && || ? [ ] ( ) , . ..
... $ # @ : ; ' " { } {1} {0} {9} {-1} {999} \\ /* */ /*/ a x y sp pc j q is 0 1 -1 255 256 65535 65536 $ff $ffff $ffffffff 0x7f 0xff
%1 %111 0377 099 'a '' "" "a" "a b" 1$ 10$ .l .. l_1 A_b 123456789012345678901234567890 $ffffffffffffffff 9223372036854775807
-9223372036854775808 <<64 >>63 %s %n %d%s on off localon localoff 6502 65c02 68hc11 6803 hd6303 68705 68hc908 68908 f8 z80
main.asm inc.asm nofile d.bin ^l ^ l: l:l lab,1 lab,"x" lab,q lab,,1 \t""".split(" ")
WORDS = [w for w in " ".join(WORDS).split()] + [" ", "\t", "  "]
ODD = ["\x80", "\xff", "\x00", "\x01", "\r", "\x1a", "\x7f", "\xa0", "\x0b", "\x0c"]


def tame(files):
    """Keeps loops, macro recursion and inclusion bounded so that every run is short."""
    order = list(files)
    out = {}
    reps = 0
    for i, n in enumerate(order):
        t = files[n]
        if not isinstance(t, str):
            out[n] = t
            continue
        lines = []
        for l in t.split("\n"):
            low = l.lower()
            if "repeat" in low:
                reps += 1
                l = re.sub(r"(?i)repeat.*", "repeat %s" % ("3" if reps < 5 else "1"), l, flags=re.S)
            if "include" in low or "incdir" in low:
                if i > 0 or any(order[j] in l for j in range(i + 1)):
                    l = ""
            lines.append(l)
        out[n] = "\n".join(lines)
    # every macro may call only macros defined before it
    names = []
    for n in order:
        if isinstance(out[n], str):
            names += [m.lower() for m in re.findall(r"(?i)\bmac(?:ro)?\.?\S*\s+(\S+)", out[n])]
    for n in order:
        if not isinstance(out[n], str) or not names:
            continue
        lines, inside, calls = [], False, 0
        for l in out[n].split("\n"):
            if re.search(r"(?i)mac", l):
                inside = True
            elif re.search(r"(?i)endm", l):
                inside = False
            elif inside and any(m in l.lower() for m in names):
                calls += 1
                if calls > 3:
                    l = ""
            lines.append(l)
        out[n] = "\n".join(lines)
    return out


def mutate(g, t):
    lines = t.split("\n")
    for _ in range(g.weighted([(5, 1), (4, 2), (3, 4), (2, 8)])):
        i = g.int(0, len(lines) - 1)
        l = lines[i]
        k = g.int(0, 13)
        at = g.int(0, len(l))
        if k == 0:
            lines[i] = l[:at] + g.pick(WORDS) + l[at:]
        elif k == 1:
            lines[i] = l[:at] + l[at + g.int(1, 4):]
        elif k == 2 and l:
            lines[i] = l[:at] + chr(g.int(32, 126)) + l[at + 1:]
        elif k == 3:
            lines.insert(g.int(0, len(lines)), l)
        elif k == 4 and len(lines) > 1:
            del lines[i]
        elif k == 5:
            j = g.int(0, len(lines) - 1)
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 6:
            w = re.split(r"(\W+)", l)
            if w:
                w[g.int(0, len(w) - 1)] = g.pick(WORDS)
            lines[i] = "".join(w)
        elif k == 7:
            lines[i] = l[:at] + g.pick(ODD) + l[at:]
        elif k == 8:
            lines[i] = l[:at] + g.pick(["a", "1", "(", "[", "-", "~", "<", "'", '"', ",", ".", " ", "1,", "a+", "{1}", "*"]) * g.pick(
                [2, 5, 20, 35, 70, 130, 260, 520, 1030]) + l[at:]
        elif k == 9:
            lines[i] = l[:at]
        elif k == 10:
            lines.insert(i, " ".join(g.pick(WORDS) for _ in range(g.int(1, 5))))
        elif k == 11:
            lines[i] = g.pick([" ", "x "]) + g.pick(WORDS) + " " + l.strip()
        elif k == 12:
            lines[i] = l + lines[g.int(0, len(lines) - 1)]
        else:
            m = re.search(r"\d+", l)
            if m:
                lines[i] = l[:m.start()] + g.pick(["0", "255", "256", "65535", "65536", "99999", "4294967295", "2147483648", "-1",
                                                  "18446744073709551616", "640000"]) + l[m.end():]
    return "\n".join(lines)


def fuzz_options(g, many=True):
    opts = ["-f1", "-f2", "-f3", "-v0", "-v1", "-v2", "-v3", "-v4", "-E0", "-E1", "-E2", "-T0", "-T1", "-T2", "-lo.lst", "-Lo.lst", "-so.sym",
            "-S", "-R", "-DA=1", "-DB", "-Dx=y", "-MC=1+2", "-Mm=l_1", "-I.", "-Id", "-p1", "-p3", "-P5", "-P20", "-m65", "-d0", "-D", "-D=",
            "-M", "-D=5", "-DA=\"s\"", "-D.x=1", "-DA=*", "-DA=5/0", "-M1=2", "-DA=[", "-I", "-p", "-P", "-d1", "-m70", "-v9", "-v-1", "-p-1",
            "-Da,b=1", "-D1$=4", "-MA=A", "-DA=A", "-D" + "n" * 300 + "=1", "-I" + "i" * 300, "-so.sym", "-lo.lst"]
    return ["-oo.bin"] + [g.pick(opts) for _ in range(g.pick([0, 1, 1, 2, 3, 5]) if many else g.int(0, 2))]


def fuzz_case(g, files, opts, main="main.asm", compare=True):
    files = tame(files)
    runs = [{"tool": "dasm_asan", "args": [main] + opts, "keep": ["o.bin", "o.sym"],
             "expect": {"exit": "any", "sane": True, "status": True}}]
    if compare and "-d1" not in opts:
        runs.append({"tool": "dasm", "args": [main] + opts, "expect": {"same_exit": 0, "same_stdout": 0, "same": [["o.bin", 0, "o.bin"], ["o.sym", 0, "o.sym"]]}})
    return Case(files, runs)


def mutants(g):
    p = P(g, style=12, size=(2, 20)).generate()
    g.tag("cpu " + p.cpu)
    files = {"main.asm": p.source()}
    files.update(p.files)
    texts = [n for n in files if isinstance(files[n], str)]
    for _ in range(g.pick([1, 1, 2])):
        n = g.pick(texts + ["main.asm"])
        files[n] = mutate(g, files[n])
    return fuzz_case(g, files, fuzz_options(g))


def soup(g):
    cpu = g.pick(CPUS)
    lines = [" processor " + cpu] * g.chance(85) + [" org " + g.pick(["0", "$80", "$1000", "65535", "99999"])] * g.chance(80)
    for _ in range(g.int(1, 14)):
        n = g.weighted([(5, 3), (4, 2), (3, 4), (2, 6), (1, 12), (1, 1)])
        glue = g.pick([" ", " ", " ", ""])
        l = glue.join(g.pick(WORDS) for _ in range(n))
        lines.append(g.pick([" ", " ", "l ", "", "m "]) + l)
    files = {"main.asm": "\n".join(lines) + "\n" * g.chance(80), "inc.asm": " dc.b 1\n", "d.bin": {"hex": "0102"}}
    if g.chance(6):
        files["main.asm"] = "".join(chr(g.int(0, 255)) for _ in range(g.int(0, 60)))
    return fuzz_case(g, files, fuzz_options(g))


def limits(g):
    """Inputs around the fixed capacities: lines, names, nesting, lists, messages."""
    cpu = g.pick(CPUS)
    H = " processor %s\n org %s\n" % (cpu, g.pick(["$1000", "0"]))
    n = g.weighted([(4, g.int(990, 1040)), (3, g.int(1, 40)), (2, g.int(120, 140)), (2, g.int(250, 262)), (2, g.int(500, 530)),
                    (1, g.int(2030, 2060)), (1, 5000)])
    few = g.weighted([(5, g.int(1, 40)), (2, g.int(60, 70)), (1, g.int(120, 135)), (1, 300)])
    c = g.pick(["a", "1", "Z", "_", ".", "x,", "$", "@"])
    kinds = [
        lambda: "%s dc.b 1\n" % (c * n), lambda: " %s 1\n" % (c * n), lambda: " dc.b %s\n" % (c * n), lambda: ' dc.b "%s"\n' % ("s" * n),
        lambda: " dc.b 1 ;%s\n" % (";" * n), lambda: "l = %s\n dc.b <l\n" % ("1+" * (n // 2) + "1"),
        lambda: " dc.b %s1%s\n" % ("[" * few, "]" * few), lambda: " dc.b %s1\n" % (g.pick("-~!<>") * few),
        lambda: " if 1\n" * few + " dc.b 1\n" + " endif\n" * g.pick([few, few - 1, few + 1]),
        lambda: " mac m\n" * few + " dc.b 1\n" + " endm\n" * g.pick([few, few - 1, 1]) + " m\n",
        lambda: " mac m\n dc.b {1}\n m {1}\n endm\n m 1\n",
        lambda: " mac m\n dc.b {%d}\n endm\n m %s\n" % (g.pick([0, 1, 9, 10, few, 99]), ",".join("1" * few)),
        lambda: " mac m\n dc.b %s\n endm\n m %s\n" % ("{1}" * few, "1" * min(n, 900)),
        lambda: " mac %s\n dc.b 1\n endm\n %s\n" % ("m" * n, "m" * n), lambda: ' include "%s"\n' % ("f" * n),
        lambda: ' incbin "%s"\n' % ("f" * n), lambda: ' incdir "%s"\n include "x"\n' % ("f" * n), lambda: ' echo "%s"\n' % ("e" * n),
        lambda: " echo %s\n" % ",".join(["1"] * (n // 2)), lambda: "l,%s dc.b 1\n" % ("1," * (n // 2)), lambda: 'l,"%s" dc.b 1\n' % ("q" * n),
        lambda: "s setstr %s\n dc.b s\n" % ("t" * n), lambda: "e eqm %s\n dc.b e\n" % ("1+" * (n // 2) + "1"),
        lambda: "e eqm e+1\n dc.b e\n", lambda: "a1 eqm b1\nb1 eqm a1\n dc.b a1\n", lambda: " hex %s\n" % ("0a" * (n // 2)),
        lambda: " seg %s\n org 5\n dc.b 1\n" % ("s" * n), lambda: " dv e %s\ne eqm ..\n" % ("1 " * few), lambda: " processor %s\n" % ("p" * n),
        lambda: " err %s\n" % ("r" * n), lambda: " lda.%s 1\n" % ("w" * n), lambda: " list %s\n" % ("l" * n),
        lambda: "%s equ 5\n%s equ 6\n" % ("k" * n, "k" * n), lambda: "%s\n dc.b 1\n%s\n" % ("d" * n, "d" * n),
        lambda: "." + "d" * n + " dc.b 1\n dc.w ." + "d" * n + "\n", lambda: "1" * few + "$ dc.b 1\n",
        lambda: " nosuch%s 5\n" % ("n" * n), lambda: " bne %s\n" % ("u" * n), lambda: " dc.b %s\n" % ("u" * n + "-1"),
        lambda: " lda (%s),y\n" % ("v" * n), lambda: " dc.b 1 /*%s*/,2\n" % ("*" * n), lambda: " dc.b '%s\n" % (c * n),
        lambda: " subroutine %s\n.x\n" % ("q" * n), lambda: "%s: subroutine\n.x dc.w .x\n" % ("q" * n),
        lambda: " repeat 2\n" * min(few, 4) + " dc.b 1\n" + " repend\n" * g.pick([few, 1, 0]),
        lambda: " rorg %s\nx dc.w x\n rend\n" % ("9" * few), lambda: " dc.b %s\n" % g.pick(["9" * few, "$" + "f" * few, "%" + "1" * few, "0" * few]),
        lambda: " setsym %s,%s\n" % ("a" * n, "b" * few), lambda: "x set 1\n dc.b x[%s\n" % ("]" * few),
        lambda: " mac m\n%s endm\n m\n" % ((" dc.b 1\n") * few), lambda: "%s = 1\n ifconst %s\n dc.b 1\n endif\n" % ("k" * n, "k" * n),
        lambda: " dc.b %s\n" % ",".join("k%d" % i for i in range(few)), lambda: " mac m\n mexit\n endm\n" + " m\n" * few,
        lambda: " mac m\n include \"inc.asm\"\n endm\n m\n", lambda: " if 0\n%s endif\n" % ("x" * n + "\n"),
    ]
    if cpu == "f8":
        kinds += [lambda: " li %s\n" % ("1+" * few + "1"), lambda: " lr %s,a\n" % (c * few), lambda: " bf %s,l\nl\n" % (c * n), lambda: " lr a\n",
                  lambda: " lr\n bf\n bt\n dci\n", lambda: " outs %s\n ins %s\n" % (c * few, c * few), lambda: " as %s\n" % ("," * few)]
    body = "".join(g.pick(kinds)() for _ in range(g.pick([1, 1, 2, 3])))
    if g.chance(25):
        body = " mac wrap\n" + body + " endm\n wrap\n"
    files = {"main.asm": H + body + " dc.b 1\n" * g.chance(50), "inc.asm": " dc.b 2\n"}
    return fuzz_case(g, files, fuzz_options(g, False))


def operands(g):
    """Every mnemonic of a processor and every directive with odd operands."""
    cpu = g.pick(CPUS)
    lines = [" processor " + cpu, " org " + g.pick(["0", "$80", "$fff0", "$1000"])]
    mn = (sorted({m for m, _ in PAIRS[cpu]}) if cpu != "f8" else
          "lr li br bf bt dci lis lisu lisl ins outs in out as asd xs ns ds inc pk pi sl sr lm st com lnk di ei pop nop xdc adc bp bc bz bm bnc bno bnz br7 jmp am amd nm xm cm ai ni oi xi ci".split())
    ops = ["", "1", "$ff", "256", "$1234", "65536", "-1", "u", "l", ".", "*", "#", "#1", "#<l", "#256", "#u", "(1)", "(1),y", "(1,x)", "1,x", "1,y", "$1234,x",
           "(", ")", "[", "]", ",", ",,", ",x", "1,", "1,2", "1,2,3", "#1,2,l", "#1,u", "a", "a,1", "1,a", "r1,a", "a,(is)", "d,i,s", "x", "1,sp", "x+", ",x+",
           "1,x+", "#1,x+,l", "sp", "'a", '"s"', "\"", "'", "{1}", "1 2", "s", "e", "<", ">", "<1", ">u", "=", "?", "1?2", "~", "!", "u,x", "u,y", "(u)", "(u),y",
           "l-200", "l+200", "7,1,l", "8,1", "0,u,l", "0,1,u", "16", "99", "-99", "1,x,y", "1,2,3,4,5,6,7,8", "@", "$", "%", "0x", "\\"]
    ext = ["", "", "", ".b", ".w", ".z", ".a", ".d", ".e", ".i", ".l", ".r", ".s", ".u", ".x", ".wx", ".by", ".bx", ".ind", ".0x", ".bi", ".bb", ".q", "."]
    dirs = "org rorg seg subroutine dc byte word long ds dv hex align if ifconst ifnconst mac include incbin incdir processor echo err list set equ eqm setstr setsym end rend res".split()
    lines += ["s setstr txt"] * g.chance(40) + ["e eqm 1+2"] * g.chance(40) + ["l"]
    for _ in range(g.int(1, 12)):
        m = g.pick(mn) if g.chance(70) else g.pick(dirs)
        lines.append(g.pick([" ", " ", "q%d " % len(lines), "l "]) + m + g.pick(ext) + " " + g.pick(ops))
    return fuzz_case(g, {"main.asm": "\n".join(lines) + "\n"}, fuzz_options(g, False))


def hexfuzz(g):
    data = bytes(g.int(0, 255) for _ in range(g.int(0, 12))) + bytes([g.int(0, 255)]) * g.pick([0, 0, 1, 15, 16, 17, 255, 256, 300])
    args = g.pick([["1", "in"], ["2", "in"], ["3", "in"], ["1", "in", "out"], ["2", "in", "out"], ["3", "in", "out"], ["2", "in", "out", "more"],
                   ["0", "in"], ["4", "in"], ["x", "in"], ["1"], [], ["2", "gone"], ["", ""], ["1", "in", "nodir/out"], ["-1", "in"], ["2x", "in"]])
    return Case({"in": {"hex": data.hex()}}, [{"tool": "ftohex_asan", "args": args, "keep": ["out"], "expect": {"exit": "any", "sane": True}},
                                             {"tool": "ftohex", "args": args, "expect": {"same_exit": 0, "same_stdout": 0, "same": [["out", 0, "out"]]}}])


def others(g):
    """Programs and options of the other checks."""
    check = CHECKS[g.pick([c for c in sorted(CHECKS) if c != "C27"] + ["C30"] * 3)]
    c = g.weighted([(w, f) for w, _, f in check.parts])(g)
    for r in c.data["runs"]:
        r["expect"] = {"exit": "any", "sane": True}
        r["tool"] = r.get("tool", "dasm") + "_asan"
    g.tag("of " + check.prop)
    return c


add("C27", "a program text or option list was given to a build with address and undefined-behaviour checks", 2750, 14000,
    [(6, "mutants", mutants), (4, "soup", soup), (5, "limits", limits), (4, "operands", operands), (1, "hexfuzz", hexfuzz), (3, "others", others)], asan=True)


# ---------------------------------------------------------------- C28: observation options
def observe(g):
    """Options that must not change the output, in any order and spelling."""
    pool = [["-l%s" % g.pick(["o.lst", "x.txt"])], ["-Lall.lst"], ["-so2.sym"], ["-T1"], ["-T2"], ["-T0"], ["-v0"], ["-v1"], ["-v2"], ["-v3"], ["-v4"],
            ["-E0"], ["-E1"], ["-E2"], ["-R"], ["-d0"], ["-d"], ["-d1"], ["-m1000"], ["-I."], ["-Inodir"]]
    out = []
    for o in g.sample(pool, g.int(1, 6)):
        out += o
    return ["/" + a[1:] if g.chance(15) else a for a in out]


def observed(**kw):
    def gen(g):
        p = P(g, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        if g.chance(20):
            lines = files["main.asm"].split("\n")[:-1]
            lines[len(lines):] = fault(g, p.cpu)
            files["main.asm"] = "\n".join(lines) + "\n"
        if g.chance(20):
            # so must the statement that shows the work on each instruction
            lines = files["main.asm"].split("\n")[:-1]
            for _ in range(g.int(1, 3)):
                lines.insert(g.int(0, len(lines)), g.pick([" trace on", " trace on", " TRACE ON", " trace off", " trace on ; show"]))
            files["main.asm"] = "\n".join(lines) + "\n"
            g.tag("trace")
        c = simple_case(g, files, p.fmt, passes=False)
        res = c.res
        base = ["-f%d" % p.fmt] + pass_args(res)
        first = c.data["runs"][0]
        first["args"] = ["main.asm", "-oo.bin", "-so.sym"] + base
        first["keep"] = ["o.bin", "o.sym"]
        for i in range(g.pick([1, 2, 2, 3])):
            obs = observe(g)
            o = "o%d.bin" % i
            if g.chance(20):
                o = g.pick(["a.out", "sub/x", "o.bin", "O.BIN", "o", "very_long_output_name_" + "n" * 60])
            e = {"same_exit": 0}
            removed = not res.ok and any(a[1] == "R" for a in obs)
            if res.ok:
                e["same"] = [[o, 0, "o.bin"]]
            if removed:
                e["gone"] = [o]
            args = obs + ([] if o == "a.out" and g.chance(60) else ["-o" + o]) + base
            sorts = [a for a in obs if a[1] == "T"]
            if g.chance(40) and not any(a[1] == "s" for a in obs):
                args.append("-so3.sym")
                if not sorts or sorts[-1][2] == "0":
                    e.setdefault("same", []).append(["o3.sym", 0, "o.sym"])
            # options stay in a random order, but the last one of a kind counts
            if len({a[1].lower() for a in args}) == len(args):
                args = g.shuffle(args)
            run = {"tool": "dasm", "args": ["main.asm"] + args, "expect": e, "keep": [o]}
            if g.chance(25):
                run["pre"] = {o: "old content " * g.pick([1, 20, 4000])}
                if res.ok:
                    run["pre"]["o3.sym"] = "old\n" * 500
            if o == "sub/x":
                run["pre"] = {"sub/y": ""}
            c.data["runs"].append(run)
        if g.chance(30):
            # the very same run again
            r = dict(c.data["runs"][-1])
            a = [x for x in r["args"] if not x[1:2] == "d" or x[2:] == "0"]
            k = len(c.data["runs"])
            c.data["runs"].append({"tool": "dasm", "args": a, "expect": {"same_exit": 0}, "keep": ["o.lst", "o2.sym", "all.lst", "o.bin"]})
            c.data["runs"].append({"tool": "dasm", "args": a, "expect": {"same_exit": 0, "same_stdout": k, "same": [
                [f, k, f] for f in ("o.lst", "o2.sym", "all.lst", "o.bin")]}})
            g.tag("repeated")
        return c

    return gen


add("C28", "the program is assembled with several option sets and the results are compared with each other and the reference", 3250, 13000,
    [(3, "whole", observed()), (1, "reports", observed(weights=only(lst=20, echo=10, seg=12, set=8, eqm=8, local=8, macro=10, include=8, repeat=8, cond=8)))])


# ---------------------------------------------------------------- C29: layout
VERBATIM = {"setstr", "include", "incbin", "incdir", "seg", "processor", "mac", "macro", "list", "subroutine", "setsym", "eqm"}


def recase(g, s):
    k = g.int(0, 3)
    return s if k == 0 else s.upper() if k == 1 else s.lower() if k == 2 else "".join(
        ch.upper() if i & 1 else ch.lower() for i, ch in enumerate(s))


def split_text(a):
    """Quoted and unquoted pieces of an operand."""
    out, i, cur = [], 0, ""
    while i < len(a):
        if a[i] == '"':
            j = a.find('"', i + 1)
            j = len(a) - 1 if j < 0 else j
        elif a[i] == "'":
            j = min(i + 1, len(a) - 1)
        else:
            cur += a[i]
            i += 1
            continue
        out.append((cur, False))
        out.append((a[i:j + 1], True))
        cur, i = "", j + 1
    out.append((cur, False))
    return out


LISTS = {"dc", "byte", "word", "long", "ds", "align", "lr", "bf", "bt", "db", "dw"}


def relayout_arg(g, mnem, a):
    base = mnem.lower().lstrip(".#").split(".")[0]
    pieces = []
    for t, quoted in split_text(a):
        if not quoted:
            t = re.sub(r" +", lambda m: g.pick([" ", "  ", "\t", " \t "]), t)
            if base == "hex":
                t = recase(g, t)
            elif base not in VERBATIM:
                t = re.sub(r"(?<![\w$.@])(\$|0x)([0-9a-fA-F]+)(?![\w$.@])", lambda m: m[1] + recase(g, m[2]), t)
                t = re.sub(r"(?<=,)([xyXY])(?=[),]|$)", lambda m: recase(g, m[1]), t)
            if base in LISTS:
                t = re.sub(",", lambda m: g.pick([",", ",", ", ", " ,", " , "]), t)
        pieces.append(t)
    return "".join(pieces)


NOTES = ["", " c", ' "open', " 'q", " dc.b 9", " 1,2 ; 3", " /", " */ x" * 0, "\ttab", " endm", " {1}", " \\"]


def relayout(g, text, rate):
    """The same text in another layout."""
    out, inmac, done = [], False, False
    lines = text.split("\n")
    last = lines.pop() if lines and lines[-1] == "" else None
    crlf = g.pick(["no", "no", "all", "some"])
    for l in lines:
        body = l
        m = None if done or l.lstrip().startswith((";", "/*")) or "*/" in l or "/*" in l or re.search("[ ,]'[ \\t]?$", l) else re.match(r"^(\S*)(\s+)(\S+)(?:\s+(.*?))?\s*$", l)
        if m is None and not done and re.match(r"^\S+$", l) and not l.startswith((";", "/")):
            m = re.match(r"^(\S*)()()()$", l)
        if m and g.chance(rate):
            lab, _, mn, arg = m[1], m[2], m[3], m[4] or ""
            base = mn.lower().split(".")[0]
            ext = mn[len(base):]
            bl = lambda: g.pick([" ", "  ", "\t", " \t", "\t\t ", "        "])  # noqa: E731
            if g.chance(6):
                blank = bl
                bl = lambda: blank() + g.pick(["/* c */", "/**/", "/* ; */", '/* " */']) + blank()  # noqa: E731
            if mn and mn != "=":
                mn = recase(g, mn)
                if not ext and g.chance(12) and base[0] != "." and not base.startswith("#"):
                    mn = "." + mn
            if lab:
                plain = "," not in lab and not lab.endswith(":")
                if plain and g.chance(15) and mn != "=":
                    lab += ":"
                if g.chance(12):
                    lab = g.pick(["^", " ^", "\t^ ", "  ^  "]) + lab
                if mn == "=" and g.chance(75):
                    body = lab + (":" if plain and g.chance(30) else "") + g.pick(["=", "=", " =", "= ", "\t=\t"]) + relayout_arg(g, mn, arg)
                else:
                    body = lab + (bl() + mn if mn else "") + (bl() + relayout_arg(g, mn, arg) if arg else "")
            else:
                body = (g.pick(["#", " #", "\t# "]) if g.chance(8) and mn[0] != "." else bl()) + mn + (bl() + relayout_arg(g, mn, arg) if arg else "")
            if g.chance(25):
                body += g.pick([" ", "\t", "   ", " \t "])
            if g.chance(25):
                body += g.pick([";", " ;", "\t;"]) + g.pick(NOTES)
            elif g.chance(8) and arg:
                body += g.pick([" /* c */", "/* ; */" if not body.endswith("*") else " /* ; */", " /* two", " /* c */ ; d"])
                if body.endswith("two"):
                    out.append(body)
                    body = g.pick(["lines */", " dc.b 99", "*/"])
                    if "*/" not in body:
                        out.append(body)
                        body = "*/"
        if m:
            low = m[3].lower()
            if low in ("mac", "macro"):
                inmac = True
            elif low == "endm":
                inmac = False
            elif low in ("end", ".end"):
                done = True
        out.append(body)
        if not done and g.chance(rate // 6):
            out.append(g.pick(["", "  ", "\t", "; only a note", " ; dc.b 5", ";\"", "\t;'"]))
            if g.chance(20):
                out += g.pick([["/* block */"], ["/*", " err", "*/"], [" /* a", "b */ ; c"], ["/* ; */"]])
    res = []
    for l in out:
        res.append(l + ("\r" if crlf == "all" or crlf == "some" and g.chance(40) else ""))
    t = "\n".join(res)
    if last is not None and not (g.chance(20) and res and res[-1].strip()):
        t += "\n"
    return t


def layouts(**kw):
    def gen(g):
        p = P(g, style=0, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        return layout_case(g, files, p.fmt)

    return gen


def layout_case(g, files, fmt):
    if g.chance(12):
        files["main.asm"] += "\n".join(fault(g, "6502" if "6502" in files["main.asm"] else "f8")) + "\n"
    c = simple_case(g, files, fmt, extra=["-so.sym"], passes=False)
    res = c.res
    args = ["main.asm", "-f%d" % fmt, "-oo.bin", "-so.sym"] + pass_args(res)
    first = c.data["runs"][0]
    first["args"] = args
    first["keep"] = ["o.bin", "o.sym"]
    for i in range(g.pick([1, 2])):
        pre = {n: relayout(g, t, g.pick([100, 50, 20])) for n, t in files.items() if isinstance(t, str)}
        e = {"exit": 0, "same": [["o.bin", 0, "o.bin"], ["o.sym", 0, "o.sym"]]} if res.ok else {"exit": "nz"}
        c.data["runs"].append({"tool": "dasm", "args": args, "pre": pre, "expect": e})
    return c


def letters(g):
    """Symbols that differ only in letter case, texts in both cases with odd characters."""
    cpu = g.pick(CPUS)
    out = head(g, cpu, g.pick([0, 0x1000]))
    stems = g.sample(["ab", "label", "x1", "loop", "Foo_b", "end1", "lda_", "org1", "q"], g.int(1, 4))
    names = []
    for s in stems:
        for v in g.sample([s.lower(), s.upper(), s.capitalize(), s[:-1].lower() + s[-1].upper()], g.int(1, 4)):
            if v not in names:
                names.append(v)
    defs = []
    for i, n in enumerate(g.shuffle(names)):
        k = g.int(0, 4)
        defs.append(["%s equ %d" % (n, 3 + 7 * i), "%s = %d" % (n, 3 + 7 * i), "%s set %d" % (n, 5 + 7 * i), "%s dc.b %d" % (n, i), "%s = %d" % (n, i)][k])
    uses = [" dc.%s %s" % (g.pick("wl"), g.pick(names)) for _ in range(g.int(1, 6))]
    texts = [' dc.b "%s"' % "".join(g.pick(list("aAbBzZ09 ;,.'*/()[]{}<>=+-#$%&!?@^_|~:\\") + ["  "]) for _ in range(g.int(1, 20)))
             for _ in range(g.int(0, 4))]
    texts += [" dc.b '%s" % g.pick(list("aAzZ09;,.*/()[]<>=+-#$%&!?@^_|~:") + ['"', "", " ", "\t", " ,1", "\t,1", "\t+1"]) for _ in range(g.int(0, 3))]
    texts += g.sample([' dc.b "/*"', ' dc.b "*/"', ' dc.b "a/*b*/;c"', ' dc.b ";" /* c */', " dc.b '; /* c */"], g.pick([0, 0, 1, 2]))
    body = g.shuffle(uses + defs + texts)
    return layout_case(g, {"main.asm": "\n".join(out + body) + "\n"}, g.int(1, 3))


add("C29", "the program is assembled in several layouts and every result compared with the first and the reference", 4250, 17000,
    [(5, "whole", layouts()), (3, "letters", letters),
     (3, "structure", layouts(weights=only(macro=14, repeat=10, cond=14, include=8, set=8, eqm=8, dyn=8, local=8, dollar=6, setstr=6, dv=4, hex=6)))])


# ---------------------------------------------------------------- C30: size
def many(g):
    """One dimension of a program made large."""
    cpu = g.pick(CPUS)
    res = "res" if cpu == "f8" else "ds"
    out = [" processor " + cpu, " org $1000"]
    files = {}
    n = g.weighted([(4, g.int(300, 1500)), (3, g.int(1500, 4000)), (3, g.int(900, 1100)), (2, g.int(4000, 9000)), (3, g.int(20, 300))])
    small = min(n, 1500)
    tail = g.pick(["", "_a", "_with_a_rather_long_tail_of_the_name"])
    kinds = ["labels", "equs", "forward", "sets", "macros", "macro lines", "calls", "segs", "echo", "errors", "scopes", "dollars", "ifs", "includes",
             "eqm", "strings", "list line", "long name", "long text", "long hex", "expression", "comments", "dyn", "incbin", "args", "nested macros", "repeat",
             "same hash", "same hash", "same hash", "defs", "ds", "hunks", "ins", "brackets"]
    k = g.pick(kinds)
    g.tag(k)
    extra, defs = ["-so.sym"], []
    sort = g.int(0, 2)
    if k == "labels":
        out += ["s%d%s dc.b %d" % (i, tail, i & 255) for i in range(n)] + [" dc.w s%d%s" % (g.int(0, n - 1), tail) for _ in range(20)]
    elif k == "equs":
        out += ["s%d%s equ %d" % (i, tail, i * 77) for i in range(n)] + [" dc.l s%d%s" % (g.int(0, n - 1), tail) for _ in range(40)]
    elif k == "forward":
        out += [" dc.w s%d%s" % (i, tail) for i in range(small)] + ["s%d%s equ %d" % (i, tail, i) for i in range(small)]
    elif k == "sets":
        out += ["v set 0"] + ["v set v+%d" % (i & 7) for i in range(n)] + [" dc.l v"]
    elif k == "macros":
        for i in range(small):
            out += [" mac m%d%s" % (i, tail), " dc.w %d,{1}" % i, " endm"]
        out += [" m%d%s %d" % (g.int(0, small - 1), tail, j) for j in range(30)]
    elif k == "macro lines":
        out += [" mac big"] + [" dc.b {1}+%d" % (i & 63) for i in range(n)] + [" endm", " big 5", " big 9"]
    elif k == "calls":
        out += [" mac one", ".l dc.w .l", " endm"] + [" one"] * n
    elif k == "segs":
        for i in range(small):
            out += [" seg g%d%s" % (i, tail), " org $%x" % (0x2000 + i * 3), " dc.b %d" % (i & 255)]
        for j in range(0, small, max(1, small // 7)):
            out += [" seg.u u%d" % j, " org %d" % j, "z%d %s 1" % (j, res)]
        n = small
    elif k == "echo":
        out += [' echo "message number %d of many",%d' % (i, i) for i in range(small)] + [" dc.b 1"]
    elif k == "errors":
        out += [" nosuch%d" % i for i in range(small)]
        both = g.chance(50)
        if both:
            # an abort shows the messages as well
            shown = [' echo "message number %d of many"' % i for i in range(small)]
            bad = out[-small:]
            del out[-small:]
            out += g.pick([bad + shown, shown + bad, [x for y in zip(bad, shown) for x in y]]) + [" err"]
    elif k == "scopes":
        for i in range(small):
            out += [" subroutine", ".a dc.w .a,.b", ".b"]
    elif k == "dollars":
        for i in range(small):
            out += ["g%d" % i, "1$ dc.w 1$,%d$" % (2 + i % 3), "%d$" % (2 + i % 3)]
    elif k == "ifs":
        d = min(n, 900)
        off = d - g.int(0, 3)
        out += [" if %d" % (i != off) for i in range(d)] + [" dc.b 1"] + [" endif"] * d + [" dc.b 2"]
    elif k == "includes":
        d = min(n, g.pick([30, 60, 120]))
        for i in range(d):
            files["i%d.asm" % i] = " dc.b %d\n%s dc.w %d\n" % (i, ' include "i%d.asm"\n' % (i + 1) if i + 1 < d else "", i)
        out += [' include "i0.asm"']
    elif k == "eqm":
        d = g.int(2, 30)
        out += ["e%d eqm e%d+1" % (i, i + 1) for i in range(d)] + ["e%d eqm 5" % d, " dc.b e0"]
    elif k == "strings":
        out += ["t%d setstr text_%d_%s" % (i, i, "y" * (i % 40)) for i in range(small)] + [" dc.b t%d" % g.int(0, small - 1) for _ in range(20)]
    elif k == "list line":
        m = g.int(200, 480)
        out += [" dc.%s %s" % (g.pick("bwl"), ",".join(["1"] * m)), " dc.b " + ",".join(str(i % 10) for i in range(g.int(450, 500)))]
    elif k == "long name":
        m = g.pick([60, 127, 128, 255, 256, 400, g.int(300, 470)])
        out += ["%sa dc.b 1" % ("n" * m), "%sb dc.b 2" % ("n" * m), " dc.w %sb" % ("n" * m), " dc.w %sa-1" % ("n" * m), " ifconst %sc" % ("n" * m), " err", " endif"]
    elif k == "long text":
        m = g.int(900, 1005)
        out += [' dc.b "%s"' % ("abcdefghij" * 110)[:m], ' dc.w "%s"' % ("qrstuvwxyz" * 50)[:g.int(10, 400)]]
    elif k == "long hex":
        out += [" hex " + "".join("%02x" % (i & 255) for i in range(g.int(400, 500)))]
    elif k == "expression":
        m = g.int(100, 440)
        out += ["e = " + "+".join(["1"] * m), " dc.l e", " dc.l " + "-".join(["9"] * m), " dc.b <[" + "^".join(["5"] * m) + "]"]
    elif k == "brackets":
        m = g.int(5, 30)
        out += [" dc.b %s7%s" % ("[" * m, "]" * m), " dc.b <[%s7]" % ("-~" * (m // 3))]
    elif k == "comments":
        out += ["; " + "c" * g.int(0, 900) for _ in range(50)] + ["/* " + "d" * g.int(0, 900), "e" * 900, "*/"] + [" dc.b 1 ; " + "f" * 900]
    elif k == "dyn":
        out += ["i set 0", " repeat %d" % small, "lab_,i dc.w i", "i set i+1", " repend"] + [" dc.w lab_%d" % g.int(0, small - 1) for _ in range(20)]
    elif k == "incbin":
        m = g.pick([4095, 4096, 4097, 16384, 16385, 30000, 60000])
        data = bytes((i * 7 + (i >> 8)) & 255 for i in range(m))
        files["d.bin"] = {"hex": data.hex()}
        off = g.pick([0, 0, 1, 4096, m - 1, m])
        out += [' incbin "d.bin"%s' % (",%d" % off if off else ""), " dc.b 1"]
    elif k == "args":
        m = g.int(2, 9)
        m = g.pick([m, 9])
        val = g.pick(["1", "1+" * 30 + "2", "k" * 60])
        out += ["%s = 3" % ("k" * 60), " mac am"] + [" dc.b {%d}" % (i + 1) for i in range(m)] + [" endm", " am " + ",".join([val] * m)]
    elif k == "nested macros":
        d = g.int(2, 29)
        for i in range(d):
            out += [" mac n%d" % i, " dc.b {1},%d" % i] + ([" n%d {1}+1" % (i - 1)] if i else []) + [" dc.b %d" % (100 + i), " endm"]
        out += [" n%d 1" % (d - 1)]
    elif k == "repeat":
        out += ["i set 0", " repeat %d" % n, " dc.b <i", "i set i+1", " repend", " repeat %d" % g.int(2, 40), " repeat %d" % g.int(2, 40), " dc.b 7", " repend", " repend"]
    elif k == "same hash":
        import itertools
        pre = g.pick(["h", "h", "h_with_some_letters_", "h" * 31, "h" * 32, "h" * 63, "h" * 90, "h" * g.int(2, 130)])
        letters = "abcdef"[:g.int(4, 6)]
        names = [pre + "".join(p) for p in itertools.permutations(letters)]
        if g.chance(40):
            end = "t" * g.int(1, 60)
            names = [x + end for x in names]
        how = g.int(0, 4)
        g.tag("same hash %d" % how)
        if how == 0:
            names = names[:g.int(20, 150)]
            for i, x in enumerate(names):
                out += [" mac %s" % x, " dc.w %d,{1}" % i, " endm"]
            out += [" %s %d" % (g.pick(names), j) for j in range(40)]
        elif how == 1:
            names = names[:g.int(20, 150)]
            for i, x in enumerate(names):
                out += [" seg %s" % x, " org $%x" % (0x2000 + i * 3), " dc.b %d" % (i & 255)]
        else:
            d = g.pick(["equ", "=", "set", "eqm"])
            out += ["%s %s %d" % (x, d, i) for i, x in enumerate(names)] + [" dc.w " + g.pick(names) for _ in range(40)]
    elif k == "defs":
        m = g.int(20, 300)
        defs = [("D", "d%d%s=%d" % (i, tail, i * 3)) for i in range(m)]
        out += [" dc.w d%d%s" % (g.int(0, m - 1), tail) for _ in range(30)]
    elif k == "ds":
        out += [" %s %d,$%02x" % (res, g.int(1000, 9000), g.int(0, 255)), " %s.l %d,$12345678" % (res, g.int(300, 5000)), "z dc.w z", " align %d" % g.pick([256, 4096, 16384])]
    elif k == "hunks":
        a = 0x1000
        for i in range(small):
            a += g.pick([2, 5, 40]) if i % 50 == 0 else 3
            out += [" org $%x" % a, " dc.b %d" % (i & 255)]
    else:
        nop = {"f8": "nop"}.get(cpu, "nop")
        out += ["i%d %s" % (i, nop) for i in range(n)] + [" dc.w i%d" % (n - 1)]
    if k == "echo":
        extra = []
    files["main.asm"] = "\n".join(out) + "\n"
    fmt = g.int(1, 3)

    def more(res):
        e = {}
        if k == "echo":
            e["echo"] = res.echo
        else:
            e.update(sym_expect(sort)(res))
        return e

    if extra:
        extra = extra + ["-T%d" % sort]
    c = simple_case(g, files, fmt, extra=extra, defs=defs, more_expect=more)
    if not c.res.ok and k != "errors" and k != "eqm":
        raise Skip("%s: %s" % (k, c.res.reason))
    if k == "errors":
        c.data["runs"][0]["expect"]["has_line"] = [r".*Unknown Mnemonic 'nosuch%d'\." % i for i in (0, small // 2, small - 1)]
        if both:
            c.data["runs"][0]["expect"]["has_line"] += [" message number %d of many" % i for i in (0, small // 2, small - 1)]
    if g.chance(25):
        c.data["runs"].append({"tool": "dasm", "args": c.data["runs"][0]["args"] + ["-v4", "-lo.lst"], "expect": dict(
            (a, b) for a, b in c.data["runs"][0]["expect"].items() if a in ("exit", "out"))})
    return c


def joined(g):
    """A small program behind a lot of other definitions."""
    p = P(g, size=(3, 16)).generate()
    pad = g.int(50, 2000)
    filler = []
    kind = g.int(0, 3)
    for i in range(pad):
        filler.append(["zz%d equ %d" % (i, i), "zz%d" % i, "; comment %d" % i, "zz%d set %d" % (i, i)][kind])
    lines = list(p.lines)
    idx = next((i for i, l in enumerate(lines) if re.match(r"\s+org", l, re.I)), 1) + 1
    lines[idx:idx] = filler
    files = dict(p.files)
    files["main.asm"] = "\n".join(lines) + "\n"
    g.tag("padded %d" % kind)
    return simple_case(g, files, p.fmt, extra=["-so.sym"], more_expect=sym_expect())


add("C30", "a program with one large dimension is compared with the reference", 875, 4000, [(5, "many", many), (2, "padded", joined)])
