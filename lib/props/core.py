"""C01 multi-pass resolution, C02 expressions, C03 unresolved symbols, C31 checksum."""

from .util import *
from ..exprgen import X
from ..refasm import F8_SREG

# ------------------------------------------------------------------------------------------ C01


def chains(g):
    """Definitions in an unfavourable order: every pass resolves a little more."""
    cpu = g.pick(CPUS)
    n = g.int(2, 9)
    lines = head(g, cpu, g.pick([0, 0x80, 0xF0, 0x1000]))
    order = list(range(n))
    if g.chance(30):
        order = g.shuffle(order)
    defs = []
    for i in order:
        if i == n - 1:
            defs.append("c%d equ %s" % (i, g.pick(["5", "base", "base+1"])))
        else:
            defs.append("c%d equ c%d%s" % (i, i + 1, g.pick(["+1", "*2", "", "-3", "^1", "+c%d" % (n - 1)])))
    uses = []
    for _ in range(g.int(1, 5)):
        c = "c%d" % g.int(0, n - 1)
        k = g.int(0, 6)
        ds = "res" if cpu == "f8" else "ds"
        uses.append(
            [" dc.w " + c, " dc.b <" + c, " %s [%s]&7,1" % (ds, c), " if %s&1\n dc.b 1\n else\n dc.w 2\n endif" % c,
             " repeat %s&3\n dc.b <%s\n repend" % (c, c), " align 1+[%s&7]" % c, " org .+[%s&15]" % c][k])
    body = ["base"] + uses
    if g.chance(50):
        lines += body + defs
    else:
        for d in defs:
            body.insert(g.int(0, len(body)), d)
        lines += body
    lines += ["fin dc.b 1"]
    lines = [l for x in lines for l in x.split("\n")]
    return finish(g, lines, extra=["-so.sym"], more_expect=sym_expect())


def squeeze_(g):
    """Instruction lengths that depend on labels which depend on instruction lengths."""
    cpu = g.pick([c for c in CPUS if c != "f8"])
    pairs = [(m, md) for m, md in PLAIN[cpu] if md in ("WORDADR", "WORDADRX", "WORDADRY", "BYTEADR", "BYTEADRX")
             and not TABLES[cpu][m].get("mask")]
    lines = head(g, cpu, g.int(0xC0, 0xFC))
    n = g.int(2, 10)
    names = ["t%d" % i for i in range(n)]
    for i in range(n):
        m, md = g.pick(pairs)
        t = g.pick(names)
        if md.startswith("BYTE") and "WORD" + md[4:] not in TABLES[cpu][m]["modes"]:
            t = "<" + t
        if g.chance(70):
            lines.append("t%d" % i)
        else:
            lines.append("t%d dc.b %d" % (i, i))
        for _ in range(g.int(0, 2)):
            lines.append(" %s %s%s" % (m, g.pick([t, t + "+1", t + "-2"]), {"X": ",x", "Y": ",y"}.get(md[-1], "")))
        if g.chance(20):
            lines.append(" ds %s" % g.pick(["2", "5"]))
    lines.append("end_ dc.w end_")
    return finish(g, lines, extra=["-so.sym"], more_expect=sym_expect())


def forward_everywhere(g):
    """One forward reference in each kind of statement, defined at the end."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x200)
    ds = "res" if cpu == "f8" else "ds"
    n = g.int(2, 7)
    files = {}
    for i in range(n):
        f = "f%d" % i
        k = g.int(0, 17)
        body = {
            0: [" dc.b " + f], 1: [" dc.w %s,%s+1" % (f, f)], 2: [" dc.l %s" % f], 3: [" %s %s" % (ds, f)],
            4: [" %s 2,%s" % (ds, f)], 5: [" %s.w %s,%s" % (ds, f, f)], 6: [" align %s+1" % f],
            7: [" align 8,%s" % f], 8: [" org .+%s" % f], 9: [" rorg %s" % f, "r%d dc.w .,r%d" % (i, i), " rend"],
            10: [" repeat %s&3" % f, " dc.b 1", " repend"], 11: [" if %s&1" % f, " dc.b 1", " else", " dc.w 2", " endif"],
            12: ["e%d equ %s+1" % (i, f), " dc.b e%d" % i], 13: ["s%d set %s" % (i, f), " dc.b s%d" % i],
            14: ["q%d eqm %s+2" % (i, f), " dc.b q%d,q%d" % (i, i)], 15: ["v%d eqm [..+%s]&255" % (i, f), " dv v%d 1,2" % i],
            16: [" ifconst %s" % f, " dc.b 7", " else", " dc.b 8", " endif"],
            17: [" mac m%d" % i, " dc.b {1}", " endm", " m%d %s" % (i, f)],
        }[k]
        g.tag("stmt %d" % k)
        if k == 16:
            # defined before in this pass or not: IFCONST of a later symbol is not stable, so define it first
            lines.append("%s equ 3" % f)
            lines += body
            continue
        lines += wrap_context(g, body) if k not in (17, 12) else body
        lines += g.pick([[], ["l%d dc.w l%d" % (i, i)]])
    tail = []
    wide = g.chance(4)
    for i in range(n):
        if "f%d equ 3" % i not in lines:
            # a jump by a multiple of 256 or 65536 between two passes is a change like any other
            v = g.pick([256, 512, 65536]) if wide and " %s f%d" % (ds, i) in lines else g.int(0, 9)
            tail.append("f%d equ %d" % (i, v))
            wide = wide and v < 65536
    tail = g.shuffle(tail)
    if cpu == "6502" and g.chance(50):
        lines.insert(3, " lda tail_")
    lines += ["tail_"] + tail
    # wrap_m may be defined only once
    if sum(l == " mac wrap_m" for l in lines) > 1:
        k = 0
        for j, l in enumerate(lines):
            if l == " mac wrap_m":
                k += 1
                lines[j] = " mac wrap_m%d" % k
            elif l == " wrap_m":
                lines[j] = " wrap_m%d" % k
    return finish(g, lines, files=files, extra=["-so.sym"], more_expect=sym_expect())


def default_passes(g):
    from .reports import default_passes
    return default_passes(g)


add("C01", "accepted program that emits more than two bytes, or a rejected one", 9750, 39000, [
    (10, "programs", mix()),
    (6, "forward programs", mix(forward=90, weights=only(data=20, ins=20, cond=10, repeat=8, org=6, ds=6, align=6, rorg=6, seg=6))),
    (3, "small zero-page programs", mix(org=0xC0, weights=only(ins=40, label=20, branch=10))),
    (4, "chains", chains),
    (3, "feedback", squeeze_),
    (5, "forward everywhere", forward_everywhere), (1, "default passes", default_passes),
])

# ------------------------------------------------------------------------------------------ C02


def expressions(g):
    cpu = g.pick(CPUS)
    big = cpu not in ("6502", "65c02")
    org = g.pick([0, 0x10, 0x1000, 0xF000])
    lines = head(g, cpu, org)
    env = {}
    tail = []
    for i in range(g.int(0, 4)):
        n = g.pick(["k%d", "x%d", "d%d", "Sym_%d", "_%d", "y.%d"]) % i
        v = g.near(-0x80000000, 0x7FFFFFFF, 0, 1, -1, 255, 256, 0xFFFF, -128) if g.chance(40) else g.int(-10, 300)
        env[n] = v
        (tail if g.chance(30) else lines).append("%s equ %s" % (n, ("-$%x" % -v) if v < 0 else "$%x" % v))
    if g.chance(30):
        env["."] = env["*"] = org
        here = True
    else:
        here = False
    checks = []
    for i in range(g.int(1, 6)):
        x = X(g, env)
        t, v, _ = x.gen(g.int(1, 4))
        k = g.int(0, 13)
        if here:
            if k < 9:
                k = 0
            elif k != 10:
                k = 1
        if k <= 4:
            lines.append(" dc.l " + t)
        elif k == 5:
            lines.append(" dc.w %s,%s" % (t, X(g, env).gen(2)[0]))
        elif k == 6:
            t = X(g, env, parens=False, spaces=g.chance(50)).gen(g.int(1, 3))[0]
            lines.append(" dc.b <[%s],>[%s]" % (t, t))
        elif k == 7:
            lines += [" if " + t, " dc.b 1", " else", " dc.b 0", " endif"]
        elif k == 8:
            lines += [" %s [%s]&7,1" % ("res" if cpu == "f8" else "ds", t)]
        elif k == 9 and cpu != "f8":
            t = X(g, env, parens=False).gen(g.int(1, 2))[0]
            m = {"6502": "lda", "65c02": "lda", "6803": "ldaa", "hd6303": "ldaa", "68705": "lda", "68hc11": "ldaa",
                 "68hc908": "lda"}[cpu]
            f = g.pick(["#<[%s]", "#>[%s]", "<[%s]", "[%s]&$ffff", "[%s]&$1ff"])
            lines.append(" %s %s" % (m, f % t))
        elif k == 10:
            lines.append(" dc.b [%s]d" % t)
        elif k == 11:
            lines += [" repeat [%s]&3" % t, " dc.b 7", " repend"]
        elif k == 12:
            lines += [" mac mm%d" % i, " dc.l {1}", " endm", " mm%d %s" % (i, X(g, env, spaces=False).gen(3)[0].replace(",", ""))]
        else:
            lines += ["w%d set %s" % (i, t), " dc.l w%d" % i]
        if g.chance(30) and not here:
            t2, v2, _ = X(g, env).gen(g.int(1, 3))
            lines.append("e%d %s %s" % (i, g.pick(["equ", "=", "set"]), t2))
        if here and i == 0:
            break
    return finish(g, lines + tail, extra=["-so.sym"], more_expect=sym_expect())


def eqm_expressions(g):
    """The same expression written directly and through EQM, SET and macro arguments."""
    cpu = g.pick(CPUS)
    env = {"a": g.int(0, 300), "b": g.int(-20, 20)}
    x = X(g, env, parens=g.chance(50), spaces=False)
    t = x.gen(3)[0]
    lines = head(g, cpu, 0x100) + ["a equ %d" % env["a"], "b set %d" % env["b"], "q eqm " + t, " dc.l q", " dc.l " + t,
                                   " dc.w q+1,[q]*2" if abs(x.gen(0)[1]) >= 0 else ""]
    n = g.int(0, 3)
    for i in range(n):
        # one inside the other, in the middle of what is pending
        lines.append("q%d eqm %s" % (i, g.pick(["%d+%s", "%d+%s*2", "[%d-%s]", "%d^[1+%s]", "~%d|%s+1", "%d+[3*[%s-1]]", "%d<=%s"]) % (g.int(0, 9), "q%d" % (i - 1) if i else "q")))
        g.tag("nested EQM")
    if n:
        e = g.pick(["q%d", "1+q%d", "2+3*q%d", "7-[q%d+1]", "1+2-q%d*2", "[4+[5-q%d]]", "-q%d", "1+q%d-b"]) % (n - 1)
        lines += [" dc.l [%s]&$ffff" % e, " dc.w <[%s]" % e]
    lines += ["b set b+1", " dc.l q&$ffff", " dc.l [%s]&$ffff" % t]
    return finish(g, lines)


def literals(g):
    """Constants at the limits of every base, strings and characters."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x100)
    for _ in range(g.int(1, 6)):
        k = g.int(0, 6)
        if g.chance(2):
            lines.append(" dc.l " + g.pick(["", "1+"]) + g.pick(["08", "09", "0778", "0189", "%12", "12a", "0x1g", "$fg"]))
            g.tag("wrong digit")
            continue
        v = g.near(0, 0xFFFFFFFF, 0, 7, 8, 9, 10, 15, 16, 99, 255, 256, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)
        if k < 4:
            lines.append(" dc.l %s" % X(g, {}).literal(v))
        elif k == 4:
            s = "".join(chr(g.int(32, 126) if g.chance(90) else g.pick(HIGH)) for _ in range(g.int(1, 4))).replace('"', "a").replace("{", "b").replace("\\", "c")
            s = s.replace("/*", "ab").replace("*/", "ab").replace(";", ":")
            lines.append(' dc.%s "%s"%s' % (g.pick("bwl"), s, g.pick(["", ",1"])))
        elif k == 5:
            c = chr(g.pick([i for i in range(33, 127) if chr(i) not in '"{}\\/*;'] + HIGH))
            lines.append(" dc.b '%s,'%s+1" % (c, c))
        else:
            s = "".join(chr(g.int(65, 90)) for _ in range(g.int(1, 4)))
            lines.append(' dc.l ["%s"]+%d' % (s, g.int(0, 9)) if len(s) < 4 else ' dc.w "%s"' % s)
    return finish(g, lines)


add("C02", "program with at least one operator expression, accepted and compared byte by byte", 12250, 49000, [
    (12, "expressions", expressions), (2, "through EQM and SET", eqm_expressions), (2, "literals", literals),
    (3, "programs", mix()),
])

# ------------------------------------------------------------------------------------------ C03


def with_undefined(g, u, depth):
    """An expression tree with the undefined symbol in it."""
    if depth == 0:
        return u
    e = with_undefined(g, u, depth - 1)
    if g.chance(80) or e[0] in "<>-~!":
        e = "[%s]" % e
    k = g.int(0, 9)
    if k == 0:
        return g.pick("-~!<>") + e
    n = g.pick(["0", "1", "known", "3", "$ff", "start", "[0&&%s]" % u if g.chance(30) else "2"])
    op = g.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&&", "||", "?", "?"])
    if op in ("/", "%") and n == "0" or op in ("<<", ">>") and n in ("$ff", "start"):
        n = "7"
    return e + op + n if g.chance(50) else n + op + e


def undefined(g):
    cpu = g.pick(CPUS)
    u = g.pick(["nowhere", "Undefd", "x_missing", "NoSuch_1", "q"])
    lines = head(g, cpu, 0x1000) + ["known equ 5", "start dc.b 1"]
    e = g.pick([u, u + "+1", "<" + u, "known-" + u, "[%s]*0" % u, "-" + u, "1&&" + u, "0||" + u, "1?" + u, u + "?1",
                "%s-%s" % (u, u), "!%s" % u, "known&" + u, u + "==5", "[0&&1]||%s" % u, "start+%s" % u])
    if g.chance(50):
        e = with_undefined(g, u, g.pick([1, 1, 2, 2, 3]))
    ds = "res" if cpu == "f8" else "ds"
    k = g.pick(list(range(22)) + [14, 14, 20, 20, 22, 23])
    files = {}
    if k == 0:
        b = [" dc.b " + e]
    elif k == 1:
        b = [" dc.w 1,%s,2" % e]
    elif k == 2:
        b = [" dc.l " + e]
    elif k == 3:
        b = [" %s %s" % (ds, e)]
    elif k == 4:
        b = [" %s 3,%s" % (ds, e)]
    elif k == 5:
        b = [" align " + e]
    elif k == 6:
        b = [" align 256,%s" % e]
    elif k == 7:
        b = [" org %s" % u, " dc.b 1"]
    elif k == 8:
        b = [" rorg %s" % u, "here dc.w here", " rend"]
    elif k == 9:
        b = [" if %s" % e, " dc.b 1", " endif"]
    elif k == 10:
        b = [" repeat %s" % e, " dc.b 1", " repend"]
    elif k == 11:
        b = ["y1 equ %s" % e, " dc.b <y1"]
    elif k == 12:
        b = ["y1 set %s" % e, " dc.b <y1"]
    elif k == 13:
        b = ["y1 eqm %s" % e, " dc.b <y1"]
    elif k == 14:
        f = g.pick(["[..+%s]&1", "..+%s", "%s", "..-%s", "[..==65]?%s", "..*[0&%s]"]) % u
        b = ["y1 eqm " + f, " dv%s y1 %s" % (g.pick(["", ".b", ".w", ".l"]), g.pick(["1,2", '"A"', '"AB"', '1,"A"', '"B",2', "known", "start"]))]
    elif k == 15:
        b = [" mac mu", " dc.w {1}", " endm", " mu %s" % e]
    elif k == 16:
        b = [" dc.w .local", " subroutine", ".local"]
        u = None
    elif k == 17:
        b = [" dc.w 1$", "glob", "1$"]
        u = None
    elif k == 18:
        b = [" if 0", "%s equ 5" % u, " endif", " dc.w " + e]
    elif k == 21:
        b = ["y1 %s 5" % g.pick(["set", "equ"]), "y1 equ %s" % e] + g.pick([[], [" dc.b <y1"]])
    elif k == 22:
        b = [" org $%x,%s" % (g.pick([0x1010, 0x2000]), u), " dc.b 1"]
    elif k == 23:
        b = [' incbin "u.bin",%s' % u]
        files["u.bin"] = {"hex": "0102030405"}
    elif cpu == "f8":
        b = [" " + g.pick(["li %s", "jmp %s", "br %s", "lis %s", "bf 1,%s", "outs %s", "as %s", "lr a,%s", "bt %s,start"]) % u]
    else:
        m, md = g.pick(PAIRS[cpu])
        from ..proggen import P as Prog

        p = Prog(g, cpu=cpu, fmt=1)
        p.zp_expr = p.value = p.addr_expr = p.label_ref = p.near_label = lambda *a, **kw: u
        if md in ("IMP", "0X", "0Y"):
            b = [" dc.b " + e]
        else:
            ext, body = p.operand(m, md, TABLES[cpu][m])
            b = [" %s%s %s" % (m, "." + ext if ext else "", body)]
    g.tag("undefined in %d" % k)
    post = g.pick([[], [" dc.b 2"], ["after dc.w after"], [" align 4"], ["w nop", " dc.w w"]])
    if k not in (7, 8, 11, 15, 16, 17, 21):
        b = wrap_context(g, b)
    others = ["also_%d" % i for i in range(g.pick([0, 0, 0, 1, 2, 5]))]
    post += [" dc.w " + x for x in others]
    lines += b + post
    c = finish(g, lines, files=files, passes=False)
    r = c.data["runs"][0]["expect"]
    if r["exit"] == "nz" and u and c.res.reason.startswith("unresolvable"):
        r["unresolved"] = [u] + others
        r["has_line"] = [r"%s +[0-9a-f]+ \?\?\?\?.*" % u.replace(".", r"\.")]
        if "-P30" in c.data["runs"][0]["args"]:
            c.data["runs"][0]["args"].remove("-P30")
    return c


def decided(g):
    """Short-circuit and untaken parts make the undefined symbol irrelevant."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x1000)
    u = "nowhere"
    c0 = g.pick(["0", "z0", "[1==2]", "[5-5]"])
    c1 = g.pick(["1", "z1", "[1==1]", "[3&2]"])
    for _ in range(g.int(1, 4)):
        e = g.pick(["%s&&%s" % (c0, u), "%s&&%s" % (u, c0), "%s||%s" % (c1, u), "%s||%s" % (u, c1), "[%s]?%s" % (c0, u),
                    "[[%s&&%s]||1]" % (c0, u), "[%s&&[%s||%s]]" % (c0, u, u), "[[%s]?%s]+[[%s]?7]" % (c0, u, c1),
                    "![%s&&%s]" % (c0, u), "[%s||%s]&&%s" % (u, c1, c1)])
        k = g.int(0, 5)
        ds = "res" if cpu == "f8" else "ds"
        lines += {0: [" dc.b " + e], 1: [" if " + e, " dc.b 1", " else", " dc.b 2", " endif"], 2: [" %s %s,3" % (ds, e)],
                  3: [" dc.w 9,%s" % e], 4: [" repeat " + e, " dc.b 4", " repend"], 5: ["v set " + e, " dc.b v"]}[k]
    if g.chance(30):
        lines += [" ifconst nowhere", " dc.b 1", " else", " dc.b 2", " endif", " ifnconst nowhere2", " dc.b 3", " endif"]
    if g.chance(20):
        lines += [" if 0", " dc.b nowhere3", " endif"]
    lines += ["z0 equ 0", "z1 equ 1"]
    return finish(g, lines)


def injected(g):
    """A valid program of any kind with one reference to an undefined symbol."""
    p = P(g, weights=only()).generate()
    u = "undefined_sym%d" % g.int(1, 9)
    form = g.pick([" dc.b %s", " dc.w 1+%s", " if %s\n endif", " repeat %s\n repend", " align %s", "zz set %s\n dc.b zz", " dc.l <%s"])
    lines = p.source().split("\n")[:-1]
    at = g.int(2, len(lines))
    lines[at:at] = (form % u).split("\n")
    files = dict(p.files)
    files["main.asm"] = "\n".join(lines) + "\n"
    c = simple_case(g, files, p.fmt, passes=False)
    if not c.res.ok and c.res.reason.startswith("unresolvable") and u in c.res.unresolved:
        c.data["runs"][0]["expect"]["has_line"] = [
            r"%s +[0-9a-f]+ \?\?\?\?.*|.*error: Origin Reverse-indexed\." % u]
    return c


add("C03", "program with an undefined symbol that has to be rejected, or a decided expression that has to be accepted", 12250, 49000, [
    (10, "undefined", undefined), (4, "decided", decided), (6, "injected", injected), (2, "programs", mix()),
])

# ------------------------------------------------------------------------------------------ C31


def checksum(g):
    cpu = g.pick(CPUS)
    fmt = g.pick([1, 2, 3])
    lines = head(g, cpu, g.pick([0, 0x1000, 0xF000]), g.pick(["", ",0", ",$aa"]))
    if g.chance(50):
        lines.insert(1, " seg code")
    p = P(g, cpu=cpu, fmt=fmt)
    p.lines = []
    p.base, p.cur_seg, p.segs_seen = 0x1000, None, set()
    p.label_ref = p.near_label = lambda: "first"
    p.take_label = lambda: None
    lines.append("first")
    ds = "res" if cpu == "f8" else "ds"
    seg = lines[1] == " seg code"
    for i in range(g.int(1, 10)):
        k = g.int(0, 12)
        g.tag("stmt %d" % k)
        if k == 0:
            lines.append(" dc.b <...,2,<...")
        elif k == 1:
            lines.append(" dc.w ...")
        elif k == 2:
            lines.append(" dc.l ...")
        elif k == 3 and seg:
            lines += [" seg.u ram", " org $80", " %s %d,7" % (ds, g.int(1, 9)), "v%d dc.w 5" % i, " seg code"]
        elif k == 4:
            lines.append(" org .+%d,%d" % (g.int(0, 40), g.int(0, 255)))
        elif k == 5:
            lines.append(" align %d,%d" % (g.int(1, 20), g.int(0, 255)))
        elif k == 6:
            lines.append(" %s %d,%d" % (ds + g.pick(["", ".w", ".l"]), g.int(0, 300), g.int(0, 255)))
        elif k == 7:
            lines += ["k%d set ...&$ffff" % i, " dc.w k%d" % i]
        elif k == 8:
            lines += [" repeat %d" % g.int(0, 3), " dc.b %d,<..." % g.int(0, 255), " repend"]
        elif k == 9:
            lines += [" rorg $2000", " dc.b %d" % g.int(0, 255), " dc.w ...", " rend"]
        elif k == 10:
            lines += ["q%d equ ...&$ffff" % i, " dc.b q%d>>8" % i]
        elif k == 11:
            lines += [" if ...&1", " dc.b 1", " else", " dc.w $1234", " endif"]
        else:
            p.lines = []
            p.s_ins(0)
            lines += p.lines
    lines += [" dc.l ..."]
    p.lines = []
    p.ctx = []
    p.flush_due(all_=True)
    lines += p.lines
    return finish(g, lines, fmt)


add("C31", "program that stores the checksum symbol at least once after other bytes", 12250, 49000, [
    (10, "checksum", checksum), (5, "programs", mix(weights=only(chk=25, seg=6, ds=6, align=5, org=5))),
])
