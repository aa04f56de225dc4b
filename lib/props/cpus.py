"""C04, C05, C06 instruction encodings, C07 branches, C08 operand ranges, C09 rejected statements."""

import re

from .util import *
from ..refasm import CPU_NAMES, DIRECTIVES, F8_BRANCH, F8_BYTE, F8_IMPLIED, F8_LR, F8_SREG, F8_WORD, F8_MNEMONICS, F8_SPECIAL

WIDE = {"BYTEADR": "WORDADR", "BYTEADRX": "WORDADRX", "BYTEADRY": "WORDADRY", "BYTEADR_SP": "WORDADR_SP"}


class Ops:
    """Operands at interesting values; symbols are defined before or behind the code."""

    def __init__(self, g):
        self.g, self.pre, self.post, self.n = g, [], [], 0

    def val(self, v, group="[]"):
        g = self.g
        k = g.int(0, 9)
        if k < 5:
            return num(g, v)
        self.n += 1
        n = g.pick(["v%d", "x_%d", "Y%d", "sp%d", "a.%d"]) % self.n
        if k < 7:
            self.pre.append("%s equ %s" % (n, num(g, v)))
            return n
        if k < 9:
            self.post.append("%s equ %s" % (n, num(g, v)))
            return n
        d = g.int(0, 9)
        return "%s%s%s+%s" % (group[0], num(g, v - d), group[1], num(g, d)) if v >= d else num(g, v)

    def byte(self, lo=0):
        return self.g.near(lo, 255, 0, 1, 0x7F, 0x80, 0xFF)

    def word(self, lo=0):
        return self.g.near(lo, 0xFFFF, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFF)


def encode(g, o, cpu, m, mode, near):
    """A statement using exactly this mode (or, for operand sizes, the boundary of it)."""
    ent = TABLES[cpu][m]
    modes = ent["modes"]
    ext = ""
    idx = {"X": ",x", "Y": ",y", "P": ",sp"}
    if mode == "IMP":
        a = ""
    elif mode == "IMM8":
        v = g.near(-255, 255, 0, 255, -1, -128, -255, 128) if g.chance(30) else o.byte()
        a = "#" + o.val(v, "()" if g.chance(30) else "[]")
    elif mode == "IMM16":
        a = "#" + o.val(o.word())
    elif mode in WIDE or mode in WIDE.values():
        byte = mode if mode in WIDE else next(k for k, v in WIDE.items() if v == mode)
        word = WIDE[byte]
        has_b, has_w = byte in modes, word in modes
        zero = "0" + byte[-1] in modes
        if mode == byte:
            v = o.byte(1 if zero else 0)
            if has_w and g.chance(10):
                v = o.word()
        else:
            v = o.word(0x100 if has_b else 0)
        t = o.val(v)
        suf = idx.get(mode[-1], "") if mode[-1] in "XYP" else ""
        if suf and g.chance(25):
            suf = suf.upper()
        if byte == "BYTEADR_SP":
            if has_b and has_w and g.chance(20):
                ext = g.pick(["w", "a", "e"])
        elif has_b and v < 0x100 and g.chance(15):
            ext = g.pick(["b", "z", "d"])
        elif has_w and g.chance(20):
            ext = g.pick(["w", "a", "e"])
            if has_b:
                t = o.val(g.pick([v, o.byte()]))
        if ext and suf and suf != ",sp" and suf != ",SP" and g.chance(30):
            ext += suf[-1].lower()
        if cpu in ("68705", "68hc11", "68hc908") and suf and not ext and g.chance(12) and t.isalnum() is not None:
            if v or not zero:
                return m, "[%s+%s]" % (suf[1:], num(g, v))
        a = t + suf
    elif mode in ("INDBYTE", "INDBYTEX", "INDBYTEY"):
        a = {"INDBYTE": "(%s)", "INDBYTEX": "(%s,x)", "INDBYTEY": "(%s),y"}[mode] % o.val(o.byte())
        if g.chance(20):
            a = a.replace(",x", ",X").replace(",y", ",Y")
    elif mode in ("INDWORD", "INDWORDX"):
        a = {"INDWORD": "(%s)", "INDWORDX": "(%s,x)"}[mode] % o.val(o.word())
    elif mode in ("0X", "0Y"):
        k = g.int(0, 2)
        a = (num(g, 0) if k == 0 or ent.get("mask") or ent.get("rel") else "" if k == 1 else o.val(0)) + "," + mode[1].lower()
    elif mode == "REL":
        a = near()
        if ent.get("mask"):
            return m, o.val(o.byte()) + "," + a
    elif mode == "BYTEREL":
        return m, o.val(o.byte()) + "," + near()
    elif mode == "BITMOD":
        return m, o.val(g.int(0, 7)) + "," + o.val(o.byte())
    elif mode == "BITBRAMOD":
        return m, o.val(g.int(0, 7)) + "," + o.val(o.byte()) + "," + near()
    if ent.get("mask"):
        a += "," + o.val(o.byte())
    if ent.get("rel"):
        a += "," + near()
    g.tag("%s %s" % (cpu, mode))
    return m + ("." + ext if ext else ""), a


def instructions(cpus):
    def gen(g):
        cpu = g.pick(cpus)
        o = Ops(g)
        body = []
        labels = ["b0"]

        def near():
            k = g.int(0, 4)
            if k == 0:
                return labels[-1]
            if k == 1:
                return "end_"
            return g.pick([".", "*", ".+2", "*-5", ".+20"])

        body.append("b0")
        for i in range(g.int(1, 9)):
            m, mode = g.pick(PAIRS[cpu])
            mn, a = encode(g, o, cpu, m, mode, near)
            if g.chance(10):
                mn = mn.upper() if "." not in mn else mn
            lab = ""
            if g.chance(15):
                lab = "b%d" % (i + 1)
                labels.append(lab)
            body.append("%s %s %s" % (lab, mn, a))
        body.append("end_")
        if g.chance(40):
            body.append(" dc.w end_,b0")
        lines = head(g, cpu) + o.pre + [" org " + num(g, g.pick([0, 0x20, 0x1000, 0xE000]))] + body + o.post
        return finish(g, lines)

    return gen


def one_each(cpus):
    """All modes of one mnemonic, so that every table entry is met often."""

    def gen(g):
        cpu = g.pick(cpus)
        o = Ops(g)
        body = ["b0"]
        for m in g.sample(sorted(TABLES[cpu]), g.int(1, 3)):
            for mode in TABLES[cpu][m]["modes"]:
                mn, a = encode(g, o, cpu, m, mode, lambda: g.pick([".", "b0", ".+9"]))
                body.append(" %s %s" % (mn, a))
        lines = head(g, cpu) + o.pre + [" org $1000"] + body + o.post
        return finish(g, lines)

    return gen


C65 = ["6502", "65c02"]
MOT = ["6803", "hd6303", "68705", "68hc11", "68hc908"]

# ------------------------------------------------------------------------------------------ C06


def f8_ops(g):
    o = Ops(g)
    body = ["b0"]
    spell = {"A": ["a", "A"], "DC0": ["dc0", "dc", "DC0"], "P0": ["p0", "pc0", "PC0"], "P1": ["p", "pc1", "P"]}

    def reg():
        k = g.int(0, 2)
        if k == 0:
            return g.pick(["s", "(is)", "i", "(is)+", "d", "(is)-", "j", "hu", "hl", "S", "I", "D", "J", "HU", "HL", "(IS)+"])
        return o.val(g.int(0, 14))

    for i in range(g.int(1, 10)):
        k = g.int(0, 10)
        g.tag("kind %d" % k)
        if k == 0:
            s = g.pick(sorted(F8_IMPLIED)), ""
        elif k == 1:
            s = g.pick(sorted(F8_BYTE)), o.val(o.byte())
        elif k == 2:
            s = g.pick(sorted(F8_WORD)), o.val(o.word())
        elif k == 3:
            s = g.pick(sorted(F8_SREG)), reg()
        elif k == 4:
            s = g.pick(["ins", "outs", "lis"]), o.val(g.int(0, 15))
        elif k == 5:
            s = g.pick(["lisl", "lisu"]), o.val(g.int(0, 7))
        elif k == 6:
            s = g.pick(["sl", "sr"]), o.val(g.pick([1, 4]))
        elif k == 7:
            d, r = g.pick(sorted(F8_LR, key=str))

            def nm(x):
                if x == 9:
                    return g.pick(["j", "J", "9"])
                t = g.pick(spell.get(x, [x.lower(), x]))
                return t

            s = "lr", nm(d) + g.pick([",", ", ", ",", " ,", " , "]) + nm(r)
        elif k == 8:
            r = reg()
            s = "lr", g.pick(["a,%s", "%s,a", "A,%s", "a ,%s", "%s ,a", "a, %s", "%s, A"]) % r
        elif k == 9:
            s = g.pick(sorted(F8_BRANCH)), g.pick(["b0", ".", ".+5", "e_", "*-9"])
        else:
            m = g.pick(["bf", "bt"])
            s = m, o.val(g.int(0, 15 if m == "bf" else 7)) + g.pick([",", ",", ",", " ,", ", "]) + g.pick(["b0", ".", ".+5", "e_", "*-9"])
        m, a = s
        if g.chance(10):
            m = m.upper()
        body.append(" %s %s" % (m, a))
    body.append("e_")
    return finish(g, head(g, "f8") + o.pre + [" org " + num(g, g.pick([0, 0x800, 0xF000]))] + body + o.post)


def f8_bad(g):
    o = Ops(g)
    k = g.int(0, 13)
    g.tag("bad kind %d" % k)
    if k == 0:
        s = "%s %s" % (g.pick(sorted(F8_BYTE)), o.val(g.pick([256, 300, -1, -128, 65536])))
    elif k == 1:
        s = "%s %s" % (g.pick(sorted(F8_WORD)), o.val(g.pick([65536, -1, 70000])))
    elif k == 2:
        s = "%s %s" % (g.pick(sorted(F8_SREG)), o.val(g.pick([15, 16, -1, 255])))
    elif k == 3:
        s = "%s %s" % (g.pick(["ins", "outs", "lis"]), o.val(g.pick([16, 17, -1, 256])))
    elif k == 4:
        s = "%s %s" % (g.pick(["lisl", "lisu"]), o.val(g.pick([8, 9, -1, 15])))
    elif k == 5:
        s = "%s %s" % (g.pick(["sl", "sr"]), o.val(g.pick([0, 2, 3, 5, 8, -1])))
    elif k == 6:
        s = "bf %s,." % o.val(g.pick([16, 17, -1]))
    elif k == 7:
        s = "bt %s,." % o.val(g.pick([8, 9, -1, 15]))
    elif k in (8, 13):
        regs = ["a", "dc0", "h", "is", "k", "ku", "kl", "p0", "p", "q", "qu", "ql", "w", "j", "s", "hu"]
        regs += [g.pick(["5", "0", "8"]), g.pick(["14", "15", "16", "255"]), "i", "d"]
        s = "lr %s,%s" % (g.pick(regs), g.pick(regs))
    elif k == 9:
        s = g.pick(sorted(F8_IMPLIED)) + " 1"
    elif k == 10:
        s = g.pick(sorted(F8_BRANCH)) + " .+%d" % g.pick([129, 130, -128, -127, 128, 300, -300])
    elif k == 11:
        s = g.pick(["bf 1", "bt", "lr a", "lr", "li", "jmp", "as", "ins", "bf 1,2,3", "sl", "lr a,1,2"])
    else:
        s = g.pick(["lda #1", "dc0 1", "lr.b a,1", "brx .", "as a", "lis a"])
    lines = head(g, "f8") + o.pre + [" org $800", " nop"] + wrap_context(g, [" " + s]) + [" clr"] + o.post
    return finish(g, lines)


# ------------------------------------------------------------------------------------------ C07


def far_branch(g):
    cpu = g.pick(CPUS)
    o = Ops(g)
    if cpu == "f8":
        m = g.pick(sorted(F8_BRANCH) + ["bf", "bt"])
        stmt = m + (" %s,@" % o.val(g.int(0, 7)) if m in ("bf", "bt") else " @")
        size, bias = 2, 1
    else:
        m, mode = g.pick(RELS[cpu])
        mn, a = encode(g, o, cpu, m, mode, lambda: "@")
        stmt = mn + " " + a
        size = None
    d = g.near(-140, 140, -128, 127, 0, -129, 128) if g.chance(80) else g.int(-200, 200)
    form = g.int(0, 6)
    ds = "res" if cpu == "f8" else "ds"
    body = []
    g.tag("form %d" % form)
    extra_pre, extra_post = [], []
    rorg = g.chance(25)
    if size is None:
        # length by assembling the statement alone
        t = head(g, cpu) + o.pre + [" org $4000"] + [" " + stmt.replace("@", ".")] + o.post
        r = ref_run({"m": "\n".join(t) + "\n"}, "m", 3)
        if not r.ok:
            raise Skip("branch statement")
        size = len(r.image)
        bias = size
    t = d + bias  # target relative to the start of the statement
    if form == 0:
        body = [" " + stmt.replace("@", ".%+d" % t)]
    elif form == 1 and t >= size:
        body = [" " + stmt.replace("@", "target"), " %s %d" % (ds, t - size), "target"]
    elif form == 2 and t <= 0:
        body = ["target", " %s %d" % (ds, -t), " " + stmt.replace("@", "target")]
    elif form == 3 and t >= size:
        body = [" " + stmt.replace("@", "target"), " align 1", " %s gap" % ds, "target"]
        extra_post = ["gap equ %d" % (t - size)]
    elif form == 4 and t <= 0:
        n = -t
        body = ["target"] + [" dc.b 0"] * 0 + [" repeat %d" % n, " dc.b 1", " repend", " " + stmt.replace("@", "target")]
    elif form == 5 and t >= size:
        body = [" " + stmt.replace("@", "target"), " org .+%d" % (t - size), "target"]
        if rorg:
            body[1] = " %s %d" % (ds, t - size)
    else:
        body = ["here " + stmt.replace("@", "here%+d" % t)]
    if rorg:
        body = [" rorg " + o.val(g.pick([0x300, 0x2000, 0xE000, 0xF0]))] + body + [" rend"]
    if g.chance(20):
        body = [" %s 3" % ds] + body
    if g.chance(20) and "here" not in body[0] and form not in (1, 2, 3, 4, 5):
        body = wrap_context(g, body)
    lines = head(g, cpu) + o.pre + [" org " + g.pick(["$1000", "$400", "$E000", "later"])] + body + [" dc.b 1"]
    lines += o.post + extra_post + ["later equ $1800"]
    return finish(g, lines, extra=["-so.sym"] if g.chance(20) else [])


def many_branches(g):
    """Distances that change from pass to pass because instructions shrink."""
    cpu = g.pick([c for c in CPUS if c != "f8"])
    o = Ops(g)
    wide = [(m, md) for m, md in PLAIN[cpu] if md == "WORDADR" and "BYTEADR" in TABLES[cpu][m]["modes"]
            and not TABLES[cpu][m].get("mask")]
    m, mode = g.pick([(a, b) for a, b in RELS[cpu] if b == "REL" and not TABLES[cpu][a].get("mask")])
    n = g.near(1, 70, 42, 63, 64, 43)
    lines = head(g, cpu, 0x1000)
    w = g.pick(wide)[0]
    fill = [" %s zp%s" % (w, g.pick(["", "+1"]))] * 1
    back = g.chance(50)
    body = ["top"] if back else [" %s bottom" % m]
    body += [" repeat %d" % n] + fill + [" repend"]
    body += [" %s top" % m] if back else ["bottom"]
    if g.chance(30):
        body = [" rorg $2000"] + body + [" rend"]
    lines += body + ["zp equ %s" % num(g, g.pick([0x10, 0xF0, 0x120]))]
    return finish(g, lines)


add("C07", "program with a relative branch, accepted with its displacement compared or rejected as out of range", 11500, 46000, [
    (14, "distance", far_branch), (4, "shrinking code", many_branches),
    (3, "programs", mix(weights=only(branch=40, ins=20, rorg=8))),
])

# ------------------------------------------------------------------------------------------ C08

EDGE = [-0x10000, -0xFFFF, -0x8000, -257, -256, -255, -254, -129, -128, -127, -1, 0, 1, 127, 128, 254, 255, 256, 257,
        0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x12345]


def ranges(g, cpus=CPUS, data=True):
    cpu = g.pick(cpus)
    o = Ops(g)
    strict = g.chance(35)

    def edge():
        return g.pick(EDGE) + g.int(-1, 1) if g.chance(80) else g.int(-0x20000, 0x20000)

    v = edge()
    k = g.int(0, 9) if data else 9
    ds = "res" if cpu == "f8" else "ds"
    ok = str(g.int(0, 255))
    if k == 0:
        lst = [o.val(edge() if g.chance(30) else g.int(0, 255)) for _ in range(g.int(0, 3))]
        lst.insert(g.int(0, len(lst)), o.val(v))
        s = [" %s %s" % (g.pick(["dc.b", "byte", ".byte", "dc"] + (["db"] if cpu == "f8" else [])), ",".join(lst))]
    elif k == 1:
        s = [" %s %s,%s" % (g.pick(["dc.w", "word", ".word", "dc.s"] + (["dw"] if cpu == "f8" else [])), ok, o.val(v))]
    elif k == 2:
        s = ["e eqm %s" % g.pick(["..+1", "..", "..*2"]), " %s e %s,%s" % (g.pick(["dv", "dv.b", "dv.w", "dv.l"]), ok, num(g, v))]
    elif k == 3:
        s = [" %s 2,%s" % (ds + g.pick(["", ".w", ".l"]), o.val(v))]
    elif k == 4 and cpu != "f8":
        s = None
        m = g.pick([m for m, md in PAIRS[cpu] if md == "IMM8"] or [None])
        if m is None or TABLES[cpu][m].get("mask") or TABLES[cpu][m].get("rel"):
            s = [" dc.b " + o.val(v)]
        else:
            s = [" %s #%s" % (m, o.val(v))]
    elif cpu == "f8":
        m = g.pick(sorted(F8_BYTE) + sorted(F8_WORD) + ["ins", "outs", "lis", "lisl", "lisu", "as", "bf"])
        if m in ("ins", "outs", "lis", "lisl", "lisu", "as", "bf") and g.chance(80):
            v = g.int(-2, 18)
        s = [" %s %s%s" % (m, o.val(v), ",." if m == "bf" else "")]
    else:
        pairs = [p for p in PAIRS[cpu] if p[1] not in ("IMP", "0X", "0Y", "REL")]
        if g.chance(50):
            pick = g.pick(sorted({p[1] for p in pairs}))
            pairs = [p for p in pairs if p[1] == pick]
        elif g.chance(30):
            pairs = [p for p in pairs if TABLES[cpu][p[0]].get("mask")] or pairs
        m, mode = g.pick(pairs)
        ent = TABLES[cpu][m]
        mask = o.val(g.int(0, 255))
        if ent.get("mask") and g.chance(50):
            v, mask = g.int(0, 255), o.val(g.pick([-257, -256, -255, -1, 0, 255, 256, 257]) if g.chance(80) else edge())
        a = o.val(v)
        rel = ",."
        if mode == "BITMOD":
            bit = g.int(-2, 9)
            s = [" %s %s,%s" % ((m, o.val(bit), a) if g.chance(50) else (m, o.val(g.int(0, 7)), a))]
        elif mode == "BITBRAMOD":
            s = [" %s %s,%s,." % (m, o.val(g.int(-2, 9)), a)]
        elif mode == "BYTEREL":
            s = [" %s %s,." % (m, a)]
        else:
            f = {"IMM8": "#%s", "IMM16": "#%s", "INDBYTE": "(%s)", "INDBYTEX": "(%s,x)", "INDBYTEY": "(%s),y",
                 "INDWORD": "(%s)", "INDWORDX": "(%s,x)"}.get(mode)
            if f is None:
                f = "%s" + {"X": ",x", "Y": ",y", "P": ",sp"}.get(mode[-1], "")
            t = f % a
            ext = ""
            if mode.startswith(("BYTEADR", "WORDADR")) and mode[-2:] != "SP" and g.chance(25):
                ext = g.pick([".b", ".w", ".z", ".a"])
            if ent.get("mask"):
                t += "," + mask
            if ent.get("rel"):
                t += rel
            s = [" %s%s %s" % (m, ext, t)]
    g.tag("field %d" % k)
    pre = [" nop", " nop"] if g.chance(30) else []
    lines = head(g, cpu) + o.pre + [" org $1000"] + pre + (wrap_context(g, s) if k != 2 else s) + [" dc.b 1"] + o.post
    return finish(g, lines, strict=strict)


def several(g):
    """Many operands, at most one of them out of range."""
    cpu = g.pick(CPUS)
    o = Ops(g)
    n = g.int(2, 6)
    bad = g.int(0, n) if g.chance(60) else -1
    lines = []
    for i in range(n):
        v = g.pick([-300, -256, 256, 300, 1000, 70000]) if i == bad else g.near(-255, 255, -255, -128, -1, 0, 255)
        lines.append(" dc.b %s" % ",".join([o.val(v)] + [o.val(o.byte()) for _ in range(g.int(0, 2))]))
    return finish(g, head(g, cpu) + o.pre + [" org $10"] + lines + o.post)


add("C08", "statement with an operand at or next to the limit of its field", 13000, 52000, [
    (16, "limits", ranges), (4, "data lists", several), (2, "programs", mix()),
])

# ------------------------------------------------------------------------------------------ C09

SYNTAX = ["", "#5", "$12", "$1234", "(5)", "($1234)", "5,x", "$1234,x", "5,y", "$1234,y", "(5,x)", "(5),y", "(5,y)", "(5),x",
          "5,sp", "$1234,sp", ".", "1,5", "1,5,.", "#$1234", "5,.", ",x", ",y", "0,x", "0,y"]
SYNTAX_EXT = ["", ".b", ".w", ".z", ".a", ".bx", ".wx", ".by", ".wy", ".i", ".0", ".r", ".d", ".e", ".l", ".ind", ".0x", ".0y", ".ix", ".iy", ".in", ".zx", ".zy", ".dx", ".ay", ".ex"]


def any_mode(g, cpus=[c for c in CPUS if c != "f8"]):
    cpu = g.pick(cpus)
    m = g.pick(sorted(TABLES[cpu]))
    ent = TABLES[cpu][m]
    many = ent.get("imod") or ent.get("mask") or ent.get("rel") or "BYTEREL" in ent["modes"]
    a = g.pick(SYNTAX if many else [s for s in SYNTAX if s not in ("1,5", "1,5,.", "5,.")])
    ext = g.pick(SYNTAX_EXT) if g.chance(25) else ""
    s = " %s%s %s" % (m, ext, a)
    lines = head(g, cpu) + [" org $1000", " dc.b 1"] + wrap_context(g, [s]) + [" dc.b 2"]
    return finish(g, lines)


def broken(g):
    cpu = g.pick(CPUS)
    o = Ops(g)
    k = g.int(0, 15)
    g.tag("broken %d" % k)
    lines = head(g, cpu, 0x1000)
    ds = "res" if cpu == "f8" else "ds"
    other = g.pick([c for c in CPUS if c != cpu])
    if k == 0:  # mnemonic of another CPU
        if other == "f8":
            m = g.pick(sorted(F8_MNEMONICS))
        else:
            m = g.pick(sorted(TABLES[other]))
        s = [" %s%s" % (m, g.pick(["", " 5", " #5", " a,5"]) if m not in ("ds", "dc") and (cpu == "f8" or m not in TABLES[cpu]) else " 5")]
    elif k == 1:
        s = [" " + g.pick(["foo", "ldaa1", "xyz 1", "dcb 1", "endrep", "macr", "orgg 5", "dc_b 1", "dcd 1", "repeatx 1", "els", "iff 1",
                            "alig 4", "equate 5", "byt 1", "nop1", "dss 4"])]
    elif k == 2:
        s = [" processor " + g.pick(SPELL[other] + ["z80", "6510", "68000", "", "65c03", "6502x", "F88"])]
    elif k == 3:
        s = [" dc.b " + g.pick(["5/0", "5/[1-1]", "1/zero"])]
        o.post.append("zero equ 0")
    elif k == 4:
        e = g.pick(["1 2", "5 foo5", "3 $4", "5~3", "1 [3]"])
        s = [" %s %s" % (g.pick(["dc.b", "dc.w", "if", "repeat", ds, "align"]), e)]
        if s[0].startswith(" if"):
            s += [" endif"]
        if s[0].startswith(" repeat"):
            s += [" repend"]
        o.post.append("foo5 equ 1")
    elif k == 5:
        s = [" mac mm", " dc.b {2}", " endm", " mm 1"]
    elif k == 6:
        s = [' include "nofile.h"'] if g.chance(50) else [' incbin "nofile.bin"']
    elif k == 7:
        s = [" err"]
    elif k == 8 and cpu != "f8":
        rel = [m for m, md in PAIRS[cpu] if TABLES[cpu][m].get("rel") or TABLES[cpu][m].get("mask")]
        if rel:
            m = g.pick(rel)
            s = [" %s %s" % (m, g.pick(["5", "1,5", "0,x", "5,x"]))]
        else:
            s = [" dc.w 1", "a equ 1", "a equ 2"]
    elif k == 9:
        s = ["dup dc.b 1", "dup dc.b 2"]
    elif k == 11:
        h = "".join(g.pick("0123456789abcdefABCDEF") for _ in range(2 * g.int(1, 5)))
        i = g.int(0, len(h) - 1)
        s = [" hex " + g.pick([h, h[:i] + g.pick("gGxXhz$@/:`.-") + h[i + 1 :], h[:i] + " " + h[i:], h[:i] + h[i + 1 :], h[:2] + "  " + h[2:]])]
    elif k == 12:
        s = [g.pick(["*/", " */", " dc.b 1 */", "lab_c dc.b 2 */ ; end", " dc.b 1 ; */", " dc.b '*,'/,\"*/\"", "/* a */ dc.b 1 */", "/* */ */",
                     "; */", " dc.b 4 /* b */"])]
    elif k == 15:  # names put together from pieces
        t = g.pick(["a,b", "a:b", ",", "x:", "ab", "a_9"])
        s = g.pick([['lab,"%s" dc.b 1' % t], ['v set lab,"%s"' % t], ['lab,1,"%s":' % t], ['lab,"q","%s" nop' % t]])
        o.post += ["lab%s = 1" % t] if re.fullmatch(r"\w+", t) and s[0].startswith("v") else []
    elif k == 14:
        e = g.pick(["08", "09", "018", "0719", "00080", "%12", "%102", "0x1F8", "0778", "077", "12a", "1_", "9.5", "1.b", "$1g", "0x1g", "5foo", "07", "0", "$0f", "%01", "0x1F"])
        s = [" %s %s" % (g.pick(["dc.b", "dc.w", ds]), g.pick([e, e, "1+" + e, "[%s]" % e, e + ",1" if cpu else ""]))]
    elif k == 13:
        s = [g.pick([' dc.b "abc', ' dc.b "', ' dc.b "a;b', ' dc.b 1,"x" "', ' dc.w "abc" ; "', ' dc.b \'"', ' echo "abc', ' dc.b "a\'b"', ' dc.b "a" ;"b'])]
    else:
        s = ["a equ 1", " dc.b 1", g.pick(["a equ 2", "a = 3", "a equ ."])]
    if k in (5, 9, 10) or (k == 8 and len(s) > 1):
        body = s
    else:
        body = wrap_context(g, s)
    where = g.int(0, 5)
    files = {}
    if where == 0:
        files["inc.h"] = "\n".join(body) + "\n"
        body = [' include "inc.h"']
    elif where == 1 and k != 2:
        body = [" if 0"] + body + [" endif"] if not any("mac" in l for l in body) else body
    lines += [" dc.b 1"] + body + [" dc.b 2"] + o.post
    return finish(g, lines, files=files, passes=False)


def second_cpu(g):
    cpu = g.pick(CPUS)
    a, b = g.pick(SPELL[cpu]), g.pick(SPELL[cpu])
    lines = [" processor " + a, " org 5", " dc.b 1", " processor " + (b if g.chance(60) else g.pick(SPELL[g.pick(CPUS)])), " dc.w 1"]
    return finish(g, lines)


add("C09", "statement the selected CPU or the assembler does not support, or its supported neighbour", 13000, 52000, [
    (14, "operand syntax", any_mode), (4, "F8 operands", f8_bad), (10, "broken statements", broken), (2, "processor", second_cpu), (2, "programs", mix()),
])

# the checks of the instruction sets also look at the limits and the syntax of their CPUs

add("C04", "at least one 6502/65C02 instruction with its encoding compared", 11000, 44000, [
    (12, "instructions", instructions(C65)), (8, "all modes of a mnemonic", one_each(C65)),
    (3, "programs", lambda g: program(g, cpu=g.pick(C65), weights=only(ins=40, branch=10))),
    (4, "limits", lambda g: ranges(g, C65, False)), (3, "operand syntax", lambda g: any_mode(g, C65)),
])
add("C05", "at least one Motorola-family instruction with its encoding compared", 12250, 49000, [
    (12, "instructions", instructions(MOT)), (12, "all modes of a mnemonic", one_each(MOT)),
    (3, "programs", lambda g: program(g, cpu=g.pick(MOT), weights=only(ins=40, branch=10))),
    (5, "limits", lambda g: ranges(g, MOT, False)), (3, "operand syntax", lambda g: any_mode(g, MOT)),
])
add("C06", "program with an F8 instruction compared, or a bad operand that has to be rejected", 12000, 48000, [
    (12, "instructions", f8_ops), (8, "operand limits", f8_bad),
    (3, "programs", lambda g: program(g, cpu="f8", weights=only(ins=40, branch=15, data=15))),
    (3, "limits", lambda g: ranges(g, ["f8"], False)),
])
