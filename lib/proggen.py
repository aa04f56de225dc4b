"""Generator of whole assembler programs, used by all checks with different feature weights.

Programs are text; what they have to assemble to is the business of refasm.  The generator only
takes care that most programs are valid, and that the interesting situations are frequent:
forward references, values at the limits, nested blocks, several segments and files.
"""

from .exprgen import HIGH
from .gen import Case, Skip
from .refasm import CPU_NAMES, F8_BRANCH, F8_BYTE, F8_IMPLIED, F8_LR, F8_SREG, F8_WORD, TABLES, RefAsm

CPUS = ["6502", "65c02", "6803", "hd6303", "68705", "68hc11", "68hc908", "f8"]
SPELL = {c: [n for n, k in CPU_NAMES.items() if k == c] for c in CPUS}

PAIRS = {
    cpu: [(m, mode) for m, e in sorted(TABLES[cpu].items()) for mode in e["modes"]] for cpu in CPUS if cpu != "f8"
}
PLAIN = {
    cpu: [(m, mode) for m, mode in PAIRS[cpu]
          if not TABLES[cpu][m].get("rel") and mode not in ("REL", "BYTEREL", "BITBRAMOD")] for cpu in PAIRS
}
RELS = {
    cpu: [(m, mode) for m, mode in PAIRS[cpu]
          if TABLES[cpu][m].get("rel") or mode in ("REL", "BYTEREL", "BITBRAMOD")] for cpu in PAIRS
}

NAMES = [
    "L{}", "loop{}", "Data_{}", "x_{}", "y{}p", "sp_{}", "A{}", "_t{}", "Foo{}", "foo{}", "b.{}", "z@{}", "equ_{}",
    "averyveryverylongsymbolname_{}_with_tail", "Ab{}cD", "d{}", "X{}", "Y_{}", "SP{}", "x@{}", "y.{}", "sp@{}", "X.{}",
]

DEFAULT = dict(
    ins=30, branch=8, data=14, ds=4, align=3, org=4, equ=6, set=4, eqm=2, seg=3, rorg=4, macro=6, repeat=5, cond=6,
    include=3, incbin=2, sub=3, local=4, dollar=3, dyn=2, echo=1, label=6, hex=2, dv=1, setstr=1, chk=1, blank=2, lst=0,
)


class P:
    def __init__(self, g, cpu=None, fmt=None, weights=None, style=4, size=(3, 26), forward=50, org=None, depth=3):
        self.g = g
        self.cpu = cpu or g.pick(CPUS)
        self.fmt = fmt or g.pick([1, 2, 3])
        self.w = dict(DEFAULT)
        self.w.update(weights or {})
        self.style = style  # percent of lines with unusual layout
        self.maxstmts = g.int(*size)
        self.maxdepth = depth
        self.forward = forward
        self.sure_loops = False  # write loop counts as numbers
        self.files = {}
        self.lines = []
        self.n = 0
        self.consts = {}  # EQU name -> value (defined somewhere)
        self.pending_consts = []  # EQUs still to be written
        self.setvars = {}  # SET name -> last value
        self.labels = []  # placed global labels (name, approximate position)
        self.pending_labels = []  # referenced, not yet placed: (name, due)
        self.strs = {}
        self.eqms = []
        self.macros = []  # (name, nargs)
        self.pos = 0  # upper bound of the location
        self.nobranch = False
        self.ctx = []  # enclosing blocks: "macro", "repeat", "if"
        self.locals = []
        self.dollars = []
        self.budget = 220  # bytes, keeps branches in range
        self.start = org
        self.in_bss = False
        self.args = []
        self.defs = []
        self.rorg = False
        self.stmts = 0
        self.incdirs = []

    # -------------------------------------------------------------- names and numbers
    def fresh(self, kind=None):
        self.n += 1
        pat = NAMES[0] if not self.g.chance(60) else self.g.pick(NAMES)
        return pat.format(self.n)

    def num(self, v, plain=False):
        """A literal (or sign and literal) for v."""
        g = self.g
        if v < 0:
            return "-" + self.num(-v, plain)
        k = g.int(0, 7)
        if k <= 1 or plain:
            return str(v)
        if k <= 3:
            h = "%x" % v if g.chance(70) else "%X" % v
            return "$" + ("0" if g.chance(20) else "") + h
        if k == 4:
            return "%" + format(v, "b")
        if k == 5:
            return "0x%x" % v
        if k == 6:
            return "0%o" % v
        if (33 <= v <= 126 or v in HIGH) and chr(v) not in "{}\"'/*\\;,":
            return "'" + chr(v)
        return str(v)

    def known(self, allow_forward=True):
        """Names of constants usable here."""
        out = list(self.consts)
        if not allow_forward:
            out = [n for n in out if n not in [p for p, _ in self.pending_consts]]
        return out

    def const(self, forward=None):
        """A constant symbol, maybe new, maybe defined only later."""
        g = self.g
        if self.consts and g.chance(70):
            return g.pick(sorted(self.consts))
        name = self.fresh()
        v = g.near(0, 0xFFFF, 0, 1, 0x7F, 0xFF, 0x100, 0x8000, 0xFFFF) if g.chance(50) else g.int(0, 300)
        self.consts[name] = v
        fw = g.chance(self.forward) if forward is None else forward
        if fw or self.ctx:
            self.pending_consts.append((name, v))
        else:
            self.define_const(name, v)
        return name

    def define_const(self, name, v):
        eq = self.g.pick(["equ", "EQU", "="])
        self.lines.append("%s %s %s" % (name, eq, self.num(v)))

    def value(self, v, depth=2, sym=True, group="[]"):
        """An expression whose value is v."""
        g = self.g
        o, c = group
        if sym and depth > 0 and g.chance(35):
            n = self.const() if g.chance(60) or not self.setvars else g.pick(sorted(self.setvars))
            cv = self.consts[n] if n in self.consts else self.setvars[n]
            if cv == v:
                return n
            if v > cv:
                return "%s+%s" % (n, self.num(v - cv))
            return "%s-%s" % (n, self.num(cv - v))
        if depth > 0 and g.chance(25):
            k = g.int(0, 9)
            a = g.int(0, 500)
            if k == 0:
                return "%s+%s" % (self.num(v - a), self.num(a))
            if k == 1:
                return "%s-%s" % (self.num(v + a), self.num(a))
            if k == 2:
                m = g.int(1, 9)
                return "%s%s*%s%s/%s" % (o, self.num(v), self.num(m), c, self.num(m))
            if k == 3 and v >= 0:
                m = g.int(0, 7)
                return "%s>>%s" % (self.num((v << m) | g.int(0, (1 << m) - 1)), self.num(m))
            if k == 4 and 0 <= v <= 255:
                return "<" + self.num(v + 256 * g.int(0, 255))
            if k == 5 and 0 <= v <= 255:
                return ">" + self.num(v * 256 + g.int(0, 255))
            if k == 6:
                return "%s^%s" % (self.num(v ^ a), self.num(a))
            if k == 7:
                return "%s%s==%s%s?%s" % (o, self.num(a), self.num(a), c, self.paren(v, o, c))
            if k == 8:
                return "~" + self.num(~v)
            return "%s%s%s" % (o, self.value(v, depth - 1, sym, group), c)
        return self.num(v)

    def paren(self, v, o, c):
        return self.num(v) if v >= 0 else o + self.num(v) + c

    def label_ref(self):
        """Name of a global label, placed already or later."""
        g = self.g
        if g.chance(self.forward) or not self.labels:
            if self.pending_labels and g.chance(40):
                return g.pick([n for n, _ in self.pending_labels])
            name = self.fresh()
            self.pending_labels.append((name, self.stmts + g.int(1, 6)))
            return name
        return g.pick(self.labels)

    def near_label(self):
        """A label that is close enough for a branch."""
        g = self.g
        if self.labels and self.labels[-1] and g.chance(40) and not self.far:
            return g.pick(self.labels[-3:]) if len(self.labels) >= 3 else self.labels[-1]
        if any(c in ("macro", "repeat") for c in self.ctx):
            return ".+%s" % self.num(g.int(-40, 40)) if g.chance(50) else "*"
        name = self.fresh()
        self.pending_labels.append((name, self.stmts + g.int(0, 4)))
        return name

    far = False

    # -------------------------------------------------------------- lines
    def add(self, label, mnem, arg="", comment=None):
        g = self.g
        odd = g.chance(self.style)
        lab = label or ""
        if odd:
            if mnem and g.chance(50):
                base, dot, ext = mnem.partition(".")
                k = g.int(0, 2)
                mnem = (base.upper() if k == 0 else base.capitalize() if k == 1 else base) + dot + ext
            if lab and g.chance(40) and "," not in lab:
                lab += ":"
            if lab and g.chance(20):
                lab = " ^" + lab
            sep = g.pick(["  ", "\t", " \t ", "    "])
            s = lab + sep + mnem + (g.pick([" ", "\t", "   "]) + arg if arg else "")
            if g.chance(30):
                s += g.pick(["  ", "\t", " "])
            if g.chance(50):
                s += g.pick([" ; note", ";x,y,\"z", " ; 'q", ";"])
        else:
            s = lab + " " + mnem + (" " + arg if arg else "")
        self.lines.append(s)

    def comment(self):
        g = self.g
        self.lines.append(g.pick(["", "; a comment", "   ", "\t; dc.b 1", " ;'"]
                                 + ["/* block */", "; /* not open"]))

    # -------------------------------------------------------------- statements
    def statement(self, depth):
        g = self.g
        self.stmts += 1
        self.flush_due()
        menu = []
        inmac = "macro" in self.ctx
        inrep = "repeat" in self.ctx
        for k, wt in self.w.items():
            if wt <= 0:
                continue
            if k in ("macro", "repeat", "cond") and depth >= self.maxdepth:
                continue
            if k in ("include", "seg", "org") and (inmac or inrep or depth > 1):
                continue
            if k in ("incbin",) and inrep:
                continue
            if k in ("rorg",) and (self.rorg or depth >= self.maxdepth):
                continue
            if k in ("label", "equ", "eqm") and (inmac or inrep):
                continue
            if k == "org" and self.rorg:
                continue
            if k in ("ins", "branch", "data", "hex", "dv", "incbin", "align") and self.in_bss:
                continue
            if self.budget <= 0 and k in ("data", "ds", "align", "repeat", "macro", "incbin", "org", "include"):
                continue
            menu.append((wt, k))
        kind = g.weighted(menu)
        getattr(self, "s_" + kind)(depth)

    def flush_due(self, all_=False):
        if any(c in ("macro", "repeat", "if") for c in self.ctx):
            return
        g = self.g
        for n, due in list(self.pending_labels):
            if all_ or due <= self.stmts:
                self.pending_labels.remove((n, due))
                self.place(n)
        if all_ or g.chance(15):
            for n, v in list(self.pending_consts):
                if all_ or g.chance(50):
                    self.pending_consts.remove((n, v))
                    self.define_const(n, v)

    def place(self, name):
        self.lines.append(name + ("" if not self.g.chance(self.style * 3) else ":"))
        self.labels.append(name)
        self.far = False

    def take_label(self):
        """Sometimes a label for the statement being written."""
        g = self.g
        if g.chance(12) and not any(c in ("macro", "repeat") for c in self.ctx):
            if self.pending_labels and "if" not in self.ctx:
                n, due = self.pending_labels.pop(0)
            elif "if" not in self.ctx:
                n = self.fresh()
            else:
                return None
            self.labels.append(n)
            return n
        return None

    def spend(self, n):
        self.budget -= n
        self.pos += n
        if n > 60:
            self.far = True

    def s_label(self, depth):
        if "if" in self.ctx:
            return self.s_ins(depth)
        if self.pending_labels:
            n, d = self.pending_labels.pop(0)
            self.place(n)
        else:
            self.place(self.fresh())

    def s_blank(self, depth):
        self.comment()

    def byteval(self):
        g = self.g
        return g.near(-255, 255, 0, 1, 127, 128, 255, -1, -128, -255) if g.chance(25) else g.int(0, 255)

    def wordval(self):
        g = self.g
        return g.near(0, 0xFFFF, 0, 0xFF, 0x100, 0x7FFF, 0xFFFF)

    def addr_expr(self):
        """Some expression for a 16-bit operand, often a label."""
        g = self.g
        k = g.int(0, 9)
        if k < 4:
            e = self.label_ref()
            if g.chance(30):
                e += g.pick(["+1", "-1", "+$10", "+%10"])
            return e
        if k == 4:
            return g.pick([".", "*", ".+3", "*-2"])
        return self.value(g.int(0x100, 0xFFFF))

    def byte_expr(self):
        g = self.g
        k = g.int(0, 9)
        if k < 2:
            return g.pick(["<", ">"]) + self.label_ref()
        if k == 2 and self.setvars:
            return "<" + g.pick(sorted(self.setvars))
        return self.value(g.int(0, 255))

    def operand(self, mnem, mode, ent):
        """-> (extension or '', operand text)"""
        g = self.g
        wide = {"WORDADR": "BYTEADR", "WORDADRX": "BYTEADRX", "WORDADRY": "BYTEADRY", "WORDADR_SP": "BYTEADR_SP"}
        modes = ent["modes"]
        ext = ""
        if mode == "IMP":
            return "", ""
        if mode == "IMM8":
            k = g.int(0, 5)
            if k == 0:
                e = g.pick(["<", ">"]) + self.label_ref()
            elif k == 1:
                e = "(" + self.value(self.byteval(), group="()") + ")"
            else:
                e = self.value(self.byteval())
            body = "#" + e
        elif mode == "IMM16":
            body = "#" + (self.label_ref() if g.chance(30) else self.value(self.wordval()))
        elif mode in ("BYTEADR", "BYTEADRX", "BYTEADRY", "BYTEADR_SP", "INDBYTE", "INDBYTEX", "INDBYTEY"):
            e = self.zp_expr(1 if mode in ("BYTEADRX", "BYTEADRY") and "0" + mode[-1] in modes else 0)
            body = {
                "BYTEADR": "%s", "BYTEADRX": "%s,x", "BYTEADRY": "%s,y", "BYTEADR_SP": "%s,sp", "INDBYTE": "(%s)",
                "INDBYTEX": "(%s,x)", "INDBYTEY": "(%s),y",
            }[mode] % e
            if mode[:7] == "BYTEADR" and mode != "BYTEADR_SP" and g.chance(12) and mode in modes:
                ext = g.pick(["b", "z", "d"])
                if g.chance(30) and mode[-1] in "XY":
                    ext += mode[-1].lower()
        elif mode in wide:
            w = wide[mode]
            if w in modes and g.chance(25):
                ext = g.pick(["w", "a", "e"])
                if g.chance(30) and mode[-1] in "XY":
                    ext += mode[-1].lower()
                e = self.value(g.int(0, 255)) if g.chance(70) else self.addr_expr()
            elif w in modes:
                e = self.addr_expr() if g.chance(50) else self.value(g.int(0x100, 0xFFFF))
            else:
                e = self.addr_expr() if g.chance(60) else self.value(g.int(0, 0xFFFF))
            body = {"WORDADR": "%s", "WORDADRX": "%s,x", "WORDADRY": "%s,y", "WORDADR_SP": "%s,sp"}[mode] % e
        elif mode in ("INDWORD", "INDWORDX"):
            body = {"INDWORD": "(%s)", "INDWORDX": "(%s,x)"}[mode] % self.addr_expr()
        elif mode in ("0X", "0Y"):
            body = g.pick(["0,", "[5-5],"] + ([] if ent.get("mask") or ent.get("rel") else [","])) + mode[1].lower()
        elif mode == "REL":
            body = self.near_label()
            if ent.get("mask"):
                return "", self.value(g.int(0, 255)) + "," + body
        elif mode == "BYTEREL":
            return "", self.zp_expr(0) + "," + self.near_label()
        elif mode == "BITMOD":
            return "", "%s,%s" % (self.value(g.int(0, 7)), self.zp_expr(0))
        elif mode == "BITBRAMOD":
            return "", "%s,%s,%s" % (self.value(g.int(0, 7)), self.zp_expr(0), self.near_label())
        else:
            raise AssertionError(mode)
        if ent.get("mask"):
            body += "," + self.value(g.int(0, 255))
        if ent.get("rel"):
            body += "," + self.near_label()
        if mode.endswith(("X", "Y", "_SP")) and not ext and g.chance(20):
            body = body.replace(",x", ",X").replace(",y", ",Y").replace(",sp", ",SP")
        if "(" in body[:1] and self.cpu == "65c02" and body.endswith(")") is False and mode == "INDBYTE":
            raise Skip("operand form")
        return ext, body

    def zp_expr(self, lo):
        g = self.g
        if g.chance(15):
            n = self.fresh()
            v = g.int(max(lo, 1), 255)
            self.consts[n] = v
            self.pending_consts.append((n, v))
            return n
        return self.value(g.int(lo, 255))

    def s_ins(self, depth, pairs=None):
        g = self.g
        lab = self.take_label()
        if self.cpu == "f8":
            m, a = self.f8_ins()
            self.spend(3)
            return self.add(lab, m, a)
        m, mode = g.pick(pairs or PLAIN[self.cpu])
        ext, body = self.operand(m, mode, TABLES[self.cpu][m])
        self.spend(5)
        g.tag("mode " + mode)
        self.add(lab, m + ("." + ext if ext else ""), body)

    def f8_ins(self):
        g = self.g
        k = g.int(0, 8)
        if k == 0:
            return g.pick(sorted(F8_IMPLIED)), ""
        if k == 1:
            return g.pick(sorted(F8_BYTE)), self.byte_expr()
        if k == 2:
            return g.pick(sorted(F8_WORD)), self.addr_expr()
        if k == 3:
            return g.pick(sorted(F8_SREG)), self.f8_reg()
        if k == 4:
            return g.pick(["ins", "outs", "lis"]), self.value(g.int(0, 15))
        if k == 5:
            return g.pick(["lisl", "lisu"]), self.value(g.int(0, 7))
        if k == 6:
            return g.pick(["sl", "sr"]), self.value(g.pick([1, 4]))
        names = {"A": ["a"], "DC0": ["dc0", "dc"], "P0": ["p0", "pc0"], "P1": ["p", "pc1"]}
        if k == 7:
            d, s = g.pick(sorted(F8_LR, key=str))

            def nm(r):
                if r == 9:
                    return g.pick(["j", "J"])
                return g.pick(names.get(r, [r.lower(), r]))

            return "lr", nm(d) + "," + nm(s)
        r = self.f8_reg()
        return "lr", ("a," + r) if g.chance(50) else (r + "," + "A")

    def f8_reg(self):
        g = self.g
        if g.chance(40):
            return g.pick(["s", "(is)", "i", "(IS)+", "d", "(is)-", "j", "hu", "hl", "HU", "S"])
        return self.value(g.int(0, 14))

    def s_branch(self, depth):
        g = self.g
        lab = self.take_label()
        if self.cpu == "f8":
            m = g.pick(sorted(F8_BRANCH) + ["bf", "bt"])
            t = self.near_label()
            if m in ("bf", "bt"):
                t = self.value(g.int(0, 15 if m == "bf" else 7)) + "," + t
            self.spend(2)
            return self.add(lab, m, t)
        m, mode = g.pick(RELS[self.cpu])
        ext, body = self.operand(m, mode, TABLES[self.cpu][m])
        self.spend(5)
        self.add(lab, m, body)

    def text(self, n=None):
        g = self.g
        alpha = "abcXYZ 019 ,:<>+-#$%&!?_.()[]=~^|"
        return "".join(g.pick(alpha) for _ in range(n or g.int(1, 8)))

    def s_data(self, depth):
        g = self.g
        lab = self.take_label()
        if self.cpu == "f8":
            d = g.pick(["dc", "dc.b", "dc.w", "dc.l", "dc.s", "byte", "word", "long", "db", "dw", "dd"])
        else:
            d = g.pick(["dc.b", "dc.w", "dc", ".byte", "byte", ".word", "word", "long", ".long", "dc.l", "dc.s"])
        sz = 1
        if d.endswith((".w", "word", ".s", "dw")):
            sz = 2
        elif d.endswith((".l", "long", "dd")):
            sz = 4
        items = []
        for _ in range(g.int(1, 5)):
            if g.chance(15):
                t = self.text()
                items.append('"%s"' % t)
                self.spend(sz * len(t))
                continue
            self.spend(sz)
            if sz == 1:
                items.append(self.value(self.byteval()) if g.chance(60) else self.byte_expr())
            elif sz == 2:
                items.append(self.addr_expr() if g.chance(50) else self.value(g.int(-0x8000, 0xFFFF)))
            else:
                items.append(self.addr_expr() if g.chance(40) else self.value(g.int(-0x80000000, 0x7FFFFFFF), depth=0))
        self.add(lab, d, g.pick([",", ", ", ","]).join(items))

    def s_hex(self, depth):
        g = self.g
        n = g.int(1, 6)
        self.spend(n)
        self.add(self.take_label(), "hex", g.pick(["", " "]).join("%02x" % g.int(0, 255) for _ in range(n)))

    def s_ds(self, depth):
        g = self.g
        n = g.int(0, 9)
        d = g.pick(["ds", "ds.b", "ds.w", "ds.l"])
        if self.cpu == "f8":
            d = d.replace("ds", "res")
        self.spend(n * 4)
        arg = self.value(n) if not self.ctx or True else str(n)
        if g.chance(50):
            arg += "," + self.value(g.int(0, 255) if d in ("ds", "ds.b", "res", "res.b") else g.int(0, 0xFFFF))
        self.add(self.take_label(), d, arg)

    def s_align(self, depth):
        g = self.g
        n = g.pick([2, 4, 8, 16, 3, 5, 1, 10])
        self.spend(n)
        arg = self.value(n, sym=g.chance(30))
        if g.chance(50):
            arg += "," + self.value(g.int(0, 255))
        self.add(self.take_label(), "align", arg)

    def s_org(self, depth):
        g = self.g
        fill = ""
        if g.chance(40):
            fill = "," + self.value(g.int(0, 255), sym=False)
        k = g.int(0, 3)
        if k <= 1:
            n = g.int(0, 40)
            self.spend(n)
            e = "%s+%s" % (g.pick([".", "*"]), self.value(n, depth=1))
        elif self.fmt == 2 and g.chance(50):
            e = self.num(g.int(0, 0xF000))
            self.far = True
        else:
            self.pos += g.int(0, 300)
            e = self.value(self.base + self.pos, depth=1)
            self.far = True
        if self.in_bss:
            fill = ""
        form = g.int(0, 9)
        if form == 0 and not fill:
            self.lines.append(g.pick([". = ", "* = ", ". equ "]) + e)
        else:
            self.add(self.take_label(), "org", e + fill)

    def s_equ(self, depth):
        g = self.g
        k = g.int(0, 4)
        if k == 0:
            n = self.fresh()
            self.lines.append("%s equ %s" % (n, self.label_ref()))
            self.labels.append(n)
        elif k == 1:
            n = self.fresh()
            self.lines.append("%s = %s" % (n, g.pick([".", "*", ".+2"])))
            self.labels.append(n)
        else:
            self.const(forward=False)

    def s_set(self, depth):
        g = self.g
        if self.setvars and g.chance(60):
            n = g.pick(sorted(self.setvars))
        else:
            n = self.fresh()
        if any(c in ("macro", "repeat", "if") for c in self.ctx):
            # keep the model of the value simple: only count up
            if n in self.setvars:
                del self.setvars[n]
                self.lines.append("%s set %s+%d" % (n, n, g.int(1, 3)))
            else:
                self.lines.append("%s set %s" % (n, self.num(g.int(0, 255))))
            return
        if n in self.setvars and g.chance(50):
            d = g.int(1, 9)
            self.setvars[n] += d
            self.lines.append("%s SET %s+%d" % (n, n, d))
        else:
            v = g.int(0, 255)
            self.setvars[n] = v
            self.lines.append("%s set %s" % (n, self.num(v)))

    def s_eqm(self, depth):
        g = self.g
        if self.eqms and g.chance(60):
            n = g.pick(self.eqms)
            self.spend(2)
            return self.add(None, "dc.w", n + g.pick(["", "+1", "*2"]))
        n = self.fresh()
        e = g.pick([".+1", "*", "[.&$ff]+2", "3+4"])
        if self.setvars and g.chance(50):
            e = g.pick(sorted(self.setvars)) + "+1"
        self.lines.append("%s eqm %s" % (n, e))
        self.eqms.append(n)

    def s_dv(self, depth):
        g = self.g
        n = self.fresh()
        self.lines.append("%s eqm %s" % (n, g.pick(["..+1", "[..*2]&255", "255-..", "..^$55", "<[..+.]"])))
        k = g.int(1, 4)
        self.spend(k * 2)
        self.add(None, g.pick(["dv", "dv.w"]), n + " " + ",".join(self.num(g.int(0, 120), True) for _ in range(k)))

    def s_setstr(self, depth):
        g = self.g
        n = self.fresh()
        t = "".join(g.pick("abcdeXYZ_") for _ in range(g.int(1, 6)))
        self.lines.append("%s setstr %s" % (n, t))
        self.strs[n] = t
        self.spend(len(t))
        if not self.in_bss:
            self.add(None, "dc.b", n)

    def s_chk(self, depth):
        if self.in_bss:
            return self.s_blank(depth)
        self.spend(2)
        self.add(None, "dc.w", self.g.pick(["...", "...+1", "...&$ff"]))

    def s_seg(self, depth):
        g = self.g
        if not self.in_bss:
            bss = g.chance(60) or self.fmt != 2
            if bss:
                self.seg_return = self.cur_seg
                nm = g.pick(["vars", "ram", "Zp"])
                first = nm not in self.segs_seen
                self.lines.append(" seg%s %s" % (g.pick([".u", ".u", ".U"]) if first or g.chance(50) else "", nm))
                if first or g.chance(20):
                    self.lines.append(" org " + self.num(g.pick([0, 0x80, 0x200])))
                if "if" not in self.ctx:
                    self.segs_seen.add(nm)
                self.in_bss = True
                self.bss_left = g.int(1, 4)
                for _ in range(self.bss_left):
                    n = self.fresh()
                    self.labels.append(n)
                    self.lines.append("%s %s%s %d" % (n, "res" if self.cpu == "f8" else "ds", g.pick(["", ".w"]), g.int(0, 20)))
                if g.chance(20):
                    m = self.fresh()
                    self.labels.append(m)
                    self.lines.append(m + " dc.w 1,2")
                self.in_bss = False
                self.lines.append(" seg " + self.cur_seg)
                return
            nm = g.pick(["code", "data", "rom2"])
            first = nm not in self.segs_seen
            self.lines.append(" seg " + nm)
            if first:
                self.segs_seen.add(nm)
                self.lines.append(" org " + self.num(g.int(0, 0xF000)))
            self.cur_seg = nm
            self.far = True

    def s_rorg(self, depth):
        g = self.g
        self.rorg = True
        self.add(None, "rorg", self.value(g.pick([0, 0x10, 0x100, 0x2000, 0xE000, 0x1FF00 if self.cpu != "f8" else 0xF100])) if g.chance(85) else self.value(g.int(0, 0xFF00)))
        self.far = True
        if g.chance(60) and not self.ctx:
            self.place(self.fresh())
        self.block(depth + 1, g.int(1, 4))
        if not self.ctx:
            for n, due in list(self.pending_labels):
                self.pending_labels.remove((n, due))
                self.place(n)
        self.add(None, "rend")
        self.rorg = False
        self.far = True

    def block(self, depth, n):
        for _ in range(n):
            self.statement(depth)

    def sub(self, ctx, depth, n):
        """Statements in their own list, for blocks."""
        save = self.lines, self.locals, self.labels
        self.lines = []
        self.ctx.append(ctx)
        self.block(depth, n)
        self.ctx.pop()
        out = self.lines
        self.lines, self.locals, self.labels = save
        return out

    def s_repeat(self, depth):
        g = self.g
        n = g.pick([0, 1, 2, 3, 4, 2]) if g.chance(92) else -g.int(1, 3)
        b0 = self.budget
        save_set = dict(self.setvars)
        body = self.sub("repeat", depth + 1, g.int(1, 3))
        used = b0 - self.budget
        self.spend(used * max(0, n - 1))
        for k in list(self.setvars):
            if save_set.get(k) != self.setvars[k]:
                del self.setvars[k]
        if g.chance(30) and depth < 2 and not self.in_bss:
            v = self.fresh()
            self.lines.append("%s set %s" % (v, self.num(g.int(0, 9))))
            body = body + ["%s set %s+1" % (v, v), " dc.b <" + v]
            self.spend(max(n, 0))
        count = self.value(n, depth=1)
        if self.sure_loops:
            count = str(n) if n >= 0 else "0-%d" % -n
        self.add(None, "repeat", count)
        self.lines += body
        self.add(None, "repend")
        self.far = True

    def s_cond(self, depth):
        g = self.g
        k = g.int(0, 7)
        other = self.junk(depth)
        save_set, b0 = dict(self.setvars), self.budget
        good = self.sub("if", depth + 1, g.int(0, 3))
        for kk in list(self.setvars):
            if save_set.get(kk) != self.setvars[kk]:
                del self.setvars[kk]
        if k <= 3:
            truth = g.chance(50)
            cond = self.truth_expr(truth)
            head = "if " + cond
        else:
            if g.chance(50) or not self.consts:
                known, nm = False, self.fresh() + "_undef"
            else:
                cands = [n for n in self.consts if n not in [p for p, _ in self.pending_consts]] or None
                if not cands:
                    known, nm = False, self.fresh() + "_undef"
                else:
                    known, nm = True, g.pick(sorted(cands))
            d = g.pick(["ifconst", "ifnconst", "ifndef"])
            truth = known if d == "ifconst" else not known
            head = "%s %s" % (d, nm)
        self.add(None, head.split(" ", 1)[0], head.split(" ", 1)[1])
        if truth:
            self.lines += good
            if g.chance(60):
                self.add(None, "else")
                self.lines += other
        else:
            self.lines += other
            if g.chance(80):
                self.add(None, "else")
                self.lines += good
        self.add(None, g.pick(["endif", "eif", "endif"]))

    def truth_expr(self, truth):
        g = self.g
        a, b = g.int(0, 300), g.int(0, 300)
        ops = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}
        op = g.pick(sorted(ops))
        e = "%s%s%s" % (self.value(a, depth=1), op, self.value(b, depth=1)) if False else "[%s]%s[%s]" % (
            self.value(a, depth=1), op, self.value(b, depth=1))
        if ops[op] == truth:
            return e
        return "![%s]" % e

    def junk(self, depth):
        """Lines for a branch that is not taken: anything goes, nested blocks included."""
        g = self.g
        out = []
        for _ in range(g.int(0, 3)):
            k = g.int(0, 10)
            if k == 0:
                out += [" if %d" % g.int(0, 1)] + self.junk(depth + 1) + ([" else"] + self.junk(depth + 1) if g.chance(40) else []) + [" endif"] if depth < 4 else []
            elif k == 1:
                out += [" repeat %d" % g.int(0, 3), " dc.b 1", " repend"]
            elif k == 2 and "macro" not in self.ctx:
                self.n += 1
                out += [" mac skipped%d" % self.n, " dc.b {1}", " endif" if g.chance(50) else " else", " endm"]
            elif k == 3:
                out.append(" lda #$12345,q")
            elif k == 4:
                out.append(" notamnemonic 1,2")
            elif k == 5:
                out.append(" err")
            elif k == 6:
                out.append(" org 1")
            elif k == 7:
                out.append(" include nosuchfile")
            elif k == 8:
                out.append(g.pick(["lost%d" % g.int(0, 3), " dc.b undefinedsym", "lost set 5", " subroutine", " seg other"]))
            elif k == 9:
                out.append(" end")
            else:
                out.append(" dc.b " + str(g.int(0, 255)))
        return out

    def s_macro(self, depth):
        g = self.g
        if self.macros and g.chance(60):
            self.call(g.pick(self.macros))
            return
        if self.ctx:
            if self.macros:
                self.call(g.pick(self.macros))
            else:
                self.s_ins(depth) if not self.in_bss else self.s_blank(depth)
            return
        self.n += 1
        name = g.pick(["mac{}", "Push{}", "ldx_{}", "m{}"]).format(self.n)
        nargs = g.int(0, 3)
        b0 = self.budget
        far = self.far
        saves = dict(self.setvars), list(self.pending_labels), dict(self.consts)
        self.margs = nargs
        self.setvars = {}
        body = self.sub("macro", depth + 1, g.int(1, 4))
        self.setvars = saves[0]
        cost = b0 - self.budget
        self.budget = b0
        self.far = far
        for i in range(1, nargs + 1):
            k = g.int(0, 4)
            if k == 0:
                body.insert(g.int(0, len(body)), " dc.b <{%d}" % i)
            elif k == 1:
                body.insert(g.int(0, len(body)), " dc.w [{%d}]+1" % i)
            elif k == 2:
                body.insert(g.int(0, len(body)), " dc.b <[{%d}+{%d}]" % (i, g.int(1, nargs)))
            elif k == 3:
                body.insert(g.int(0, len(body)), " if {%d}\n dc.b 7\n else\n dc.b 8\n endif" % i)
            else:
                body.insert(g.int(0, len(body)), " dc.w {%d}" % i)
        if nargs and g.chance(15):
            body.append(" dc.l {0}")
        if g.chance(15):
            body.insert(g.int(0, len(body)), " if %d\n mexit\n endif" % g.int(0, 1))
        if g.chance(30):
            body = [".again" + self.g.pick(["", ":"])] + body + [" dc.w .again"]
        body = [l for b in body for l in b.split("\n")]
        d = [" %s %s" % (g.pick(["mac", "macro", "MAC"]), name)] + body + [" endm"]
        if g.chance(12):
            other = [" mac %s" % name, " err", " endm"]
            d = [" if 1"] + d + [" else"] + other + [" endif"] if g.chance(60) else [" if 0"] + other + [" else"] + d + [" endif"]
        self.lines += d
        self.macros.append((name, nargs, cost + 8))
        if g.chance(80):
            self.call(self.macros[-1])

    def call(self, m):
        g = self.g
        name, nargs, cost = m
        if self.in_bss:
            return self.s_blank(0)
        self.spend(cost)
        args = []
        for _ in range(nargs):
            args.append(g.pick([self.num(g.int(0, 255)), self.value(g.int(0, 255), depth=1), "." if g.chance(50) else "*"])
                        if g.chance(70) else self.label_ref())
        if g.chance(10):
            args.append("99")
        self.add(self.take_label(), name if g.chance(80) else name.upper(), g.pick([",", ", ", ","]).join(args))

    def s_include(self, depth):
        g = self.g
        self.n += 1
        fn = g.pick(["inc{}.h", "part{}.asm", "d{}/x.inc"]).format(self.n)
        save = self.lines
        self.lines = []
        self.block(depth + 2, g.int(1, 4))
        body = self.lines
        self.lines = save
        self.files[fn] = "\n".join(body) + g.pick(["\n", "", "\n\n"])
        self.add(self.take_label(), "include", '"%s"' % fn)

    def s_incbin(self, depth):
        g = self.g
        self.n += 1
        fn = "bin%d.dat" % self.n
        data = bytes(g.int(0, 255) for _ in range(g.int(1, 12)))
        self.files[fn] = {"hex": data.hex()}
        skip = ""
        if g.chance(40):
            skip = "," + self.num(g.int(0, len(data) - 1))
        self.spend(len(data))
        self.add(self.take_label(), "incbin", '"%s"%s' % (fn, skip))

    def s_sub(self, depth):
        if any(c in ("macro", "repeat") for c in self.ctx):
            self.lines.append(" subroutine")
        else:
            n = self.fresh() if "if" not in self.ctx and self.g.chance(60) else ""
            if n:
                self.labels.append(n)
            self.lines.append("%s subroutine" % n)
        self.locals = []

    def s_local(self, depth):
        g = self.g
        if "repeat" in self.ctx:
            self.lines.append(" subroutine")
            self.locals = []
        if "macro" in self.ctx and self.ctx[-1] != "macro":
            return self.s_blank(depth) if self.in_bss else self.s_ins(depth)
        if "if" in self.ctx:
            return self.s_blank(depth)
        free = [n for n in (".a", ".b1", ".loop", ".Skip") if n not in self.locals]
        if not free:
            self.lines.append(" subroutine")
            self.locals = []
            free = [".a"]
        n = g.pick(free)
        self.locals.append(n)
        if self.in_bss:
            self.lines.append(n)
            return
        self.spend(4)
        if g.chance(50):
            self.lines.append("%s dc.w %s" % (n, n))
        else:
            self.lines.append(" dc.w %s" % n)
            self.lines.append(n)

    def s_dollar(self, depth):
        g = self.g
        if self.in_bss or "if" in self.ctx or "repeat" in self.ctx or "macro" in self.ctx:
            return self.s_blank(depth)
        self.place(self.fresh())
        k = g.int(1, 3)
        self.spend(4)
        for i in range(k):
            n = "%d$" % (i * 10 + 1)
            if g.chance(50):
                self.lines.append("%s dc.w %s" % (n, n))
            else:
                self.lines += [" dc.w %s" % n, n]

    def s_dyn(self, depth):
        g = self.g
        if self.in_bss or any(c in ("macro", "repeat", "if") for c in self.ctx):
            return self.s_blank(depth)
        self.n += 1
        base = "dyn%d_" % self.n
        i = g.int(0, 99)
        v = self.fresh()
        self.lines.append("%s set %d" % (v, i))
        k = g.int(0, 2)
        self.spend(2)
        if k == 0:
            self.lines += ["%s,%s dc.w %s%d" % (base, v, base, i)]
        elif k == 1:
            self.lines += ['%s,%s,"z" = 5' % (base, v), " dc.b %s%dz" % (base, i)]
        else:
            self.lines += ["%s%d = %d" % (base, i, g.int(0, 255)), "got%d set %s,%s" % (self.n, base, v), " dc.b got%d" % self.n]

    def s_echo(self, depth):
        g = self.g
        items = [g.pick(['"%s"' % self.text(), self.num(g.int(0, 999))]) for _ in range(g.int(1, 3))]
        self.lines.append(" echo " + ",".join(items))

    def s_lst(self, depth):
        self.lines.append(" list " + self.g.pick(["on", "off", "localoff", "localon"]))

    # -------------------------------------------------------------- whole programs
    segs_seen = ()
    cur_seg = "main"

    def header(self):
        g = self.g
        self.segs_seen = set()
        self.base = self.start if self.start is not None else g.pick(
            [0x1000, 0, 0x80, 0xF0, 0x100, 0x200, 0x8000, 0xC000, 0xEFF0, 0xFF80 if self.cpu == "f8" else 0x12340])
        self.lines.append(" processor " + g.pick(SPELL[self.cpu]))
        if g.chance(40):
            self.cur_seg = "code"
            self.lines.append(" seg code")
        else:
            self.cur_seg = None
        fill = "," + self.num(g.int(0, 255)) if g.chance(15) else ""
        if g.chance(15):
            n = self.fresh()
            self.consts[n] = self.base
            self.pending_consts.append((n, self.base))
            self.lines.append(" org %s%s" % (n, fill))
        else:
            self.lines.append(" org %s%s" % (self.num(self.base), fill))
        if self.cur_seg is None:
            self.w["seg"] = 0

    def body(self):
        while self.stmts < self.maxstmts:
            self.statement(0)

    def close(self):
        self.flush_due(all_=True)
        g = self.g
        if g.chance(5):
            self.lines += [" end", " this is not read", " err"]

    def generate(self):
        self.header()
        self.body()
        self.close()
        return self

    def source(self):
        return "\n".join(self.lines) + "\n"


def ref_run(files, main, fmt, **kw):
    raw = {n: (bytes.fromhex(d["hex"]) if isinstance(d, dict) else d.encode("latin-1")) for n, d in files.items()}
    return RefAsm(raw, main, fmt, **kw).run()


def pass_args(res):
    return ["-P30"] if res.passes >= 3 else []


def simple_case(g, files, fmt=1, main="main.asm", defs=(), incdirs=(), strict=False, extra=(), maxsize=640 * 1024,
                more_expect=None, must=None, passes=True):
    """One run judged by the reference assembler."""
    res = ref_run(files, main, fmt, defs=list(defs), incdirs=list(incdirs), strict=strict, maxsize=maxsize)
    if must is True and not res.ok:
        raise Skip("meant to be valid: %s" % res.reason)
    if must is False and res.ok:
        raise Skip("meant to be rejected")
    args = [main, "-f%d" % fmt, "-oo.bin"] + ["-I" + d for d in incdirs] + ["-%s%s" % d for d in defs]
    if strict:
        args.append("-S")
    args += list(extra)
    if passes or res.ok:
        args += pass_args(res)
    exp = {"exit": 0 if res.ok else "nz"}
    if res.ok:
        exp["out"] = {"file": "o.bin", "hex": res.image.hex()}
        g.tag("accepted", "passes %d" % res.passes, "format %d" % fmt)
        if more_expect:
            exp.update(more_expect(res))
    else:
        g.tag("rejected", "reject: " + res.reason.split(":")[0] + ":" + res.reason.partition(":")[2][:24])
    c = Case(files, [{"tool": "dasm", "args": args, "expect": exp}])
    c.res = res
    c.nontrivial = (res.ok and len(res.image) > 2) or not res.ok
    return c


def kitchen(**kw):
    """Generator function for whole programs."""

    def gen(g):
        p = P(g, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        return simple_case(g, files, p.fmt)

    return gen
