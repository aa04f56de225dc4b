"""Reference assembler: an independent, executable reading of the dasm manual.

It takes the same source text as the program under test and says what the
output image, the symbol values, the listing and the printed messages have to
be.  It is written for clarity, works on whole lines and blocks instead of a
character machine, and shares no code with the program under test.

`OutOfModel` is raised for constructs whose meaning the manual leaves open (or
that this model does not cover); generators are built so that this is rare and
every occurrence is counted as a discarded case.
"""

import functools
import json
import os
import re
import sys

LIM = 1 << 31


class OutOfModel(Exception):
    pass


class Abort(Exception):
    """The assembly stops at once."""


class MacroExit(Exception):
    pass


class EndOfFile(Exception):
    pass


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "optables.json")) as _f:
    TABLES = {
        cpu: {n: {**e, "modes": {m: int(o, 16) for m, o in e["modes"].items()}} for n, e in d.items()}
        for cpu, d in json.load(_f).items()
    }

CPU_NAMES = {
    "6502": "6502", "65c02": "65c02", "65C02": "65c02", "6803": "6803",
    "HD6303": "hd6303", "hd6303": "hd6303", "68705": "68705",
    "68HC11": "68hc11", "68hc11": "68hc11", "F8": "f8", "f8": "f8",
    "68908": "68hc908", "68hc908": "68hc908",
}

OPSIZE = {
    "IMP": 0, "IMM8": 1, "IMM16": 2, "BYTEADR": 1, "BYTEADRX": 1, "BYTEADRY": 1,
    "WORDADR": 2, "WORDADRX": 2, "WORDADRY": 2, "REL": 1, "BYTEREL": 1,
    "INDBYTEX": 1, "INDBYTEY": 1, "INDWORD": 2, "INDWORDX": 2, "INDBYTE": 1,
    "0X": 0, "0Y": 0, "BYTEADR_SP": 1, "WORDADR_SP": 2,
}

# ------------------------------------------------------------------ expressions

BINPRI = {
    "*": 20, "/": 20, "%": 20, "+": 19, "-": 19, ">>": 18, "<<": 18,
    ">": 17, ">=": 17, "<": 17, "<=": 17, "==": 16, "=": 16, "!=": 16,
    "&": 15, "^": 14, "|": 13, "&&": 12, "||": 11, "?": 10,
}
_BINOPS = sorted(BINPRI, key=len, reverse=True)
_SYM = re.compile(r"[A-Za-z_.@][A-Za-z0-9_.@]*\$?")
_DOLSYM = re.compile(r"[0-9]+\$")


class ExprSyntax(Exception):
    pass


class _P:
    def __init__(self, s, parens):
        self.s, self.i, self.parens = s, 0, parens

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == " ":
            self.i += 1

    def expr(self, minpri):
        left = self.prefix()
        while True:
            self.ws()
            op = next((o for o in _BINOPS if self.s.startswith(o, self.i)), None)
            if op is None or BINPRI[op] <= minpri:
                return left
            self.i += len(op)
            right = self.expr(BINPRI[op])
            left = ("b", "==" if op == "=" else op, left, right)

    def prefix(self):
        self.ws()
        if self.i >= len(self.s):
            raise ExprSyntax("operand missing")
        c = self.s[self.i]
        if c in "-~!<>":
            self.i += 1
            return ("u", c, self.prefix())
        if c == "*":
            self.i += 1
            return ("sym", ".")
        if c == "[" or (c == "(" and self.parens):
            close = "]" if c == "[" else ")"
            self.i += 1
            e = self.expr(0)
            self.ws()
            if self.i >= len(self.s) or self.s[self.i] != close:
                raise ExprSyntax("bracket")
            self.i += 1
            if self.s.startswith("d", self.i):
                self.i += 1
                return ("d", e)
            return e
        if c == "$":
            return self.number(1, "0123456789abcdefABCDEF", 16)
        if c == "%":
            return self.number(1, "01", 2)
        if c == "'":
            ch = self.s[self.i + 1 : self.i + 2] or " "
            self.i += 2
            return ("n", ord(ch))
        if c == '"':
            j = self.s.find('"', self.i + 1)
            if j < 0:
                raise ExprSyntax("string")
            t = self.s[self.i + 1 : j]
            self.i = j + 1
            return ("s", t)
        m = _DOLSYM.match(self.s, self.i)
        if m:
            self.i = m.end()
            return ("sym", m[0])
        if self.s.startswith("0x", self.i):
            return self.number(2, "0123456789abcdefABCDEF", 16)
        if c == "0":
            return self.number(0, "01234567", 8)
        if c.isdigit():
            return self.number(0, "0123456789", 10)
        m = _SYM.match(self.s, self.i)
        if m:
            self.i = m.end()
            return ("sym", m[0])
        raise ExprSyntax("character " + c)

    def number(self, skip, digits, base):
        j = self.i + skip
        k = j
        while k < len(self.s) and self.s[k] in digits:
            k += 1
        if k == j:
            raise OutOfModel("number without digits")
        if k < len(self.s) and (self.s[k].isalnum() or self.s[k] in "_.@$"):
            raise ExprSyntax("number runs into a word")
        self.i = k
        return ("n", int(self.s[j:k], base))


@functools.lru_cache(maxsize=20000)
def parse_list(s, parens=True):
    """Comma separated expressions -> tuple of ASTs (a string alone stays a string)."""
    p = _P(s, parens)
    out = []
    while True:
        out.append(p.expr(0))
        p.ws()
        if p.i >= len(s):
            return tuple(out)
        if s[p.i] != ",":
            raise ExprSyntax("trailing text")
        p.i += 1
        if not s[p.i :].strip():
            raise OutOfModel("operand list ends with a comma")


def split_top(s):
    """Split an operand at commas outside strings, character constants and brackets."""
    out, depth, i, cur = [], 0, 0, ""
    while i < len(s):
        c = s[i]
        if c == '"':
            j = s.find('"', i + 1)
            j = len(s) - 1 if j < 0 else j
            cur += s[i : j + 1]
            i = j + 1
            continue
        if c == "'":
            cur += s[i : i + 2]
            i += 2
            continue
        if c in "[(":
            depth += 1
        elif c in "])":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    out.append(cur)
    return out


class Val:
    __slots__ = ("v", "u", "s")

    def __init__(self, v, u=False, s=None):
        self.v, self.u, self.s = v, u, s


def chk(v):
    if not -LIM <= v < LIM:
        raise OutOfModel("beyond 32 bits")
    return v


# ------------------------------------------------------------------------ lines


class Line:
    __slots__ = ("label", "dyn", "mnem", "ext", "arg", "comment", "dotted", "hash")


_BADQUOTE = "unterminated string"


def strip_comment(s):
    """(code, comment or None) with tabs as spaces, honouring strings and character constants."""
    i = 0
    out = []
    while i < len(s):
        c = s[i]
        if c == ";":
            return "".join(out).rstrip(" "), s[i + 1 :]
        if c == "\t":
            out.append(" ")
            i += 1
            continue
        if c == "'":
            n = s[i + 1 : i + 2] or " "
            out.append("'" + ("\x80" if n in " \t" else n))
            i += 2
            continue
        if c == '"':
            j = s.find('"', i + 1)
            if j < 0:
                raise ExprSyntax(_BADQUOTE)
            out.append(s[i : j + 1].replace(" ", "\x80"))
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out).rstrip(" "), None


@functools.lru_cache(maxsize=50000)
def parse_line(text):
    """One source line, comments and macro arguments already gone."""
    ln = Line()
    ln.comment = None
    ln.dyn = ()
    ln.hash = False
    s = text
    t = s.lstrip(" ")
    if t.startswith("^"):
        s = t[1:].lstrip(" ")
    elif t.startswith("#"):
        s = " " + t[1:]
    lab, dyn, i = "", [], 0
    while i < len(s) and s[i] not in " =:":
        if s[i] == ",":
            j = i + 1
            if s[j : j + 1] == '"':
                k = s.find('"', j + 1)
                if k < 0:
                    raise ExprSyntax(_BADQUOTE)
                if re.search("[,:]", s[j + 1 : k]):
                    raise ExprSyntax("label argument")
                dyn.append(("s", s[j + 1 : k].replace("\x80", " ")))
                i = k + 1
            else:
                k = j
                while k < len(s) and s[k] not in " =,:":
                    k += 1
                dyn.append(("e", s[j:k]))
                i = k
            continue
        if dyn:
            raise OutOfModel("text after dynamic label argument")
        lab += s[i]
        i += 1
    if i < len(s) and s[i] == ":":
        i += 1
    ln.label, ln.dyn = lab, tuple(dyn)
    rest = s[i:].lstrip(" ")
    if rest.startswith("="):
        mn, arg = "=", rest[1:]
    else:
        mn, _, arg = rest.partition(" ")
    ln.dotted = mn.startswith(".") and len(mn) > 1
    ln.ext = None
    if mn != "=":
        if ln.dotted:
            mn = mn[1:]
        else:
            mn, dot, ext = mn.partition(".")
            if dot:
                ln.ext = ext
    ln.mnem = mn.lower()
    ln.arg = re.sub(" +", " ", arg.lstrip(" ")).replace("\x80", " ")
    return ln


def force_of(ext):
    """Forced mode of an extension (documented table)."""
    if ext is None or ext == "":
        return None
    e = ext.lower()
    c, d = e[0], e[1:2]
    if c == "s":
        return "SWAP"
    if c in "0i":
        return {"x": "0X", "y": "0Y", "n": "INDWORD"}.get(d, "IMP")
    if c in "dbz":
        return {"x": "BYTEADRX", "y": "BYTEADRY", "i": "BITMOD", "b": "BITBRAMOD"}.get(d, "BYTEADR")
    if c in "ewa":
        return {"x": "WORDADRX", "y": "WORDADRY"}.get(d, "WORDADR")
    if c == "l":
        return "LONG"
    if c == "r":
        return "REL"
    if c == "u":
        return "BSS"
    raise OutOfModel("extension " + ext)


IFS = ("if", "ifconst", "ifnconst", "ifndef")
ENDIFS = ("endif", "eif")

F8_IMPLIED = {
    "adc": 0x8E, "am": 0x88, "amd": 0x89, "clr": 0x70, "cm": 0x8D, "com": 0x18, "di": 0x1A,
    "ei": 0x1B, "inc": 0x1F, "lm": 0x16, "lnk": 0x19, "nm": 0x8A, "nop": 0x2B, "om": 0x8B,
    "pk": 0x0C, "pop": 0x1C, "st": 0x17, "xdc": 0x2C, "xm": 0x8C,
}
F8_BYTE = {"ai": 0x24, "ci": 0x25, "in": 0x26, "li": 0x20, "ni": 0x21, "oi": 0x22, "out": 0x27, "xi": 0x23}
F8_WORD = {"dci": 0x2A, "jmp": 0x29, "pi": 0x28}
F8_SREG = {"as": 0xC0, "asd": 0xD0, "ds": 0x30, "ns": 0xF0, "xs": 0xE0}
F8_BRANCH = {
    "bc": 0x82, "bm": 0x91, "bnc": 0x92, "bno": 0x98, "bnz": 0x94, "bp": 0x81, "br": 0x90, "br7": 0x8F, "bz": 0x84,
}
F8_SPECIAL = {
    "a": "A", "dc0": "DC0", "dc": "DC0", "h": "H", "is": "IS", "k": "K", "ku": "KU", "kl": "KL",
    "pc0": "P0", "p0": "P0", "pc1": "P1", "p": "P1", "q": "Q", "qu": "QU", "ql": "QL", "w": "W",
}
F8_SCRATCH = {"s": 12, "(is)": 12, "i": 13, "(is)+": 13, "d": 14, "(is)-": 14, "j": 9, "hu": 10, "hl": 11}
F8_LR = {
    ("A", "IS"): 0x0A, ("A", "KL"): 0x01, ("A", "KU"): 0x00, ("A", "QL"): 0x03, ("A", "QU"): 0x02,
    ("DC0", "H"): 0x10, ("DC0", "Q"): 0x0F, ("H", "DC0"): 0x11, ("IS", "A"): 0x0B, ("K", "P1"): 0x08,
    ("KL", "A"): 0x05, ("KU", "A"): 0x04, ("P0", "Q"): 0x0D, ("P1", "K"): 0x09, ("Q", "DC0"): 0x0E,
    ("QL", "A"): 0x07, ("QU", "A"): 0x06, ("W", 9): 0x1D, (9, "W"): 0x1E,
}
F8_MNEMONICS = (
    set(F8_IMPLIED) | set(F8_BYTE) | set(F8_WORD) | set(F8_SREG) | set(F8_BRANCH)
    | {"bf", "bt", "ins", "outs", "lis", "lisl", "lisu", "lr", "sl", "sr"}
)
DIRECTIVES = {
    "list", "include", "seg", "hex", "err", "dc", "byte", "word", "long", "ds", "dv", "end", "trace", "org", "rorg",
    "rend", "align", "subroutine", "equ", "=", "eqm", "set", "setstr", "setsym", "mac", "macro", "endm", "mexit",
    "ifconst", "ifnconst", "ifndef", "if", "else", "endif", "eif", "repeat", "repend", "echo", "processor", "incbin",
    "incdir",
}


class Seg:
    def __init__(self, name, bss):
        self.name, self.bss = name, bss
        self.org = self.rorg = 0
        self.known = self.rknown = self.inr = False
        self.init = self.rinit = None  # first known origins


class Sym:
    __slots__ = ("v", "u", "s", "eqm", "kind", "refd", "mas")

    def __init__(self):
        self.v, self.u, self.s, self.eqm, self.kind, self.refd = 0, True, None, None, None, False
        self.mas = False

    def key(self):
        return (self.v, self.u, self.s, self.eqm)


class Result:
    ok = False
    reason = None  # text when rejected
    where = None  # (file, line) of the first error
    unresolved = ()
    errors = ()  # [(text, (file, line))] reported by the last pass
    backwards = False  # the origin of a rejected program goes back somewhere
    order = ()  # names in the order of definition
    passes = 0
    loose = False  # a loop count was unknown in an early pass: numbers of local scopes seen then are arbitrary


class RefAsm:
    def __init__(self, files, main="main.asm", fmt=1, defs=(), incdirs=(), strict=False, maxsize=640 * 1024):
        self.files, self.main, self.fmt = files, main, fmt
        self.defs, self.cmd_incdirs, self.strict, self.maxsize = defs, incdirs, strict, maxsize
        self.syms = {}
        self.macros = {}
        self.steps = 0

    # ------------------------------------------------------------ driver
    def run(self, maxpass=40):
        depth = sys.getrecursionlimit()
        sys.setrecursionlimit(max(depth, 40000))  # nested blocks; Hypothesis sets its own limit meanwhile
        try:
            return self.passes(maxpass)
        finally:
            sys.setrecursionlimit(depth)

    def passes(self, maxpass):
        res = Result()
        self.incdirs = list(self.cmd_incdirs)
        self.cpu = None
        self.seg = None
        self.localidx = self.dolidx = 0
        self.special = None
        self.loose = False
        try:
            self.pass_init()
            for kind, text in self.defs:
                name, eq, val = text.partition("=")
                if kind == "M":
                    s = self.syms.setdefault(name, Sym())
                    s.eqm, s.kind, s.u, s.v, s.s = (val if eq else "0"), "eqm", False, 0, None
                else:
                    v = self.ev(parse_list(val if eq else "0")[0])
                    s = self.syms.setdefault(name, Sym())
                    s.v, s.u, s.s, s.kind, s.eqm = v.v, v.u, v.s, "set", None
            prev = None
            for self.passno in range(1, maxpass + 1):
                self.pass_init()
                self.run_file(self.main)
                res.passes = self.passno
                res.loose = self.loose
                if self.ml:
                    raise self.abort("comment not closed")
                if not self.redo:
                    break
                snap = (
                    {n: s.key() for n, s in self.syms.items()},
                    sorted(set(self.redo)), tuple(sorted(self.errors)),
                )
                if snap == prev:
                    res.reason = "unresolvable: " + ",".join(sorted(set(r for r, _ in self.redo)))
                    res.where = self.redo[0][1]
                    res.backwards = self.fmt != 2 and self.backwards()
                    res.unresolved = sorted(n for n, s in self.syms.items() if s.u and s.eqm is None)
                    if self.loose and any(n[:1].isdigit() for n in res.unresolved):
                        raise OutOfModel("local label after a loop of unknown count")
                    return res
                prev = snap
            else:
                raise OutOfModel("does not settle")
        except Abort as e:
            res.reason = "abort: " + str(e)
            res.where = self.where()
            res.errors = self.diags + [(str(e), res.where)]
            res.backwards = self.fmt != 2 and self.backwards()
            return res
        finally:
            res.loose = self.loose
            if not res.errors:
                res.errors = list(getattr(self, "diags", ()))
        res.backwards = self.fmt != 2 and self.backwards()
        if self.errors:
            res.reason = "errors: " + self.errors[0][0]
            res.where = self.errors[0][1]
            return res
        res.ok = True
        res.chunks, res.symbols, res.listing = self.chunks, self.syms, self.listing
        res.echo, res.files_seen = self.echo, self.filelog
        res.warnings = self.warnings
        res.segs = list(self.segs.values())
        res.order = list(self.order)
        try:
            res.image = self.image(self.fmt)
        except Abort as e:
            res.ok = False
            res.reason = "abort: " + str(e)
            res.where = self.reverse_at
            res.errors = self.diags + [(str(e), res.where)]
            res.backwards = self.fmt != 2 and self.backwards()
        return res

    def pass_init(self):
        self.segs = {"": Seg("INITIAL CODE SEGMENT", False)}
        self.seg = self.segs[""]
        self.fill = 255
        self.localidx = self.lastlocal = 0
        self.dolidx = self.lastdol = 0
        self.redo, self.errors, self.echo, self.chunks, self.listing = [], [], [], [], []
        self.warnings, self.diags = [], []
        self.filelog = []
        self.checksum = 0
        self.frames = []
        self.depth = 0
        self.ml = False
        self.defined_here = {}
        self.order = {}
        self.cur = None
        self.total = 0

    def where(self):
        for f in reversed(self.frames):
            if f["kind"] == "file":
                return (f["name"], f["line"])
        return None

    def abort(self, why):
        return Abort(why)

    def error(self, why):
        self.errors.append((why, self.where()))
        self.diags.append(self.errors[-1])

    def again(self, why):
        self.redo.append((why, self.where()))

    # ------------------------------------------------------------ symbols
    def scoped(self, name):
        if name.startswith("."):
            return "%d%s" % (self.localidx, name)
        if name.endswith("$"):
            return "%d$%s" % (self.dolidx, name)
        return name

    def lookup(self, name):
        if name == ".":
            s = self.seg
            if s is None:
                raise OutOfModel("origin before start")
            return Val(s.rorg, not s.rknown) if s.inr else Val(s.org, not s.known)
        if name == "..":
            if self.special is None:
                raise OutOfModel("'..' outside DV")
            return Val(*self.special)
        if name == "...":
            return Val(chk(self.checksum))
        key = self.scoped(name)
        s = self.syms.get(key)
        if s is None:
            s = self.syms[key] = Sym()
        s.refd = s.mas = True
        if s.eqm is not None:
            self.depth += 1
            if self.depth > 200:
                raise OutOfModel("deep EQM")
            try:
                asts = parse_list(s.eqm)
                if len(asts) != 1:
                    raise OutOfModel("EQM list")
                return self.ev(asts[0])
            finally:
                self.depth -= 1
        return Val(s.v, s.u, s.s)

    def ev(self, a):
        k = a[0]
        if k == "n":
            return Val(a[1])
        if k == "s":
            v = 0
            for c in a[1].encode("latin-1"):
                v = (v << 8) | c
            return Val(v, False, a[1])
        if k == "sym":
            r = self.lookup(a[1])
            if r.s is not None:
                return self.ev(("s", r.s))
            return Val(r.v, r.u)
        if k == "d":
            r = self.ev(a[1])
            if r.u:
                return r
            return Val(r.v, False, str(r.v))
        if k == "u":
            r = self.ev(a[2])
            v, op = r.v, a[1]
            if op != "!" and op != "<" and op != "~":
                chk(v)
            v = {"-": lambda: -v, "~": lambda: ~v, "!": lambda: int(v == 0), "<": lambda: v & 255,
                 ">": lambda: (v >> 8) & 255}[op]()
            return Val(v, r.u)
        op = a[1]
        x, y = self.ev(a[2]), self.ev(a[3])
        u = x.u or y.u
        if op == "&&":
            if (not x.u and x.v == 0) or (not y.u and y.v == 0):
                return Val(0)
            return Val(0 if u else 1, u)
        if op == "||":
            if (not x.u and x.v) or (not y.u and y.v):
                return Val(1)
            return Val(0, u)
        if op == "?":
            if x.u:
                return Val(0, True)
            return Val(y.v, y.u) if x.v else Val(0)
        if u:
            return Val(self.guess(op, x.v, y.v), True)
        p, q = chk(x.v), chk(y.v)
        if op == "+":
            r = p + q
        elif op == "-":
            r = p - q
        elif op == "*":
            r = p * q
        elif op == "/":
            if q == 0:
                raise self.abort("division by zero")
            r = abs(p) // abs(q)
            r = -r if (p < 0) != (q < 0) else r
        elif op == "%":
            if q == 0:
                r = p
            else:
                r = abs(p) % abs(q)
                r = -r if p < 0 else r
        elif op in ("<<", ">>"):
            if not 0 <= q < 32:
                raise OutOfModel("shift count")
            if op == "<<" and p < 0:
                raise OutOfModel("shift of negative")
            r = p << q if op == "<<" else p >> q
        elif op == "&":
            r = p & q
        elif op == "|":
            r = p | q
        elif op == "^":
            r = p ^ q
        else:
            r = int({"==": p == q, "!=": p != q, "<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q}[op])
        return Val(chk(r))

    @staticmethod
    def guess(op, p, q):
        """Provisional value while an operand is unknown; only ever used in passes that are repeated."""
        return 0

    def vals(self, text, parens=True):
        if not text.strip():
            raise OutOfModel("directive without operand")
        try:
            return [self.ev(a) for a in parse_list(text, parens)]
        except ExprSyntax as e:
            self.error("syntax: " + str(e))
            return [Val(0)]

    # ------------------------------------------------------------ emission
    def pc(self):
        s = self.seg
        return (s.rorg, s.rknown) if s.inr else (s.org, s.known)

    def label(self, name, when=None):
        s = self.seg
        if self.cur is not None:
            self.cur["addr"], self.cur["bss"], self.cur["known"] = s.org, s.bss, s.known
        if not name:
            return
        if not name.startswith(".") and not name.endswith("$"):
            self.lastdol += 1
            self.dolidx = self.lastdol
        pc, known = self.pc()
        key = self.scoped(name)
        sym = self.syms.get(key)
        if sym is None:
            sym = self.syms[key] = Sym()
        if sym.eqm is not None or sym.s is not None:
            raise OutOfModel("label over string symbol")
        if key in self.defined_here and self.defined_here[key] != (pc, known):
            if not known:
                raise OutOfModel("label twice at an unknown address")
            self.error("label " + name + " twice")
            self.again("label twice")
        self.defined_here[key] = (pc, known)
        self.order.setdefault(key)
        if (sym.v, sym.u) != (pc if known else 0, not known):
            if sym.refd or not sym.u:
                self.again("label moved")
        if not known and sym.refd:
            self.again("label unknown")
        sym.kind = "label"
        sym.v, sym.u = (pc if known else 0), not known

    def emit(self, data):
        s = self.seg
        if not s.known:
            if not s.bss:
                self.again("origin unknown")
        if not s.bss:
            if data:
                self.chunks.append((s.org, bytes(data), self.fill, self.where()))
                self.checksum += sum(data)
            elif s.known:
                raise OutOfModel("empty data")
        if self.cur is not None and len(self.cur["data"]) < 4096:
            self.cur["data"] = self.cur["data"] + bytes(data)
        s.org += len(data)
        if s.inr:
            s.rorg += len(data)
        self.total += len(data)
        if self.total > 4 << 20:
            raise OutOfModel("too much output")
        if s.org > self.maxsize:
            raise self.abort("size")

    def backwards(self):
        cur = 0
        for org, data, _, _ in self.chunks:
            if org < cur:
                return True
            cur = org + len(data)
        return False

    def image(self, fmt):
        out = bytearray()
        if fmt == 2:
            hunks = []
            for org, data, _, _ in self.chunks:
                if hunks and hunks[-1][0] + len(hunks[-1][1]) == org:
                    hunks[-1][1].extend(data)
                else:
                    hunks.append((org, bytearray(data)))
            for org, data in hunks:
                if len(data) > 0xFFFF:
                    raise OutOfModel("hunk length")
                out += bytes([org & 255, org >> 8 & 255, len(data) & 255, len(data) >> 8]) + data
            return bytes(out)
        if not self.chunks:
            return b""
        start = cur = self.chunks[0][0]
        for org, data, fill, at in self.chunks:
            if org < cur:
                self.reverse_at = at
                raise self.abort("origin goes backwards")
            out += bytes([fill & 255]) * (org - cur)
            out += data
            cur = org + len(data)
        if len(out) > 2 << 20:
            raise OutOfModel("too much output")
        return (bytes([start & 255, start >> 8 & 255]) if fmt == 1 else b"") + bytes(out)

    def word(self, v, swap=False):
        lo, hi = v & 255, v >> 8 & 255
        return bytes([hi, lo]) if self.msb() != swap else bytes([lo, hi])

    def long(self, v):
        b = [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255]
        return bytes(reversed(b)) if self.msb() else bytes(b)

    def msb(self):
        return self.cpu not in ("6502", "65c02")

    # ------------------------------------------------------------ source walk
    def find(self, name):
        if name in self.files:
            return name, self.files[name]
        for d in self.incdirs:
            p = d + ("" if d.endswith("/") else "/") + name
            q = os.path.normpath(p)
            if q in self.files:
                return p, self.files[q]
        return None, None

    def run_file(self, name, by=None):
        _, data = self.find(name)
        if data is None:
            self.again("file missing: " + name)
            self.error("file missing")
            return
        if len([f for f in self.frames if f["kind"] == "file"]) > 60:
            raise OutOfModel("include depth")
        text = data.decode("latin-1")
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        fr = {"kind": "file", "name": name, "line": 0, "nolist": False}
        if by is not None:
            by["call"] = fr
        self.frames.append(fr)
        level = sum(x["kind"] == "file" for x in self.frames)
        # the INCLUDE line itself is listed after the header of the file
        self.listing.insert(len(self.listing) - (by is not None), {"enter": name, "level": level})
        self.filelog.append(name)
        try:
            self.block([l.rstrip("\r") for l in lines], 0, fr)
        except EndOfFile:
            while self.frames[-1] is not fr:  # END in a macro ends the calls as well
                self.localidx, self.dolidx = self.frames.pop()["save"]
        except MacroExit:
            raise OutOfModel("MEXIT outside macro")
        self.frames.pop()
        if self.frames:
            self.listing.append({"leave": next(x["name"] for x in reversed(self.frames))})

    def code_of(self, raw, fr):
        """Line without comments; None when wholly inside a block comment."""
        while True:
            if self.ml:
                j = raw.find("*/")
                if j < 0:
                    return ""
                self.ml = False
                raw = raw[j + 2 :]
                continue
            i = 0
            while i < len(raw):
                if raw[i] == "'":
                    i += 1
                elif raw[i] == '"':
                    i = raw.find('"', i + 1)
                    if i < 0:
                        return raw
                elif raw[i] == ";":
                    return raw
                elif raw.startswith("*/", i):
                    self.error("spurious comment close")
                    return raw[:i]
                elif raw.startswith("/*", i):
                    break
                i += 1
            else:
                return raw
            j = raw.find("*/", i)
            if j < 0:
                self.ml = True
                return raw[:i]
            if j == i + 1:
                raise OutOfModel("/*/")
            raw = raw[:i] + raw[j + 2 :]

    def read(self, lines, i, fr):
        """Parse line i (counting it as read)."""
        self.steps += 1
        if self.steps > 400000:
            raise OutOfModel("too long")
        fr["line"] = fr["base"] + i + 1 if "base" in fr else i + 1
        raw = lines[i]
        if len(raw) > 1000:
            raise OutOfModel("line length")
        was = self.ml
        code = self.code_of(raw, fr)
        self.plain = raw if code == raw else code
        self.raw = None if was or self.ml or "/*" in raw else raw
        try:
            code, comment = strip_comment(code)
            ln = parse_line(code)
        except ExprSyntax as e:
            self.error("syntax: " + str(e))
            ln = parse_line("")
            comment = None
        return ln, comment

    def kind_at(self, lines, i, fr):
        ln, c = self.read(lines, i, fr)
        return ln, c

    def block(self, lines, i, fr, stops=()):
        """Run lines from i until a line whose directive is in `stops`; returns its index (len(lines) if none)."""
        while i < len(lines):
            ln, comment = self.read(lines, i, fr)
            if ln.mnem in stops:
                return i
            if not stops and not fr.get("open") and (ln.mnem == "repend" or ln.mnem in ENDIFS or ln.mnem == "else" and not self.within()):
                i = self.stray(i, ln, comment, fr)
            else:
                i = self.line(lines, i, ln, comment, fr)
        return i

    def stray(self, i, ln, comment, fr):
        """An end of a block that was not opened in this file or macro changes nothing."""
        if ln.dyn:
            raise OutOfModel("dynamic label on a stray end")
        self.last_label = ln.label
        self.note(ln, comment, fr)
        if ln.mnem != "repend" and self.within():
            self.label(ln.label)
        return i + 1

    def within(self):
        return any(f.get("open") for f in self.frames)

    def skip(self, lines, i, fr, stops):
        """Skip lines (nested blocks as a whole) until a stop directive."""
        depth = 0
        while i < len(lines):
            ln, comment = self.read(lines, i, fr)
            m = ln.mnem
            if depth == 0 and m in stops:
                return i
            if m in IFS or m == "repeat":
                depth += 1
            elif m in ENDIFS or m == "repend":
                depth -= 1
                if depth < 0:
                    raise OutOfModel("unbalanced skip")
            if m in ("mac", "macro"):
                i += 1
                while i < len(lines):
                    ln, comment = self.read(lines, i, fr)
                    if ln.mnem == "endm":
                        break
                    i += 1
            self.note(ln, comment, fr, skipped=True)
            i += 1
        return i

    def note(self, ln, comment, fr, skipped=False):
        self.cur = {
            "file": fr["name"], "fkind": fr["kind"], "line": fr["line"], "ln": ln, "comment": comment,
            "skipped": skipped, "data": b"", "addr": None, "bss": False, "known": True, "name": self.last_label,
            "raw": self.raw, "frame": fr, "no": fr["line"],
        }
        self.listing.append(self.cur)
        return self.cur

    last_label = ""

    def line(self, lines, i, ln, comment, fr):
        name = ln.label
        if ln.dyn:
            open_ = False
            for kind, t in ln.dyn:
                if kind == "s":
                    name += t
                else:
                    v = self.vals(t)[0]
                    if v.u:
                        # without its argument the label is dropped in this pass
                        if ln.mnem in ("equ", "=", "set", "eqm", "setstr", "setsym"):
                            raise OutOfModel("dynamic label unknown")
                        open_ = True
                        continue
                    if v.v < 0:
                        raise OutOfModel("negative label argument")
                    name += str(chk(v.v))
            if open_:
                name = ""
        self.last_label = name
        m = ln.mnem
        if m == "":
            self.note(ln, comment, fr)
            self.label(name)
            return i + 1
        if m in ("mac", "macro"):
            self.note(ln, comment, fr)
            return self.macro_def(lines, i, ln, fr)
        if m in IFS:
            return self.do_if(lines, i, ln, name, comment, fr)
        if m == "repeat":
            return self.do_repeat(lines, i, ln, name, comment, fr)
        if m in ("else", "repend") or m in ENDIFS:
            raise OutOfModel("stray " + m)
        self.note(ln, comment, fr)
        h = getattr(self, "d_" + m, None) if m in DIRECTIVES and m != "=" else None
        if m == "=":
            h = self.d_equ
        if self.cpu == "f8":
            if m == "res":
                h = self.d_ds
            elif m in ("db", "dw", "dd"):
                h = self.d_f8data
            elif m in F8_MNEMONICS:
                self.label(name)
                self.f8(m, ln, name)
                return i + 1
        if self.cpu not in (None, "f8") and m in TABLES[self.cpu]:
            self.label(name)
            self.instruction(m, ln)
            return i + 1
        if m in self.macros:
            self.call(m, ln, name)
            return i + 1
        if h is None:
            self.error("unknown mnemonic " + m)
            return i + 1
        h(ln, name)
        return i + 1

    # ------------------------------------------------------------ blocks
    def do_if(self, lines, i, ln, name, comment, fr):
        self.note(ln, comment, fr)
        self.label(name)
        vs = self.vals(ln.arg)
        v = vs[0]
        if ln.mnem == "if":
            if v.s is not None:
                raise OutOfModel("IF string")
            if v.u:
                self.again("IF unknown")
                take = None
            else:
                take = v.v != 0
        else:
            known = not v.u
            take = known if ln.mnem == "ifconst" else not known
        self.cur["skipped"] = not take
        fr["open"] = fr.get("open", 0) + 1
        stops = ("else",) + ENDIFS
        j = i + 1
        j = self.block(lines, j, fr, stops) if take else self.skip(lines, j, fr, stops)
        if j >= len(lines):
            return j  # the block ends with its file or macro
        ln2, c2 = self.read(lines, j, fr)
        if ln2.mnem == "else":
            if ln2.dyn:
                raise OutOfModel("dynamic label on ELSE")
            self.last_label = ln2.label
            self.note(ln2, c2, fr)
            self.label(ln2.label)
            j += 1
            self.cur["skipped"] = take is not False
            j = self.block(lines, j, fr, ENDIFS) if take is False else self.skip(lines, j, fr, ENDIFS)
            if j >= len(lines):
                return j
            ln2, c2 = self.read(lines, j, fr)
        if ln2.dyn:
            raise OutOfModel("dynamic label on ENDIF")
        fr["open"] -= 1
        self.last_label = ln2.label
        self.note(ln2, c2, fr)
        self.label(ln2.label)
        return j + 1

    def do_repeat(self, lines, i, ln, name, comment, fr):
        self.note(ln, comment, fr)
        self.label(name)
        v = self.vals(ln.arg)[0]
        n = v.v
        if v.u:
            self.again("REPEAT unknown")
            self.loose = True
            n = 0
        if n < 0:
            self.warnings.append(("repeat", self.where()))
            self.diags.append(self.warnings[-1])
        if n <= 0:
            self.cur["skipped"] = True
            fr["open"] = fr.get("open", 0) + 1
            j = self.skip(lines, i + 1, fr, ("repend",))
            if j >= len(lines):
                return j
            ln2, c2 = self.read(lines, j, fr)
        else:
            if n > 20000:
                raise OutOfModel("repeat count")
            fr["open"] = fr.get("open", 0) + 1
            for _ in range(n):
                j = self.block(lines, i + 1, fr, ("repend",))
                if j >= len(lines):
                    return j
                ln2, c2 = self.read(lines, j, fr)
                if _ < n - 1:
                    self.last_label = ln2.label
                    self.note(ln2, c2, fr)["loop"] = True
        if ln2.dyn:
            raise OutOfModel("dynamic label on REPEND")
        fr["open"] -= 1
        self.last_label = ln2.label
        self.note(ln2, c2, fr)
        self.label(ln2.label)
        return j + 1

    def macro_def(self, lines, i, ln, fr):
        if fr["kind"] != "file":
            raise OutOfModel("macro defined in macro")
        name = ln.arg.strip().lower()
        if not name:
            raise OutOfModel("macro without name")
        body = []
        known = len(self.errors)
        j = i + 1
        while j < len(lines):
            l2, c2 = self.read(lines, j, fr)
            self.note(l2, c2, fr)
            if l2.mnem == "endm":
                break
            self.cur["macrodef"] = True
            if any("comment close" in why for why, _ in self.errors[known:]):
                raise OutOfModel("stray comment close in macro")
            body.append(self.plain)
            j += 1
        else:
            raise self.abort("premature end of file")
        exists = name in self.macros or name in DIRECTIVES or (
            self.cpu and self.cpu != "f8" and name in TABLES[self.cpu]) or (self.cpu == "f8" and name in F8_MNEMONICS)
        if exists and name not in self.macros:
            raise OutOfModel("macro named like an instruction")
        if name not in self.macros:
            self.macros[name] = (body, self.passno)
        elif self.macros[name][1] == self.passno:
            if self.strict:
                raise self.abort("macro repeated")
            # a later definition does not replace the first one
        return j + 1

    def call(self, m, ln, name):
        self.label(name)
        if sum(f["kind"] == "macro" for f in self.frames) >= 32:
            raise self.abort("macro recursion")
        arg = ln.arg
        args = [arg]
        t = arg
        while t:
            a, comma, t2 = t.partition(",")
            args.append(a)
            t = t2.lstrip(" ")
        body = []
        fr = {"kind": "macro", "name": m, "line": 0}
        for raw in self.macros[m][0]:
            body.append(raw)
        save = fr["save"] = (self.localidx, self.dolidx)
        self.lastlocal += 1
        self.localidx = self.lastlocal
        self.lastdol += 1
        self.dolidx = self.lastdol
        fr["args"], fr["parent"] = args, self.frames[-1]
        self.frames.append(fr)
        self.cur["call"] = fr
        try:
            lines = MacroLines(self, body, args)
            self.block(lines, 0, fr)
        except MacroExit:
            pass
        self.frames.pop()
        self.localidx, self.dolidx = save

    # ------------------------------------------------------------ directives
    def d_processor(self, ln, name):
        cpu = CPU_NAMES.get(ln.arg)
        if cpu is None:
            raise self.abort("processor not supported")
        if self.cpu is not None and cpu != self.cpu:
            raise self.abort("only one processor")
        self.cpu = cpu

    def d_org(self, ln, name):
        vs = self.vals(ln.arg) if ln.arg else [Val(0)]
        s = self.seg
        s.org, s.known = vs[0].v, not vs[0].u
        if s.known and s.init is None:
            s.init = s.org
        if vs[0].v < 0 and not vs[0].u:
            raise OutOfModel("negative origin")
        if len(vs) > 1:
            if vs[1].u:
                raise self.abort("fill undefined")
            self.fill = vs[1].v
        if len(vs) > 2:
            raise OutOfModel("ORG arguments")
        self.label(name)

    def d_rorg(self, ln, name):
        s = self.seg
        if not ln.arg:
            s.inr = True  # goes on where the last one ended
            self.label(name)
            return
        vs = self.vals(ln.arg)
        s.inr, s.rorg, s.rknown = True, vs[0].v, not vs[0].u
        if s.rknown and s.rinit is None:
            s.rinit = s.rorg
        if vs[0].v < 0 and not vs[0].u:
            raise OutOfModel("negative origin")
        self.label(name)

    def d_rend(self, ln, name):
        if name:
            raise OutOfModel("label on REND")  # manual and program disagree
        self.label(name)
        self.seg.inr = False

    def d_seg(self, ln, name):
        n = ln.arg
        s = self.segs.get("/" + n)
        if s is None:
            s = self.segs["/" + n] = Seg(n, force_of(ln.ext) == "BSS")
        self.seg = s
        self.label(name)

    def d_align(self, ln, name):
        vs = self.vals(ln.arg)
        pc, known = self.pc()
        fill = 0
        if len(vs) > 1:
            if vs[1].u:
                self.again("fill unknown")
            else:
                fill = vs[1].v
        if vs[0].u or not known:
            self.again("ALIGN unknown")
        else:
            if vs[0].v <= 0:
                raise OutOfModel("ALIGN argument")
            n = -pc % vs[0].v
            if n:
                self.emit(bytes([fill & 255]) * n)
        self.label(name)

    def d_ds(self, ln, name):
        self.label(name)
        vs = self.vals(ln.arg)
        size = {"WORDADR": 2, "LONG": 4}.get(force_of(ln.ext), 1)
        fill = 0
        if len(vs) > 1:
            fill = vs[1].v
            if vs[1].u:
                self.again("DS unknown")
        if vs[0].u:
            self.again("DS unknown")
            return
        n = vs[0].v
        if n < 0:
            raise self.abort("negative DS")
        if n * size > 700000:
            raise OutOfModel("large DS")
        if n:
            self.emit((bytes([fill & 255]) if size == 1 else self.word(fill) if size == 2 else self.long(fill)) * n)

    def d_dc(self, ln, name, size=None):
        self.label(name)
        f = force_of(ln.ext) if size is None else size
        if not ln.arg.strip():
            raise OutOfModel("empty operand")
        self.emit(self.data(self.vals(ln.arg), f))

    def d_byte(self, ln, name):
        self.d_dc(ln, name, "BYTEADR")

    def d_word(self, ln, name):
        self.d_dc(ln, name, "WORDADR")

    def d_long(self, ln, name):
        self.d_dc(ln, name, "LONG")

    def d_f8data(self, ln, name):
        self.d_dc(ln, name, {"db": "BYTEADR", "dw": "WORDADR", "dd": "LONG"}[ln.mnem])

    def data(self, vs, f, via=None):
        out = b""
        for v in vs:
            if v.s is not None and not v.u:
                elems = [(c, False) for c in v.s.encode("latin-1")]
                isstr = True
            else:
                elems = [(v.v, v.u)]
                isstr = False
            for e, u in elems:
                if u:
                    self.again("DC unknown")
                if via is not None:
                    self.special = (chk(e), u)
                    r = self.ev(via)
                    self.special = None
                    if r.u:
                        self.again("DV unknown")
                    e = r.v
                if f == "WORDADR" or f == "SWAP":
                    if self.strict and not isstr and not -0xFFFF <= e <= 0xFFFF:
                        self.error("value must be <10000")
                    out += self.word(e, f == "SWAP")
                elif f == "LONG":
                    out += self.long(e)
                else:
                    if not isstr and not -0xFF <= e <= 0xFF:
                        self.error("value must be <100")
                    out += bytes([e & 255])
        return out

    def d_dv(self, ln, name):
        self.label(name)
        eq, _, rest = ln.arg.partition(" ")
        s = self.syms.get(self.scoped(eq))
        if s is None or s.eqm is None:
            self.error("DV without EQM")
            self.again("DV without EQM")
            return
        self.emit(self.data(self.vals(rest), force_of(ln.ext), parse_list(s.eqm)[0]))

    def d_hex(self, ln, name):
        self.label(name)
        out, i, d = [], 0, ln.arg
        while i < len(d):
            if d[i] == " ":
                i += 1
                continue
            pair = d[i : i + 2]
            v = 0
            for c in pair.ljust(2):
                if c not in "0123456789abcdefABCDEF":
                    self.error("hex digit")
                    c = "0"
                v = v << 4 | int(c, 16)
            if len(pair) == 2:
                out.append(v)
            i += 2
        self.emit(bytes(out))

    def d_err(self, ln, name):
        self.label(name)
        raise self.abort("ERR")

    def d_end(self, ln, name):
        raise EndOfFile

    def d_mexit(self, ln, name):
        raise MacroExit

    def d_endm(self, ln, name):
        raise OutOfModel("stray ENDM")

    def d_trace(self, ln, name):
        pass

    def d_subroutine(self, ln, name):
        self.lastlocal += 1
        self.localidx = self.lastlocal
        self.label(name)

    def assign(self, name):
        if not name:
            raise OutOfModel("assignment without name")
        key = self.scoped(name)
        self.order.setdefault(key)
        return self.syms.setdefault(key, Sym())

    def d_equ(self, ln, name):
        if name in (".", "*"):
            (self.d_rorg if self.seg.inr else self.d_org)(ln, "")
            return
        v = self.vals(ln.arg)
        if len(v) != 1:
            raise OutOfModel("EQU list")
        v = v[0]
        s = self.assign(name)
        if s.eqm is not None:
            raise OutOfModel("EQU over EQM")
        if not s.u:
            if v.u:
                self.again("EQU unknown")
            elif s.v != v.v or s.s != v.s:
                self.error("EQU mismatch")
                self.again("EQU moved")
        s.v, s.u, s.s, s.kind = v.v, v.u, v.s, "equ"
        n = v.v
        if self.cur is not None:
            b = [n >> 8 & 255, n & 255]
            if n > 0xFFFF or n < 0:
                b = [n >> 24 & 255, n >> 16 & 255] + b
            self.cur["equ"] = bytes(b)

    def d_set(self, ln, name, text=None):
        arg = ln.arg if text is None else text
        head = arg.split(",")[0]
        if "," in arg and '"' not in head and " " not in head:
            dyn = head
            rest = arg[len(head):]
            late = False
            while rest:
                if rest.startswith(',"'):
                    k = rest.find('"', 2)
                    if "," in rest[2:k]:
                        self.error("syntax")
                        return
                    dyn += rest[2:k]
                    rest = rest[k + 1 :]
                else:
                    t, _, r = rest[1:].partition(",")
                    rest = "," + r if _ else ""
                    v = self.vals(t)[0]
                    if v.u:
                        late = True
                        continue
                    if v.v < 0:
                        raise OutOfModel("negative label argument")
                    dyn += str(chk(v.v))
            if late:
                return
            arg = dyn
        vs = self.vals(arg)
        if len(vs) != 1:
            raise OutOfModel("SET list")
        s = self.assign(name)
        s.v, s.u, s.s, s.eqm, s.kind = vs[0].v, vs[0].u, vs[0].s, None, "set"

    def d_setstr(self, ln, name):
        if '"' in ln.arg:
            raise OutOfModel("quote in SETSTR")
        s = self.assign(name)
        v = self.ev(("s", ln.arg))
        s.v, s.u, s.s, s.eqm, s.kind = v.v, False, ln.arg, None, "set"

    def d_setsym(self, ln, name):
        v = self.vals(ln.arg)[0]
        if v.u:
            return
        self.d_set(ln, name, ln.arg if v.s is None else v.s)

    def d_eqm(self, ln, name):
        s = self.assign(name)
        s.v, s.u, s.s, s.eqm, s.kind = 0, False, None, ln.arg, "eqm"

    def d_echo(self, ln, name):
        out = ""
        for v in self.vals(ln.arg):
            if v.u:
                continue
            if v.s is not None:
                out += " " + v.s
            else:
                if v.v < 0:
                    raise OutOfModel("ECHO of negative")
                out += " $%x" % v.v
        self.echo.append(out)
        self.cur["echo"] = out

    def d_list(self, ln, name):
        self.label(name)
        a = ln.arg.lower()
        self.cur["list"] = a

    def fname(self, arg):
        v = None
        if arg.startswith('"'):
            try:
                v = self.ev(parse_list(arg)[0])
            except ExprSyntax:
                pass
            return v.s if v else arg.strip('"')
        key = self.syms.get(arg)
        if key is not None and key.s is not None:
            return key.s
        return arg

    def d_include(self, ln, name):
        self.label(name)
        n = self.fname(ln.arg)
        self.run_file(n, self.cur)

    def d_incdir(self, ln, name):
        d = ln.arg.strip('"')
        if d not in self.incdirs:
            self.incdirs.append(d)

    def d_incbin(self, ln, name):
        self.label(name)
        vs = self.vals(ln.arg)
        if vs[0].s is None:
            raise OutOfModel("INCBIN name")
        skip = 0
        if len(vs) > 1:
            if vs[1].u:
                raise self.abort("skip undefined")
            skip = vs[1].v
        _, data = self.find(vs[0].s)
        if data is None:
            raise self.abort("no such file")
        if skip < 0:
            raise OutOfModel("negative skip")
        if data[skip:]:
            self.emit(data[skip:])
        self.cur["data"] = b""

    # ------------------------------------------------------------ instructions
    def operand(self, text):
        """-> (syntax, [Val...]) for the addressing syntax of the operand."""
        t = text.strip(" ")
        if not t:
            return "imp", []
        cpu = self.cpu
        if t.startswith("#"):
            return "imm", self.vals(t[1:])
        if t.startswith("("):
            d = 0
            for k, c in enumerate(t):
                if k and t[k - 1] == "'" and (k < 2 or t[k - 2] != "'"):
                    continue
                d += c == "("
                d -= c == ")"
                if d == 0:
                    break
            else:
                raise OutOfModel("paren")
            inner, rest = t[1:k], t[k + 1 :].strip(" ")
            parts = split_top(inner)
            tail = []
            if len(parts) == 2 and parts[1].strip(" ").lower() == "x":
                syn = "(x)"
                if rest.startswith(","):
                    tail = self.vals(rest[1:], False)
                    rest = ""
            elif len(parts) == 1:
                if rest == "":
                    syn = "(e)"
                elif re.fullmatch(r", ?[yY]", rest):
                    syn, rest = "(e),y", ""
                else:
                    syn = None
            else:
                syn = None
            if syn is None or rest:
                if re.fullmatch(r"\(.*, ?[yY]\)|\(.*\), ?[xX]", t):
                    return "bad", [Val(0)]
                raise OutOfModel("operand " + t)
            return syn, self.vals(parts[0], False) + tail
        if t.startswith(","):
            m = re.match(r",(x|y|sp)(?:,(.*))?$", t, re.I)
            if not m:
                raise OutOfModel("empty operand")
            if m[2]:
                raise OutOfModel("empty operand in a list")
            return "e," + m[1].lower(), [Val(0)]
        if re.match(r"[xXyY]$", t):
            raise OutOfModel("index without offset")
        m = re.match(r"\[([xXyY]|[sS][pP])\+(.*)\]$", t)
        if m and cpu in ("68705", "68hc11", "68hc908"):
            return {"x": "u,x", "y": "u,y", "sp": "u,sp"}[m[1].lower()], self.vals(m[2], False)
        parts = split_top(t)
        syn, vals = "e", []
        for n, p in enumerate(parts):
            q = p.strip(" ").lower()
            if n and q in ("x", "y", "sp"):
                if syn != "e":
                    raise OutOfModel("two indexes")
                syn = {"x": "e,x", "y": "e,y", "sp": "e,sp"}[q]
                if p != p.strip(" "):
                    raise OutOfModel("space before index")
            else:
                vals += self.vals(p, False)
        return syn, vals

    CHAIN = {
        "imp": ["IMP"],
        "imm": ["IMM8", "IMM16"],
        "e": ["BYTEADR", "WORDADR", "REL"],
        "e,x": ["0X", "BYTEADRX", "WORDADRX"],
        "e,y": ["0Y", "BYTEADRY", "WORDADRY"],
        "e,sp": ["BYTEADR_SP", "WORDADR_SP"],
        "u,x": ["BYTEADRX", "WORDADRX"],
        "u,y": ["BYTEADRY", "WORDADRY"],
        "u,sp": ["BYTEADR_SP", "WORDADR_SP"],
        "(x)": ["INDBYTEX"],
        "(e),y": ["INDBYTEY"],
        "(e)": ["INDWORD"],
    }

    def instruction(self, m, ln):
        ent = TABLES[self.cpu][m]
        modes = ent["modes"]
        force = force_of(ln.ext)
        syn, vals = self.operand(ln.arg)
        if syn == "bad":
            self.error("addressing mode")
            self.again("addressing mode")
            return
        for v in vals:
            if v.s is not None and len(v.s) > 2:
                raise OutOfModel("string operand")
        unknown = [v for v in vals if v.u]
        if unknown:
            self.again("operand unknown")
        if ent.get("imod"):
            return self.bitop(m, ent, vals, force)
        c02 = self.cpu == "65c02"
        chain = list(self.CHAIN[syn])
        if c02:
            if syn == "(e)":
                chain = ["INDWORD"] if m == "jmp" else ["INDBYTE"]
            if syn == "(x)" and m == "jmp":
                chain = ["INDWORDX"]
            if syn == "e" and len(vals) == 2:
                chain = ["BYTEREL"]
            elif len(vals) > 1:
                raise OutOfModel("extra operand")
        extra = 1 * bool(ent.get("mask")) + 1 * bool(ent.get("rel")) + (1 if chain == ["BYTEREL"] else 0)
        avail = [x for x in chain if x in modes]
        if not avail:
            self.error("addressing mode")
            self.again("addressing mode")
            return
        if vals and len(vals) - 1 > extra:
            raise OutOfModel("extra operand")
        v = vals[0] if vals else Val(0)
        need = 2 if v.u or v.v >= 0x100 else (1 if v.v else 0)
        if syn == "imp":
            need = 0
        byte_forced = False
        if force is not None:
            mode = force
            if syn in ("(x)", "(e),y"):
                self.error("forced mode")
                self.again("forced mode")
                return
            if syn.startswith("u"):
                raise OutOfModel("force on [x+n]")
            if syn == "e,sp":
                mode = "WORDADR_SP" if force == "WORDADR" else "BYTEADR_SP"
            elif syn == "e,x":
                mode = {"WORDADR": "WORDADRX", "WORDADRX": "WORDADRX", "BYTEADR": "BYTEADRX",
                        "BYTEADRX": "BYTEADRX"}.get(force, "0X")
            elif syn == "e,y":
                mode = {"WORDADR": "WORDADRY", "WORDADRY": "WORDADRY", "BYTEADR": "BYTEADRY",
                        "BYTEADRY": "BYTEADRY"}.get(force, "0Y")
            if mode in ("SWAP", "LONG", "BSS", "BITMOD", "BITBRAMOD"):
                raise OutOfModel("extension on instruction")
            if mode not in modes:
                self.error("forced mode")
                self.again("forced mode")
                return
            if mode not in chain and not (mode == "INDWORD" and syn == "(e)"):
                raise OutOfModel("forced mode of another syntax")
            byte_forced = force in ("BYTEADR", "BYTEADRX", "BYTEADRY")
            if OPSIZE[mode] < need and not (byte_forced and OPSIZE[mode]) and mode != "REL" and not v.u:
                raise OutOfModel("forced mode too small")
            if byte_forced and need > 1:
                self.error("byte mode requested")
            if v.u and OPSIZE[mode] < need and mode in ("0X", "0Y"):
                raise OutOfModel("forced zero index, unknown")
            if v.u and mode in ("BYTEADR", "BYTEADRX", "BYTEADRY") and "WORD" + mode[4:] in modes:
                mode = "WORD" + mode[4:]  # provisional width
        else:
            mode = avail[0]
            if mode != "REL" and not (v.u and mode == "BYTEADR_SP"):  # unknown offsets from SP start short
                for x in avail:
                    mode = x
                    if x == "REL" or OPSIZE[x] >= need:
                        break
                if OPSIZE[mode] < need and not v.u and mode not in ("REL",):
                    if mode == "BYTEREL" and v.v < 0x100:
                        pass
                    else:
                        self.error("value must be <100")
        if mode in ("IMM8", "BYTEADR", "BYTEADRX", "BYTEADRY", "BYTEADR_SP", "INDBYTE", "INDBYTEX", "INDBYTEY",
                    "BYTEREL") and not v.u and v.v < -0xFF:
            self.error("negative value")
        if self.strict and OPSIZE[mode] == 2 and not -0xFFFF <= v.v <= 0xFFFF:
            self.error("value must be <10000")
        op = modes[mode]
        out = [op >> 8, op & 255] if op > 255 else [op]
        rest = list(vals)
        if mode != "REL":
            if vals:
                rest = vals[1:]
            n = OPSIZE[mode]
            if n == 1:
                out.append(v.v & 255)
            elif n == 2:
                out += list(self.word(v.v))
        if ent.get("mask"):
            if not rest:
                raise self.abort("not enough arguments")
            k = rest.pop(0)
            if not k.u and not -0xFF <= k.v < 0x100:
                self.error("mask must be <100")
            out.append(k.v & 255)
        if ent.get("rel") or mode in ("REL", "BYTEREL"):
            if not rest:
                raise self.abort("not enough arguments")
            out.append(self.rel(rest.pop(0), len(out) + 1))
        if rest:
            raise OutOfModel("extra operand")
        self.emit(bytes(out))

    def rel(self, target, length):
        pc, known = self.pc()
        if target.u:
            return 0
        if not known:
            self.again("branch from unknown origin")
            return 0
        d = target.v - pc - length
        if not -128 <= d <= 127:
            self.error("branch out of range")
            self.again("branch out of range")
            return 0
        return d & 255

    def bitop(self, m, ent, vals, force):
        rel = ent.get("rel")
        want = 3 if rel else 2
        if len(vals) != want:
            if len(vals) == 2 and rel:
                raise self.abort("not enough arguments")
            if len(vals) < 2:
                self.error("addressing mode")
                self.again("addressing mode")
                return
            raise OutOfModel("extra operand")
        if force in ("BITMOD", "BITBRAMOD"):
            raise OutOfModel("extension on instruction")
        if force is not None:
            self.error("forced mode")
            self.again("forced mode")
            return
        bit, adr = vals[0], vals[1]
        op = ent["modes"]["BITBRAMOD" if rel else "BITMOD"]
        if not bit.u:
            if not 0 <= bit.v <= 7:
                self.error("bit number")
            else:
                op += bit.v << 1
        if not adr.u and not -0xFF <= adr.v < 0x100:
            self.error("address must be <100")
        out = [op, adr.v & 255]
        if rel:
            out.append(self.rel(vals[2], 3))
        self.emit(bytes(out))

    # ------------------------------------------------------------ F8
    def f8val(self, text):
        if not text.strip():
            raise self.abort("syntax")
        vs = self.vals(text)
        if len(vs) != 1:
            raise self.abort("syntax")
        if vs[0].u:
            self.again("operand unknown")
            return None
        return vs[0].v

    def f8reg(self, text):
        t = text.lower()
        if t in F8_SCRATCH:
            return F8_SCRATCH[t]
        v = self.f8val(text)
        if v is None:
            return None
        if not 0 <= v <= 14:
            raise self.abort("register")
        return v

    def f8(self, m, ln, name):
        if ln.ext is not None:
            raise OutOfModel("extension on F8")
        arg = ln.arg
        if m in F8_IMPLIED:
            if arg:
                self.error("addressing mode")
                self.again("addressing mode")
                return
            return self.emit(bytes([F8_IMPLIED[m]]))
        if m in F8_BYTE or m in F8_WORD:
            v = self.f8val(arg)
            top = 0xFF if m in F8_BYTE else 0xFFFF
            v = 0 if v is None else v
            if not 0 <= v <= top:
                self.error("value range")
                v = 0
            return self.emit(bytes([F8_BYTE[m], v]) if m in F8_BYTE else bytes([F8_WORD[m], v >> 8, v & 255]))
        if m in F8_SREG:
            r = self.f8reg(arg)
            return self.emit(bytes([F8_SREG[m] | (r or 0)]))
        if m in F8_BRANCH:
            return self.f8branch(F8_BRANCH[m], arg)
        if m in ("bf", "bt"):
            parts = arg.split(",")
            if len(parts) != 2:
                self.error("syntax")
                return
            v = self.f8val(parts[0])
            if v is None:
                return self.emit(b"\0\0")
            if not 0 <= v <= (15 if m == "bf" else 7):
                self.error("condition range")
                v = 0
            return self.f8branch((0x90 if m == "bf" else 0x80) | v, parts[1])
        if m in ("ins", "outs", "lis"):
            v = self.f8val(arg)
            v = 0 if v is None else v
            if not 0 <= v <= 15:
                self.error("value range")
            return self.emit(bytes([{"ins": 0xA0, "outs": 0xB0, "lis": 0x70}[m] | (v & 15)]))
        if m in ("lisl", "lisu"):
            v = self.f8val(arg)
            v = 0 if v is None else v
            if not 0 <= v <= 7:
                self.error("value range")
            return self.emit(bytes([(0x68 if m == "lisl" else 0x60) | (v & 7)]))
        if m in ("sl", "sr"):
            v = self.f8val(arg)
            base = 0x13 if m == "sl" else 0x12
            if v not in (1, 4, None):
                self.error("1 or 4")
            return self.emit(bytes([base + (2 if v == 4 else 0)]))
        assert m == "lr"
        parts = arg.split(",")
        if len(parts) != 2:
            self.error("syntax")
            return
        d, s = (p.strip(" ").lower() for p in parts)
        rd = F8_SPECIAL.get(d) or self.f8reg(parts[0].strip(" "))
        if rd is None:
            return self.emit(b"\0")
        rs = F8_SPECIAL.get(s)
        if rs is None:
            rs = self.f8reg(parts[1].strip(" "))
        if rs is None:
            return self.emit(b"\0")
        if rd == "A" and isinstance(rs, int):
            return self.emit(bytes([0x40 | rs]))
        if rs == "A" and isinstance(rd, int):
            return self.emit(bytes([0x50 | rd]))
        if (rd, rs) not in F8_LR:
            raise self.abort("operand combination")
        return self.emit(bytes([F8_LR[rd, rs]]))

    def f8branch(self, op, text):
        v = self.f8val(text)
        if v is None:
            return self.emit(b"\0\0")
        pc, known = self.pc()
        if not known:
            self.again("branch from unknown origin")
            return self.emit(b"\0\0")
        d = v - pc - 1
        if not -128 <= d <= 127:
            self.error("branch out of range")
            self.again("branch out of range")
            d = 0
        self.emit(bytes([op, d & 255]))


class MacroLines:
    """Lines of a macro call: {n} is replaced when the line is reached."""

    def __init__(self, asm, body, args):
        self.asm, self.body, self.args = asm, body, args

    def __len__(self):
        return len(self.body)

    def __getitem__(self, i):
        s = self.body[i]
        if "{" not in s:
            return s
        out, j = "", 0
        guard = 0
        while j < len(s):
            c = s[j]
            if c == ";":
                return out + s[j:]
            if c == "'":
                out += s[j : j + 2]
                j += 2
                continue
            if c == '"':
                k = s.find('"', j + 1)
                k = len(s) - 1 if k < 0 else k
                out += s[j : k + 1]
                j = k + 1
                continue
            if c == "{":
                m = re.match(r"\{(\d+)\}", s[j:])
                if not m:
                    raise OutOfModel("brace")
                n = int(m[1])
                if n >= len(self.args):
                    self.asm.error("macro argument missing")
                    return ""
                s = s[:j] + self.args[n] + s[j + len(m[0]) :]
                guard += 1
                if guard > 40 or len(s) > 900:
                    raise OutOfModel("macro argument growth")
                continue
            out += c
            j += 1
        return out
