"""Random expressions that stay within the 32-bit model."""

from .refasm import BINPRI, OutOfModel, Abort, RefAsm

_ev = RefAsm({})

# characters above 127; 128 stands for a blank inside dasm, and 133 and 160 are blanks to some libraries
HIGH = [i for i in range(0x81, 0x100) if i not in (0x85, 0xA0)]


def calc(op, a, b):
    """Value of a op b, or None when the model does not cover it."""
    try:
        return _ev.ev(("b", op, ("n", a), ("n", b))).v
    except (OutOfModel, Abort):
        return None


def ucalc(op, a):
    try:
        v = _ev.ev(("u", op, ("n", a))).v
    except OutOfModel:
        return None
    return v if -(1 << 31) <= v < 1 << 31 else None


OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "=", "!=", "<", ">", "<=", ">=", "&&", "||", "?"]
SAFE = ["&", "|", "^", "==", "<", ">=", "||"]


class X:
    """env: name -> value of the symbols that may be used."""

    def __init__(self, g, env, parens=True, spaces=True, lit=None):
        self.g, self.env, self.parens, self.spaces = g, env, parens, spaces
        self.names = sorted(env)
        self.lit = lit

    def number(self):
        g = self.g
        k = g.int(0, 9)
        if k < 5:
            return g.int(0, 20)
        if k < 8:
            return g.near(0, 0xFFFF, 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF)
        return g.near(0, 0x7FFFFFFF, 0x7FFFFFFF, 0x10000, 0xFFFFFF)

    def literal(self, v):
        g = self.g
        k = g.int(0, 8)
        if k <= 1:
            return str(v)
        if k <= 3:
            t = "%x" % v
            return "$" + (t.upper() if g.chance(50) else t)
        if k == 4:
            return "%" + format(v, "b")
        if k == 5:
            return "0" + format(v, "o")
        if k == 6:
            return "0x" + ("%X" % v if g.chance(30) else "%x" % v)
        if k == 7 and (33 <= v <= 126 or v in HIGH) and chr(v) not in '{}"\'/*\\;,':
            return "'" + chr(v)
        if k == 8 and g.chance(40):
            return "$000" + "%x" % v
        return str(v)

    def gen(self, depth):
        """-> (text, value, priority of the outermost operator)"""
        g = self.g
        if depth <= 0 or g.chance(15):
            return self.atom()
        if g.chance(25):
            return self.unary(depth)
        op = g.pick(OPS)
        lt, lv, lp = self.gen(depth - 1)
        rt, rv, rp = self.gen(depth - 1)
        if op in ("<<", ">>"):
            if g.chance(25):
                rt, rv, rp = "%s&7" % self.wrap(rt), rv & 7, BINPRI["&"]
            else:
                rv = g.int(0, 12) if g.chance(90) else g.int(0, 31)
                rt, rp = self.literal(rv), 999
        v = calc("==" if op == "=" else op, lv, rv)
        if v is None:
            op = g.pick(SAFE)
            v = calc(op, lv, rv)
        pri = BINPRI[op]
        g.tag("op " + op)
        if lp < pri or g.chance(6):
            lt = self.wrap(lt)
        if rp <= pri or g.chance(6):
            rt = self.wrap(rt)
        a = " " if self.spaces and g.chance(15) else ""
        b = " " if self.spaces and g.chance(15) else ""
        if op in ("<", ">") and rt[:1] in "<>=" and not b:
            if self.spaces:
                b = " "
            else:
                rt = self.wrap(rt)
        if op in ("&",) and rt[:1] == "&" or op == "=" and rt[:1] == "=":
            b = " "
        if op == "/":
            if lt.endswith("*"):
                lt = self.wrap(lt)
            if rt.startswith("*"):
                rt = self.wrap(rt)
        if op == "*" and rt.startswith("/") or lt.endswith("/"):
            b = " "
        return lt + a + op + b + rt, v, pri

    def wrap(self, t):
        if self.parens and self.g.chance(40):
            return "(" + t + ")"
        return "[" + t + "]"

    def unary(self, depth):
        g = self.g
        op = g.pick(["-", "~", "!", "<", ">"])
        t, v, p = self.gen(depth - 1)
        r = ucalc(op, v)
        if r is None:
            op = "<"
            r = ucalc(op, v)
        g.tag("unary " + op)
        if p < 100:
            t = self.wrap(t)
        return op + t, r, 900

    def atom(self):
        g = self.g
        if self.names and g.chance(35):
            n = g.pick(self.names)
            return n, self.env[n], 999
        v = self.number()
        return self.literal(v), v, 999
