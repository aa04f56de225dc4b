"""C32 verbose reports."""

from ..gen import Skip
from ..proggen import P, simple_case
from .util import *


def verbose_expect(level, first=None):
    def more(res):
        segs = [[s.name, s.bss, s.init, s.rinit, s.org if s.known else None, s.rorg if s.rknown else None] for s in res.segs]
        e = {"level": level, "segs": segs, "files": res.files_seen}
        if first:
            e["first"] = first
        return {"verbose": e}

    return more


def reported(**kw):
    def gen(g):
        p = P(g, **kw).generate()
        g.tag("cpu " + p.cpu)
        files = dict(p.files)
        files["main.asm"] = p.source()
        level = g.pick([1, 1, 2, 3, 4, 5])
        g.tag("level %d" % level)
        extra = ["-v%d" % level, "-so.sym"] + g.pick([[], [], ["-T1"], ["-T2"], ["-lo.lst"], ["-E2"]])
        c = simple_case(g, files, p.fmt, extra=extra, more_expect=verbose_expect(level))
        names = [s.name for s in getattr(c.res, "segs", ())]
        if len(set(names)) < len(names):
            raise Skip("segment named like the initial one")
        return c

    return gen


MNE, DC, DV = ["Expression in mnemonic not resolved."], ["Expression in a DC not resolved."], [
    "Expression in a DV not resolved (could be in DV's EQM symbol)."]
DS, FWD = ["Expression in a DS not resolved."], ["Label defined after it has been referenced (forward reference)."]
# statement, references to unknown symbols, events, reasons; %(n)s is a symbol that is defined further down as 1
REASONS = [
    ([" lda %(n)s"], 1, 1, MNE), ([" dc.b %(n)s"], 1, 1, DC), ([" dc.w %(n)s,%(n)s+1"], 2, 2, DC), ([" ds %(n)s"], 1, 1, DS),
    ([" ds 1,%(n)s"], 1, 1, DS), ([" align %(n)s"], 1, 1, ["ALIGN: Normal origin not known\t(if in ORG at the time)."]),
    (["%(u)s equ %(n)s", " dc.b %(u)s"], 2, 1, DC), ([" if %(n)s", " endif"], 1, 1, ["IF: Expression not resolved."]),
    ([" repeat %(n)s", " repend"], 1, 1, ["REPEAT: Expression not resolved."]), (["%(u)s eqm %(n)s", " dv %(u)s 1"], 1, 1, DV),
    ([" dv %(u)s 1", "%(u)s eqm ..*2"], 0, 1, DV), ([" bne %(u)s", "%(u)s"], 1, 2, MNE + FWD), ([" dc.w %(u)s", "%(u)s"], 1, 2, DC + FWD),
    ([" jmp %(u)s", " jmp %(u)s", "%(u)s"], 2, 3, MNE + FWD), (["%(u)s eqm ..", " dv %(u)s %(n)s"], 2, 2, DC + DV),
    (["%(u)s eqm ..+%(n)s", " dv %(u)s \"ab\""], 2, 2, ["Expression in a DV not resolved (probably in DV's EQM symbol)."]),
    ([" rorg %(n)s", " align 4", " rend"], 1, 1, ["ALIGN: Relocatable origin not known (if in RORG at the time)."]),
    ([" dc.b 1"], 0, 0, []), ([" lda #<%(n)s", " sta $10"], 1, 1, MNE), (["%(u)s set %(n)s", "%(u)s set 3", " dc.b %(u)s"], 1, 0, []),
    (["%(u)s set %(n)s", " dc.b <%(u)s"], 2, 1, DC), ([" if 0", " dc.b %(n)s", " endif"], 0, 0, []),
]


def reasons(g):
    """Statements whose need for another pass is known."""
    lines = [" processor " + g.pick(["6502", "65c02"]), " org %d" % g.pick([256, 4096, 0xF000])]
    refs = events = 0
    why = []
    for i in range(g.int(1, 6)):
        text, r, e, w = g.pick(REASONS)
        late = "late%d" % (i if g.chance(60) else 0)
        rep = 1 if any("%(u)s" in t for t in text) else g.pick([1, 1, 2, 3])
        block = [t % {"n": late, "u": "u%d" % i} for t in text]
        if rep > 1:
            block = [" repeat %d" % rep] + block + [" repend"]
        lines += block
        refs, events = refs + r * rep, events + e * rep
        why += [x for x in w if x not in why]
    late = ["late%d equ 1" % i for i in range(6)]
    level = g.pick([1, 1, 1, 2, 3, 4])
    if events == 0:
        why = []
    files = {"main.asm": "\n".join(lines + late) + "\n"}
    return simple_case(g, files, g.pick([1, 2, 3]), extra=["-v%d" % level, "-so.sym"],
                       more_expect=verbose_expect(level, [refs, events, why]), must=True)


add("C32", "the reports of the last pass (and the reasons given by the first) are compared with the reference", 5000, 20000,
    [(3, "segments", reported(weights=only(seg=22, org=10, rorg=14, label=10, ds=10, include=8, equ=8, align=6), size=(3, 24))),
     (2, "files", reported(weights=only(include=30, macro=8, cond=8), size=(2, 18))), (3, "reasons", reasons), (2, "whole", reported())])
