from ..exprgen import HIGH
from ..gen import Case, Skip
from ..harness import Check
from ..proggen import P, CPUS, PAIRS, PLAIN, RELS, SPELL, kitchen, simple_case, ref_run, pass_args
from ..refasm import TABLES

CHECKS = {}


def add(prop, rule, quick, thorough, parts, **kw):
    CHECKS[prop] = Check(prop, parts, rule, quick, thorough, **kw)


def head(g, cpu, org=None, extra=""):
    out = [" processor " + g.pick(SPELL[cpu])]
    if org is not None:
        out.append(" org %s%s" % (num(g, org), extra))
    return out


def num(g, v):
    if v < 0:
        return "-" + num(g, -v)
    k = g.int(0, 5)
    return [str(v), "$%x" % v, "$%04X" % v, "%" + format(v, "b"), "0x%x" % v, "0%o" % v][k]


def finish(g, lines, fmt=None, files=None, **kw):
    fs = dict(files or {})
    fs["main.asm"] = "\n".join(lines) + "\n"
    return simple_case(g, fs, fmt or g.pick([1, 2, 3]), **kw)


def sym_entries(res, refs=False):
    """Expected symbol-file entries of an accepted program."""
    out = []
    for n, s in sorted(res.symbols.items()):
        if s.eqm is not None:
            e = [n, None, "eqm", s.eqm]
        elif s.u:
            out.append([n, None, "any" if s.kind == "equ" else "unk", None])
            continue
        elif s.s is not None:
            e = [n, s.v, "str", s.s]
        else:
            # the value of an EQU nobody needs may stay open
            e = [n, s.v, "num?" if s.kind == "equ" and not s.refd else "num", None]
        if refs:
            e += [bool(s.mas), None if s.kind == "label" else s.kind in ("set", "eqm")]
        out.append(e)
    return out


def sym_expect(sort=None, refs=False, exact=True):
    def more(res):
        if res.loose or any(s.kind == "label" and n not in res.order for n, s in res.symbols.items()):
            return {}  # the address of a label that only an abandoned pass saw depends on how that pass guessed
        e = {"file": "o.sym", "entries": sym_entries(res, refs), "exact": exact}
        if sort is not None:
            e["sort"] = sort
            if sort == 2:
                e["order"] = [n for n in res.order if not n[0].isdigit()]
        return {"sym": e}

    return more


def program(g, syms=25, **kw):
    """A kitchen program; in `syms` percent of the cases the symbol values are compared as well."""
    p = P(g, **kw).generate()
    g.tag("cpu " + p.cpu)
    files = dict(p.files)
    files["main.asm"] = p.source()
    strict = g.chance(5)
    if g.chance(syms):
        return simple_case(g, files, p.fmt, strict=strict, extra=["-so.sym"], more_expect=sym_expect())
    return simple_case(g, files, p.fmt, strict=strict)


def mix(syms=25, **kw):
    return lambda g: program(g, syms, **kw)


def only(**kw):
    """Weights with everything else reduced."""
    from ..proggen import DEFAULT

    w = {k: (v + 3) // 4 for k, v in DEFAULT.items()}
    w.update(kw)
    return w


def wrap_context(g, lines, n=[0]):
    """The lines as they are, or inside a block that does not change what they mean."""
    k = g.int(0, 7)
    if k == 1:
        return [" if 1"] + lines + [" endif"]
    if k == 2:
        return [" repeat 1"] + lines + [" repend"]
    if k == 3:
        return [" if 0", " dc.b 99", " else"] + lines + [" eif"]
    if k == 4 and not any("{" in l or "/*" in l for l in lines):
        return [" mac wrap_m"] + lines + [" endm", " wrap_m"]
    return lines
