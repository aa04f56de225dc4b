"""C16 macros, C17 REPEAT, C18 conditionals, C19 files, C20 local labels, C21 assignments, C22 dynamic labels."""

from .util import *


def done(g, lines, files=None, refs=False, **kw):
    """The program, with its symbol table compared most of the time."""
    lines = [l for x in lines for l in x.split("\n")]
    if g.chance(70):
        kw.update(extra=list(kw.get("extra", ())) + ["-so.sym"], more_expect=sym_expect())
    return finish(g, lines, files=files, **kw)


def ins(g, cpu, arg=None):
    """A line with an instruction that takes a byte operand."""
    m = {"6502": ["lda", "adc", "cmp", "ldx", "and"], "65c02": ["lda", "sbc", "ora", "adc"], "f8": ["li", "ni", "ci", "ai"],
         "68705": ["lda", "add", "and", "cmp"], "68hc908": ["lda", "add", "and", "cmp"]}.get(cpu, ["ldaa", "anda", "cmpa", "oraa"])
    m = g.pick(m)
    a = arg if arg is not None else str(g.int(0, 255))
    return " %s %s%s" % (m, "" if cpu == "f8" else "#", a)


def small(g, cpu):
    k = g.int(0, 3)
    return [ins(g, cpu), " dc.b %d,%d" % (g.int(0, 255), g.int(0, 255)), " dc.w .", " nop"][k]


def ds(cpu):
    return "res" if cpu == "f8" else "ds"


# ------------------------------------------------------------------------------------------ C16

NAMES = ["copy", "Put_it", "M", "long_macro_name_", "add16", "BUMP", "q"]


def macros(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, g.pick([0x1000, 0x80, 0xF0]))
    tail, defs, defined, files = [], [], [], {}
    nm = g.int(1, 4)
    for i in range(nm):
        name = g.pick(NAMES) + str(i)
        n = g.near(0, 12, 0, 1, 2, 3, 9, 10)
        body = []
        decimal = False
        for _ in range(g.int(1, 6)):
            a = "{%d}" % g.int(1, n) if n else str(g.int(0, 255))
            b = "{%d}" % g.int(1, n) if n else "3"
            k = g.int(0, 19)
            if k <= 3:
                body.append(" dc.%s %s" % (g.pick("bw") if not n else "w", g.pick([a, "[%s]+[%s]" % (a, b), "%s,%s" % (a, b), "1+%s*2" % a])))
            elif k == 4:
                body.append(ins(g, cpu, "<[%s]" % a) if cpu != "f8" else " dc.b <[%s]" % a)
            elif k == 5:
                body += g.pick([[".x%d" % len(body), " dc.w .x%d" % (len(body))], ["%d$" % (len(body) + 1), " dc.w %d$" % (len(body) + 1)]])
            elif k == 6:
                body.append(" dc.b <%s ; {1} {9} in a comment" % a)
            elif k == 7:
                body += [" if %s>100" % a, " dc.b 1", " else", " dc.b 2,2", " endif"]
            elif k == 8:
                body += [" repeat 2", " dc.b <%s" % a, " repend"]
            elif k == 9 and defined:
                d, dn, dec = g.pick(defined)
                decimal = decimal or dec
                args = ["{%d}" % g.int(1, n) if n and g.chance(60) else str(g.int(0, 255)) for _ in range(dn)]
                if n and dn and dn == n and g.chance(30):
                    args = ["{0}"]
                body.append(" %s %s" % (d, ",".join(args)))
                g.tag("nested call")
            elif k == 10:
                body += [" if %s" % g.pick(["1", "0", "%s&1" % a]), " mexit", " endif"]
                g.tag("mexit")
            elif k == 11:
                body.append(" dc.b \"{1}\"" if g.chance(50) else " dc.b 'a,<%s" % a)
            elif k == 12:
                body += ["cnt%d set cnt%d+1" % (i, i)]
                if "cnt%d set 0" % i not in lines:
                    lines.append("cnt%d set 0" % i)
            elif k == 13 and n:
                body.append(" dc.w {0}")
                g.tag("{0}")
            elif k == 14:
                body += [" subroutine", ".y%d dc.w .y%d" % (len(body), len(body))]
            elif k == 15:
                body.append(" align 4")
            elif k == 16:
                body.append("\tdc.b\t<[%s]" % a)
            elif k == 17:
                body.append("")
            elif k == 18 and n >= 2:
                body.append(" dc.b <{%d}{%d}" % (g.int(1, n), g.int(1, n)))
                decimal = True
                g.tag("joined arguments")
            else:
                body.append(" dc.w {%d}" % n if n else " dc.b 7")
        if g.chance(10):
            body += [" if 1", " repeat 2" if g.chance(50) else " if 1", " dc.b 5", " mexit", " repend" if " repeat 2" in body[-3:] else " endif", " endif"]
        d = [" %s %s" % (g.pick(["mac", "macro", "MACRO", "mac"]), name if g.chance(80) else name.upper())] + body + [" " + g.pick(["endm", "ENDM", ".endm"])]
        if g.chance(12):
            other = [" mac %s" % name, " dc.b $ee", " endm"]
            d = g.pick([[" if 1"] + d + [" else"] + other + [" endif"], [" if 0"] + other + [" else"] + d + [" endif"], d + [" if 0"] + other + [" endif"],
                        [" ifnconst nosuch%d" % i] + d + [" else"] + other + [" endif"]])
            g.tag("alternative definitions")
        if g.chance(15):
            files["m%d.h" % i] = "\n".join(x for y in d for x in y.split("\n")) + "\n"
            d = [' include "m%d.h"' % i]
            g.tag("macro in include")
        lines += d
        defined.append((name, n, decimal))
        if g.chance(8):
            lines += [" mac %s" % name, " dc.b 99", " endm"]
            g.tag("redefinition")
    consts = {}
    for j in range(g.int(1, 6)):
        name, n, decimal = g.pick(defined)
        args = []
        for _ in range(n):
            k = 7 if decimal else g.int(0, 7)
            v = g.int(0, 120)
            if k <= 2:
                args.append(num(g, v))
            elif k == 3:
                s = "k%d" % len(consts)
                consts[s] = v
                args.append(s)
            elif k == 4:
                args.append("%d+%d" % (v, g.int(0, 9)))
            elif k == 5:
                args.append(g.pick([".", "*", "l_0", "[1+2]*3"]))
            else:
                args.append(str(v))
        for i in range(n):
            if g.chance(1):
                args[i] = ""
                g.tag("empty argument")
        if n and g.chance(6):
            args.pop()
            g.tag("missing argument")
        if g.chance(10):
            args += ["77", "78"]
            g.tag("surplus arguments")
        lab = "c%d" % j if g.chance(30) else ""
        name = g.pick([name, name, name.upper(), name.lower(), "." + name])
        call = ["%s %s %s%s" % (lab, name, g.pick([",", ",", ", "]).join(args), g.pick(["", "", " ; x"]))]
        if not lab:
            call = wrap_context(g, call) if g.chance(25) and not any("wrap_m" in l for l in lines) else call
            if g.chance(20):
                call = ["%d$" % (j + 1)] + call + [" dc.w %d$" % (j + 1)]
        lines += call
        if g.chance(30):
            lines.append(small(g, cpu))
    for s, v in consts.items():
        (tail if g.chance(50) else lines.insert(1, "%s equ %d" % (s, v)) or []).append("%s equ %d" % (s, v))
    lines += ["l_0 dc.b 0"] + tail
    seen, out = set(), []
    for l in lines:
        if " equ " in l and l in seen:
            continue
        seen.add(l)
        out.append(l)
    return done(g, out, files=files, strict=g.chance(15))


def recursive(g):
    """Macros that call themselves with changing arguments; depth up to and beyond the limit of 32."""
    cpu = g.pick(CPUS)
    n = g.near(0, 40, 1, 30, 31, 32, 33)
    body = g.pick([
        [" dc.b <[{1}]", " if [{1}]", " down [{1}]-1", " endif"],
        [" if [{1}]", " down [{1}]-1", " dc.b <[{1}]", " endif"],
        [" if [{1}]==0", " dc.b $aa", " mexit", " endif", " down [{1}]-1", " dc.b <[{1}]"],
        ["v set v-1", " if v>=0", " dc.b v", " down", " endif", ".l dc.w .l"],
    ])
    lines = head(g, cpu, 0x300) + ["v set %d" % n, " mac down"] + body + [" endm"]
    # the argument is text: keep it short with a SET counter when deep
    if "{1}" in body[0] or "{1}" in body[1]:
        n = min(n, g.near(0, 33, 31, 32))
        if n > 12:
            body = ["v set v-1", " if v>=0", " dc.b {1},v", " down {1}", " endif"]
            lines = head(g, cpu, 0x300) + ["v set %d" % n, " mac down"] + body + [" endm"]
            lines += [" down %d" % g.int(0, 255)]
        else:
            lines += [" down %d" % n]
    else:
        lines += [" down"]
    g.tag("depth %d" % (n // 8 * 8))
    return done(g, lines + ["end_ dc.w end_"])


def operands(g):
    """Arguments that are addressing modes, mnemonics, strings, labels or whole operand lists."""
    cpu = g.pick(["6502", "65c02"])
    lines = head(g, cpu, 0x400)
    body, calls = [], []
    k = g.int(0, 9)
    if k == 7:
        body = [" dc.b 1{1},2{2},3{3}"]
        calls = [" op 1,,3", " op ,,", " op ,2,3", " op 1,2,,9", " op , ,3", " op 4,,,5"]
    elif k == 8:
        # blanks around arguments
        body = [" dc.b {1}+1,{2}", " dc.b '{1,\"{2}\""]
        calls = [" op  1,2", " op 1 , 2", " op 1,  2", "\top\t1,\t2", " op 1,2 ", " op 1+ 2,3 ; c", " op 1,2\t; c"]
    elif k == 9:
        body = [" dc.b {1},{10},{11},{12},{2}"]
        calls = [" op %s" % ",".join(str(g.int(0, 255)) for _ in range(12)) for _ in range(3)]
    elif k == 0:
        body = [" {1} {2}", " {1} {2}"]
        calls = [" op %s" % a for a in ("lda,#3", "ldx,$12", "sta,$1234", "jmp,lab0", "lda,#<lab0", "bne,.")]
    elif k == 1:
        body = [" lda {1}", " sta {2}"]
        calls = [" op %s" % a for a in ("#$10,$20", "$44,$1000", "#'a,lab0", "#[1+2],lab0+1")]
    elif k == 2:
        body = [" dc.b {1}", " dc.b 0"]
        calls = [" op %s" % a for a in ('"hello"', '"a b"', "1", "'x", '"{1}"')]
    elif k == 3:
        body = ["{1} dc.w {1}", "{1}_end", " dc.b {1}_end-{1}"]
        calls = [" op first", " op second", " op Third_1"]
    elif k == 4:
        body = [" dc.b {0}", " dc.b {1}"]
        calls = [" op 1,2,3", " op 9", " op 4, 5"]
    elif k == 5:
        body = ["{1} = {2}", "{1}_2 set {2}+1", " dc.b {1},{1}_2"]
        calls = [" op aa,3", " op bb,aa", " op cc,[aa+bb]"]
    else:
        body = [" if {1}", " dc.b {2}", " else", " dc.b {3}", " endif"]
        calls = [" op 1,2,3", " op 0,2,3", " op 1==1,<lab0,>lab0", " op lab0<$200,4,5"]
    lines += [" mac op"] + body + [" endm"]
    n = g.int(1, len(calls))
    lines += g.sample(calls, n)
    return done(g, lines + ["lab0 dc.b 1"])


def against_text(g):
    """The call and the substituted text, as two programs, give the same bytes and list the same code."""
    cpu = g.pick(CPUS)
    n = g.int(1, 4)
    body = []
    for i in range(g.int(1, 6)):
        a = "{%d}" % g.int(1, n)
        body.append(g.pick([" dc.b <[%s]", " dc.w %s", " dc.b >[%s],7", " dc.l [%s]*3", " align 1+[[%s]&7]", "; %s"]) % a)
    args = [num(g, g.int(0, 999)) for _ in range(n)]
    a = head(g, cpu, 0x200) + [" mac mm"] + body + [" endm"]
    b = a[:2]
    for _ in range(g.int(1, 4)):
        ar = list(args) if g.chance(50) else [num(g, g.int(0, 999)) for _ in range(n)]
        a.append(" mm " + ",".join(ar))
        for l in body:
            for i in range(n, 0, -1):
                l = l.replace("{%d}" % i, ar[i - 1])
            b.append(l)
        g.tag("expanded")
    files = {"a.asm": "\n".join(a) + "\n", "b.asm": "\n".join(b) + "\n"}
    return Case(files, [
        {"tool": "dasm", "args": ["b.asm", "-ob.bin"], "keep": ["b.bin"], "expect": {"exit": 0}},
        {"tool": "dasm", "args": ["a.asm", "-oa.bin"], "expect": {"exit": 0, "same": [["a.bin", 0, "b.bin"]]}}])


add("C16", "program with macro calls whose bytes are compared, or one that has to be rejected", 6500, 26000, [
    (12, "macros", macros), (3, "recursive", recursive), (3, "operands", operands), (2, "against text", against_text),
    (4, "programs", mix(weights=only(macro=40, cond=6, repeat=6, local=6, include=4))),
])

# ------------------------------------------------------------------------------------------ C17


def left_open(g):
    """Blocks that end with their file or macro, and ends of blocks that were not begun there."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x900)
    files = {}
    state = {"n": 0}

    def part(own, loops, inside=True):
        """`own`: in a file or macro of its own; `loops`: assembled more than once"""
        out, stack = [], []
        for _ in range(g.int(2, 9)):
            k = g.int(0, 9)
            state["n"] += 1
            if k <= 3 and len(stack) < 4:
                o = g.pick([" repeat 2", " repeat 3", " if 1", " if 0", " ifnconst nosuch", " ifconst nosuch", " repeat 0", " if 0"])
                out.append(o)
                stack.append(" repend" if "repeat" in o else g.pick([" endif", " eif"]))
                if stack[-1] != " repend" and g.chance(30):
                    out += [" dc.b %d" % g.int(0, 255), " else"]
            elif k <= 5 and stack:
                out.append(stack.pop())
            elif k == 6 and not stack and own:
                out.append(("" if loops or g.chance(70) else "st%d" % state["n"]) + g.pick([" endif", " repend", " eif"] + ([] if inside else [" else"])))
                g.tag("stray end")
            else:
                out.append(g.pick([" dc.b %d" % g.int(0, 255), " dc.w .", small(g, cpu)]))
        if stack and own and g.chance(30):
            out += stack[::-1]
            stack = []
        if stack:
            g.tag("open %d" % len(stack))
        return out

    out = []
    for i in range(g.int(1, 4)):
        around = g.pick([None, None, "if", "repeat", "both"])
        p = part(True, around in ("repeat", "both"), around is not None)
        k = g.int(0, 2)
        if k == 0:
            files["o%d.h" % i] = "\n".join(p) + g.pick(["\n", ""])
            call = [' include "o%d.h"' % i]
        else:
            lines += [" mac om%d" % i] + p + [" endm"]
            call = [" om%d" % i]
            if k == 2:
                files["o%d.h" % i] = " om%d\n" % i + g.pick(["", " dc.b 3\n", " if 0\n", " repeat 2\n om%d\n" % i])
                call = [' include "o%d.h"' % i]
        call = call + [" dc.b $e%d" % i]
        if around in ("if", "both"):
            call = [" if 1"] + call + g.pick([[" endif"], [" else", " dc.b $ee", " endif"]])
        if around in ("repeat", "both"):
            call = [" repeat 2"] + call + [" repend"]
        out += call
    out.append("fin dc.w fin")
    if g.chance(30):
        out += part(False, True)
    return done(g, lines + out, files=files)



def repeats(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, g.pick([0x1000, 0x80, 0]))
    tail = []
    state = {"n": 0, "left": 1500}

    def block(depth, budget):
        out = []
        for _ in range(g.int(1, 3)):
            k = g.int(0, 13)
            state["n"] += 1
            i = state["n"]
            if k <= 3 and depth < 4:
                n = g.near(0, 6, 0, 1, 2) if g.chance(90) else g.near(0, max(1, budget // 4), 0, 1, 16, 100, 255, 256, 257)
                if g.chance(4):
                    n = -g.int(1, 5)
                if n > 0 and budget // n < 3:
                    n = 1
                e = str(n) if n >= 0 else "0-%d" % -n
                if g.chance(30):
                    s = "r%d" % i
                    (tail if g.chance(40) and depth == 0 else lines).append("%s equ %s" % (s, e))
                    e = g.pick([s, s + "+0", "[%s*1]" % s])
                elif g.chance(15) and depth:
                    e = "1+[v1&1]"
                    n = 2
                inner = block(depth + 1, budget // max(1, n))
                out += [" %s %s" % (g.pick(["repeat", "REPEAT", ".repeat"]), e)] + inner + [" " + g.pick(["repend", "REPEND"])]
                g.tag("nest %d" % (depth + 1))
            elif k == 4:
                out += ["v1 set v1+1", " dc.b <v1"]
            elif k == 5:
                out += [" subroutine", ".l dc.w .l"]
            elif k == 6:
                out += ["v2 set v2*2+1", " dc.w v2&$ffff", "v2 set v2&$fff"]
            elif k == 7:
                out += [" if v1&1", " dc.b $11", " else", " dc.b $22,$33", " endif"]
            elif k == 8:
                out.append(small(g, cpu))
            elif k == 9:
                out.append(" mm v1")
            elif k == 10:
                out.append(" align 4,$77" if budget > 8 else " dc.b 1")
            elif k == 11:
                out.append(" dc.w .,v1,v2")
            elif k == 12:
                out.append(" %s 2,%d" % (ds(cpu), g.int(0, 255)))
            else:
                out.append(" dc.b %d ; %d" % (g.int(0, 255), i))
        return out

    b = block(0, 1200)
    lines += ["v1 set %d" % g.int(0, 3), "v2 set 1", " mac mm", " dc.b <[{1}+1]", " repeat 2", " dc.b 5", " repend", " endm"]
    if g.chance(80):
        n = g.near(0, 30, 0, 1, 2)
        b = [" repeat %d" % n] + b + [" repend"] if len(b) < 8 else b
    files = {}
    if g.chance(12):
        files["r.h"] = "\n".join(b) + "\n"
        b = [" repeat 2", " include r.h", " repend"]
        g.tag("include in repeat")
    lines += b + ["fin dc.w fin"] + tail
    return done(g, lines, files=files)


def unrolled(g):
    """The loop and its body written out n times assemble alike."""
    cpu = g.pick(CPUS)
    n = g.near(0, 300, 0, 1, 2, 127, 128, 255, 256) if g.chance(50) else g.int(0, 20)
    body = [small(g, cpu) for _ in range(g.int(1, 3))] + g.pick([[], ["v set v+1", " dc.b <v"], [" align 2"]])
    a = head(g, cpu, 0x500) + ["v set 0", " repeat %s" % num(g, n)] + body + [" repend", "end_ dc.w end_"]
    b = a[:3] + body * n + ["end_ dc.w end_"]
    files = {"a.asm": "\n".join(a) + "\n", "b.asm": "\n".join(b) + "\n"}
    g.tag("n %d" % (n // 50 * 50))
    return Case(files, [
        {"tool": "dasm", "args": ["b.asm", "-ob.bin"], "keep": ["b.bin"], "expect": {"exit": 0}},
        {"tool": "dasm", "args": ["a.asm", "-oa.bin"], "expect": {"exit": 0, "same": [["a.bin", 0, "b.bin"]]}}])


def many(g):
    """Large counts, alone and as products of nested loops."""
    cpu = g.pick(CPUS)
    n = g.near(256, 40000, 1000, 1023, 1024, 1025, 4095, 4096, 32767, 32768, 65535) if g.chance(60) else g.int(250, 3000)
    lines = head(g, cpu, 0) + ["v set 0"]
    body = g.pick([[" dc.b <v", "v set v+1"], [" dc.b 7"], ["v set v+1"], [" dc.b >v", "v set v+3"]])
    k = g.int(0, 3)
    if k == 0:
        loop = [" repeat %s" % num(g, n)] + body + [" repend"]
    elif k == 1:
        a = g.int(2, 60)
        loop = [" repeat %d" % a, " repeat %d" % (n // a)] + body + [" repend", " repend"]
    elif k == 2:
        lines += [" mac big", " repeat {1}"] + body + [" repend", " endm"]
        loop = [" big %d" % n]
    else:
        loop = [" repeat cnt"] + body + [" repend"]
        lines.append("cnt equ %d" % n)
    lines += loop + [" dc.l v", "fin dc.l fin"]
    g.tag("n %d" % (n // 8192 * 8192))
    files = {"main.asm": "\n".join(lines) + "\n"}
    m = n if k != 1 else a * (n // a)
    out = bytearray()
    for i in range(m):
        if body[0] == " dc.b <v":
            out.append(i & 255)
        elif body[0] == " dc.b 7":
            out.append(7)
        elif body[0] == " dc.b >v":
            out.append((3 * i >> 8) & 255)
    v = {" dc.b <v": m, " dc.b 7": 0, "v set v+1": m, " dc.b >v": 3 * m}[body[0]]
    order = "little" if cpu in ("6502", "65c02") else "big"
    out += v.to_bytes(4, order)
    out += len(out).to_bytes(4, order)
    return Case(files, [{"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": bytes(out).hex()}}}])


add("C17", "program with REPEAT blocks whose bytes are compared, or one that has to be rejected", 6500, 26000, [
    (12, "loops", repeats), (4, "unrolled", unrolled), (1, "many", many), (3, "left open", left_open),
    (4, "programs", mix(weights=only(repeat=40, set=8, cond=6, macro=6, local=6, dyn=6))),
])

# ------------------------------------------------------------------------------------------ C18

JUNK = [" err", " org 1", " lda #$99999,q", " nosuchthing", " dc.b undefd", "lost", " include nosuchfile", " end", " seg other",
        " processor z80", " incbin nofile", "k1 set 99", " dc.b 1/0", " mexit", " rorg 5", " .dc.b 3", " subroutine", " list off",
        " dc.b [", " echo 1", "k1 equ 3", " dc.b \"a;b\"", " ds 0-5", " align 0", " hex zz", " lost_m 1,2"]


def conditions(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x600)
    consts = {"k1": g.int(0, 3), "k2": g.int(0, 300), "z0": 0, "m1": g.int(1, 5)}
    tail = []
    for n, v in consts.items():
        (tail if g.chance(20) and n != "k1" else lines).append("%s %s %s" % (n, "set" if n == "k1" else "equ", num(g, v)))
    late = {t.split()[0] for t in tail}
    known = [n for n in consts if n not in late]
    state = {"n": 0}

    def truth():
        """-> (text, taken)"""
        k = g.int(0, 9)
        want = g.chance(50)
        if k <= 3:
            n = g.pick(sorted(consts))
            v = consts[n]
            w = g.near(0, 300, v)
            t, r = g.pick([("%s==%d", v == w), ("%s!=%d", v != w), ("%s<%d", v < w), ("%s>%d", v > w), ("%s<=%d", v <= w), ("%s>=%d", v >= w)])
            t = t % (n, w)
            if g.chance(25):
                return " if (%s)" % t, r
            return " if %s" % (t if r == want else "![%s]" % t), want
        if k == 4:
            v = g.pick([1, 2, 255, 256, 0x10000, 0x100, -1]) if want else 0
            return " if %s" % (num(g, v) if v >= 0 else "-1"), want
        if k == 5:
            n = g.pick(sorted(consts))
            return " if %s%s" % (n, "" if (consts[n] != 0) == want else "==0" if consts[n] else "+1"), want
        if k == 6:
            w2 = g.chance(50)
            return (" if %s&&%s" if g.chance(50) else " if [%s]&&[%s]") % (int(want), int(w2)), want and w2
        if k == 7 and known:
            n = g.pick(known)
            d = g.pick(["ifconst", "ifnconst", "IFCONST", "IFNCONST"])
            return " %s %s" % (d, g.pick([n, n, "(%s)" % n, n + "+1", "(%s*2)" % n, "[%s]" % n, "5", "(5)"])), d.lower() == "ifconst"
        state["n"] += 1
        d = g.pick(["ifconst", "ifnconst"])
        return " %s %s" % (d, g.pick(["undef%d", "undef%d", "(undef%d)", "undef%d+1", "[undef%d]", "1+undef%d"]) % state["n"]), d != "ifconst"

    def lab():
        state["n"] += 1
        return "q%d" % state["n"] if g.chance(25) else ""

    def dead():
        """A label of skipped code; now and then the program uses it."""
        if not g.chance(25):
            return ""
        state["n"] += 1
        n = "dead%d" % state["n"]
        if g.chance(1):
            tail.append(" dc.w " + n)
            g.tag("label of skipped code")
        elif g.chance(40):
            # the same name may be defined elsewhere
            tail.append("%s dc.w %s" % (n, n))
        return n

    def junk(depth, macs=True):
        out = []
        for _ in range(g.int(0, 3)):
            if g.chance(25) and depth < 5:
                t, _ = truth()
                if g.chance(15):
                    t = g.pick([" if 1/0", " ifconst [", " ifnconst 1+", " if lost", " ifconst lost"])
                out += [dead() + t] + junk(depth + 1, macs) + ([dead() + " else"] + junk(depth + 1, macs) if g.chance(50) else []) + [dead() + g.pick([" endif", " eif"])]
            elif g.chance(12):
                out += [" repeat 3"] + junk(depth + 1, macs) + [" repend"] if g.chance(50) or not macs else [" mac jm%d" % state["n"], " dc.b 9", " else", " endif", " endm"]
            elif g.chance(20):
                d = dead()
                out.append(d + g.pick(["", " dc.b 1", " = 5" if d else "", " nop"]))
            else:
                out.append(g.pick(JUNK))
        return out

    def block(depth):
        out = []
        for _ in range(g.int(1, 3)):
            k = g.int(0, 9)
            if k <= 4 and depth < 7:
                t, r = truth()
                a = block(depth + 1) if r else junk(depth + 1)
                els = g.chance(65)
                b = [] if not els else junk(depth + 1) if r else block(depth + 1)
                la, lb, lc = lab(), lab(), lab()
                out += [la + t] + a + ([lb + g.pick([" else", " ELSE"])] + b if els else []) + [lc + g.pick([" endif", " eif", " ENDIF"])]
                for l in [la, lb if els else "", lc]:
                    if l and g.chance(60):
                        tail.append(" dc.w " + l)
                g.tag("nest %d" % (depth + 1), "else" if els else "no else")
            elif k == 5:
                state["n"] += 1
                out.append("lb%d dc.w lb%d" % (state["n"], state["n"]))
            elif k == 6:
                out += [" repeat 2", " if k1==%d" % consts["k1"], " dc.b 4", " else"] + junk(depth + 1) + [" endif", " repend"]
            elif k == 7:
                out.append(" mc %d" % g.int(0, 3))
            else:
                out.append(small(g, cpu))
        return out

    b = block(0)
    lines += [" mac mc", " if {1}", " dc.b {1}", " if {1}==2", " mexit", " endif", " else", " dc.b $70", " if 0"] + junk(4, False) + [" endif", " endif", " dc.b $77", " endm"]
    files = {}
    if g.chance(15):
        files["c.h"] = "\n".join(b) + "\n"
        t, r = truth()
        b = [t] + ([' include "c.h"', " else", " dc.b 8", " endif"] if r else [" dc.b 8", " else", ' include "c.h"', " endif"])
        g.tag("include in if")
    lines += b + ["fin dc.w fin"] + tail
    return done(g, lines, files=files)


def forward_ifs(g):
    """Conditions whose value is known only in a later pass."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x700)
    n = g.int(1, 4)
    tail = []
    for i in range(n):
        v = g.int(0, 2)
        k = g.int(0, 3)
        c = ["f%d", "f%d==1", "f%d>0&&1", "f%d!=2"][k] % i
        lines += [" if " + c] + [small(g, cpu) for _ in range(g.int(1, 3))] + (["t%d dc.w t%d" % (i, i)] if g.chance(40) else [])
        if g.chance(70):
            lines += [" else", " dc.b $e%d" % i] + ([" if f%d==%d" % (i, g.int(0, 2)), " dc.b 1", " endif"] if g.chance(40) else [])
        lines += [" endif"]
        tail.append("f%d equ %s" % (i, v if g.chance(60) or i == 0 else "f%d" % (i - 1)))
    return done(g, lines + ["x1 dc.w x1"] + g.shuffle(tail))


add("C18", "program with conditionals whose bytes are compared, or one that has to be rejected", 6500, 26000, [
    (12, "conditions", conditions), (4, "forward", forward_ifs), (3, "left open", left_open),
    (4, "programs", mix(weights=only(cond=40, macro=8, repeat=6, include=4, set=6))),
])

# ------------------------------------------------------------------------------------------ C19


def includes(g):
    cpu = g.pick(CPUS)
    files, incdirs = {}, []
    lines = head(g, cpu, 0x800)
    state = {"n": 0}
    dirs = ["", "", "lib/", "lib/sub/", "inc2/", "d/", "9/"]

    def body(depth):
        out = []
        for _ in range(g.int(1, 3)):
            k = g.int(0, 9)
            state["n"] += 1
            i = state["n"]
            if k <= 3 and depth < 6:
                inner = body(depth + 1)
                eol = "\r\n" if g.chance(15) else "\n"
                t = eol.join(inner) + g.pick([eol, "", eol + eol])
                if g.chance(12):
                    t = eol.join(inner + [" end", " err", " dc.b 99"]) + eol
                    g.tag("end in include")
                elif g.chance(8):
                    # END in a macro, at times called by another one
                    two = g.chance(60)
                    pre = [" mac em%d" % i, ".e dc.w .e", " end", " dc.b $98", " endm"]
                    if two:
                        pre += [" mac en%d" % i, ".e dc.w .e", g.pick([" em%d", " if 1\n em%d\n endif", " repeat 2\n em%d\n repend"]) % i, " dc.b $97", " endm"]
                    t = eol.join("\n".join(pre + inner + [" %s%d" % ("en" if two else "em", i), " err", " dc.b 99"]).split("\n")) + eol
                    g.tag("end in macro")
                d = g.pick(dirs)
                name = g.pick(["f%d.h", "f%d.asm", "File%d.inc", "n%d", "%dx.h", "9%d.h", "_%d", "0%d.asm"]) % i
                files[d + name] = t
                if d and g.chance(60):
                    dn = d.rstrip("/")
                    if g.chance(50):
                        if dn not in incdirs:
                            incdirs.append(dn)
                    else:
                        out.append(' incdir "%s"' % dn)
                    ref = name
                    if d == "lib/sub/" and g.chance(50):
                        out.append(' incdir "lib"')
                        ref = "sub/" + name
                        g.tag("searched with a directory")
                    g.tag("searched")
                    if g.chance(25):
                        # the current directory comes first
                        files[name] = " dc.b $c%d\n" % g.int(0, 9)
                        g.tag("current directory first")
                    elif g.chance(25):
                        for d2 in ("lib/", "lib/sub/", "inc2/", "d/"):
                            if d2 != d and g.chance(50):
                                files[d2 + name] = " dc.b $d%d\n" % g.int(0, 9)
                                if g.chance(50) and d2[:-1] not in incdirs:
                                    incdirs.append(d2[:-1])
                        g.tag("several directories")
                else:
                    ref = d + name
                q = g.pick(['"%s"', '"%s"', "%s"]) % ref
                if "/" in ref and ref.split("/")[-1][0].isdigit():
                    # without quotes this reads as a division
                    q = '"%s"' % ref
                lab = "i%d" % i if g.chance(25) else ""
                out.append("%s %s %s" % (lab, g.pick(["include", "INCLUDE"]), q))
                g.tag("depth %d" % (depth + 1))
            elif k == 4:
                n = g.near(0, 40, 0, 1, 2, 16)
                far = False
                if g.chance(15):
                    data = bytes(range(256))
                elif g.chance(10):
                    data = bytes((j * 7 + (j >> 8)) & 255 for j in range(g.near(300, 3000, 511, 512, 513, 1023, 1024, 1025, 2048)))
                    g.tag("long binary")
                elif g.chance(2):
                    # offsets that need more than 16 bits
                    data = bytes((j * 7 + (j >> 8)) & 255 for j in range(g.near(65000, 67000, 65535, 65536, 65537)))
                    far = True
                    g.tag("far offset")
                else:
                    data = bytes(g.pick([0, 10, 13, 26, 34, 255, g.int(0, 255)]) for _ in range(n))
                d = g.pick(dirs)
                fn = "b%d.bin" % i
                files[d + fn] = {"hex": data.hex()}
                if d and g.chance(50):
                    if d == "lib/sub/" and g.chance(50):
                        d, fn = "lib/", "sub/" + fn
                    if d[:-1] not in incdirs:
                        incdirs.append(d[:-1])
                else:
                    fn = d + fn
                a = '"%s"' % fn
                if far or g.chance(40):
                    s = g.near(max(0, len(data) - 3000) if far else 0, len(data), 0, 1, len(data)) if g.chance(94) else len(data) + g.pick([1, 2, 100, 70000])
                    e = num(g, s)
                    if g.chance(30):
                        lines.append("sk%d equ %d" % (i, s))
                        e = "sk%d" % i
                    a += "," + e
                    g.tag("skip")
                out.append("%s incbin %s" % ("b%d" % i if g.chance(40) else "", a))
                out.append("a%d dc.w a%d" % (i, i))
            elif k == 5:
                out.append("l%d dc.w l%d" % (i, i))
            elif k == 6:
                out += [".x%d dc.w .x%d" % (i, i)]
            elif k == 7:
                out += ["v%d set %d" % (i, g.int(0, 255)), " dc.b v%d" % i]
            else:
                out.append(small(g, cpu))
        return out

    b = body(0)
    if g.chance(6):
        b.append(g.pick([' include "missing.h"', ' incbin "missing.bin"', " include missing", ' incbin "b1.bin",undefinedskip']))
        g.tag("missing file")
    if g.chance(10):
        n = ["s.h", "t.h"][g.int(0, 1)]
        files[n] = " dc.b $5a\n"
        b += ['fname equ "%s"' % n, " include fname"] if g.chance(50) else [" include %s" % n] * 3
    return done(g, lines + b + ["fin dc.w fin"], files=files, incdirs=incdirs)


def flattened(g):
    """A program cut into included files assembles like the whole text; INCBIN like DC.B."""
    p = P(g, size=(4, 20), weights={"include": 0, "incbin": 0, "macro": 0}).generate()
    lines = list(p.lines)
    files = {"whole.asm": "\n".join(lines) + "\n"}
    depth = 0
    cuts = []
    mac = False
    for i, l in enumerate(lines):
        w = l.split(";")[0].lower().split()
        if mac:
            mac = "endm" not in [x.lstrip(".^#") for x in w[:2]]
            continue
        if any(x.lstrip(".^#") in ("mac", "macro") for x in w[:2]):
            mac = True
            continue
        if i >= 2 and depth == 0:
            cuts.append(i)
        for x in w[:2]:
            if x.lstrip(".^#") in ("if", "ifconst", "ifnconst", "ifndef", "repeat", "rorg"):
                depth += 1
            elif x.lstrip(".^#") in ("endif", "eif", "repend", "rend"):
                depth -= 1
    if len(cuts) < 2:
        raise Skip("nothing to cut")
    a = g.pick(cuts)
    b = g.pick([c for c in cuts if c >= a])
    files["part.inc"] = "\n".join(lines[a:b]) + ("\n" if g.chance(50) else "")
    files["cut.asm"] = "\n".join(lines[:a] + [' include "part.inc"'] + lines[b:]) + "\n"
    files.update(p.files)
    if any(l.split(";")[0].strip().lower().lstrip(".^#") == "end" for l in lines[a:b]):
        raise Skip("END inside")
    r1 = {"tool": "dasm", "args": ["whole.asm", "-f%d" % p.fmt, "-P30", "-oa.bin"], "keep": ["a.bin"], "expect": {"exit": "any"}}
    r2 = {"tool": "dasm", "args": ["cut.asm", "-f%d" % p.fmt, "-P30", "-ob.bin"], "expect": {"same": [["b.bin", 0, "a.bin"]], "same_exit": 0}}
    return Case(files, [r1, r2])


add("C19", "program that reads at least one further file and whose bytes are compared, or one that has to be rejected", 6500, 26000, [
    (12, "files", includes), (4, "flattened", flattened), (2, "left open", left_open),
    (4, "programs", mix(weights=only(include=25, incbin=20, macro=6))),
])

# ------------------------------------------------------------------------------------------ C20


def locals_(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0x900)
    names = [".a", ".b", ".loop", ".1", ".skip_it"]
    st = {"n": 0, "have": [], "ref": []}
    out = []
    bad = g.chance(8)

    def flush():
        # everything referenced in this scope has to be defined in it
        for n in st["ref"]:
            if n not in st["have"]:
                out.append(n + g.pick(["", ":", " dc.b 2"]))
                st["have"].append(n)
        st["have"], st["ref"] = [], []

    macs = []
    for i in range(g.int(0, 2)):
        n = g.pick(names)
        m = g.pick(names)
        inner = [] if not macs or g.chance(60) else [" " + g.pick(macs)]
        body = ["%s dc.w %s" % (n, n)] + inner + [" dc.w %s" % n] + ([" dc.w %s" % m, m] if m != n and g.chance(50) else [])
        if g.chance(20):
            body += [" subroutine", n, " dc.w %s" % n]
        if g.chance(30):
            body += ["%d$ dc.w %d$" % (i + 1, i + 1)]
        lines += [" mac lm%d" % i] + body + [" endm"]
        macs.append("lm%d" % i)
    for _ in range(g.int(3, 14)):
        k = g.int(0, 13)
        st["n"] += 1
        if k <= 2:
            flush()
            lab = "s%d" % st["n"] if g.chance(50) else ""
            out.append("%s %s" % (lab, g.pick(["subroutine", "SUBROUTINE", "subroutine"])))
            g.tag("subroutine")
        elif k <= 5:
            n = g.pick(names)
            if n not in st["have"]:
                st["have"].append(n)
                out.append("%s%s" % (n, g.pick(["", ":", " dc.b 1", " nop"])))
        elif k <= 8:
            n = g.pick(names)
            st["ref"].append(n)
            out.append(" dc.w %s%s" % (n, g.pick(["", "+1", "-."])))
        elif k == 9 and macs:
            out.append(" " + g.pick(macs))
            g.tag("macro scope")
        elif k == 10:
            # a normal label starts a new scope for number$ labels
            out.append("n%d" % st["n"])
            for j in range(g.int(1, 3)):
                out += ["%d$ dc.w %d$" % (j + 1, j + 1)] if g.chance(50) else [" dc.w %d$" % (j + 1), "%d$" % (j + 1)]
            if g.chance(40):
                out += [".in%d" % st["n"], " dc.w 1$"]
            g.tag("dollar")
        elif k == 11:
            n = ".v%d" % g.int(0, 2)
            if n not in st["have"]:
                st["have"].append(n)
                out += ["%s %s %d" % (n, g.pick(["=", "equ"]), g.int(0, 255)), " dc.b " + n]
        elif k == 12:
            flush()
            out += [" repeat %d" % g.int(1, 3), " subroutine", ".r dc.w .r", " dc.w .f", ".f", " repend"]
            st["have"] = [".r", ".f"]
        else:
            out += [".s%d set %d" % (st["n"], g.int(0, 99)), " dc.b .s%d" % st["n"], ".s%d set .s%d+1" % (st["n"], st["n"]), " dc.b .s%d" % st["n"]]
    if bad:
        st["ref"] = []
        out += [g.pick([" dc.w .never", " subroutine\n dc.w .a_first", "zz dc.w 9$", ".a_first2\n subroutine\n dc.w .a_first2"])]
        g.tag("out of scope")
    flush()
    if not bad and g.chance(30):
        files = {"l.h": "\n".join(["; in the same scope", ".inside dc.w .inside"]) + "\n"}
        out += [" subroutine", ' include "l.h"', " dc.w .inside"]
        return done(g, lines + out, files=files)
    return done(g, lines + out)


def dollars(g):
    """number$ labels used across everything that does not end their scope."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0xA80)
    lines += [" mac dm", "1$ dc.w 1$", ".l dc.w .l", " endm", " mac dn", " dm", "7$ dc.w 7$", " endm"]
    lines += [" mac dq", "dq{1} nop", "1$ dc.w 1$", " endm"]
    lines += [" mac dr", "1$ dc.w 1$", "2$ nop", "dr{1}" + g.pick(["", " nop", ":"]), "1$ dc.w 1$", " dc.w 3$", "3$", " endm"]
    files = {"d.h": " dc.b 1\n"}
    out = []
    tail = []
    for s in range(g.int(1, 6)):
        out.append("%s%d%s" % (g.pick(["top", "top", "@top", "_top", "Top", "?top"]), s, g.pick(["", ":", " nop", " dc.b 1", " subroutine", " = ."])))
        if out[-1].endswith(" = ."):
            out.append("top%d_b" % s)
        names = ["%d$" % k for k in g.sample([1, 2, 3, 7, 10, 99], g.int(1, 3))]
        todo = list(names)
        for _ in range(g.int(3, 9)):
            k = g.int(0, 11)
            if k <= 2 and todo:
                out.append(todo.pop() + g.pick(["", ":", " dc.b 2", " nop"]))
            elif k <= 5:
                out.append(" dc.w " + g.pick(names) + g.pick(["", "+1"]))
            elif k == 6:
                out.append(" " + g.pick(["dm", "dn", "dm"]))
                g.tag("macro between")
            elif k == 7:
                out.append(g.pick([".d%d_%d" % (s, len(out)), "e%d = 5" % len(out), "e%d set 5" % len(out), "e%d eqm 5" % len(out), " subroutine"]))
                g.tag("no end of scope")
            elif k == 8:
                out.append(g.pick([' include "d.h"', " align 2", " if 1\n dc.b 1\n endif", " repeat 2\n dc.b 3\n repend"]))
            elif k == 9:
                out.append(" %s %d" % (g.pick(["dq", "dr"]), len(out)))
                g.tag("label in macro between")
            elif k == 10:
                out.append(" if 0\nskipped%d\n endif" % len(out))
            else:
                out.append(small(g, cpu))
        if g.chance(6) and todo:
            todo.pop()
            g.tag("undefined")
        out += todo
    if g.chance(6):
        out += ["other", " dc.w 55$", "last", "55$"]
        g.tag("undefined")
    return done(g, lines + out, files=files)


def scopes(g):
    """More scopes than fit in a byte, all with the same names."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0xA00)
    n = g.near(200, 600, 255, 256, 257, 512)
    kind = g.int(0, 3)
    lines += [" mac sm", ".a dc.w .a,1$", "1$", " endm"]
    for i in range(n):
        k = g.int(0, 2) if kind == 3 else kind
        if k == 0:
            lines += ["g%d" % i, " dc.w 1$,2$", "1$", "2$ dc.b 1"]
        elif k == 1:
            lines += [" subroutine", " dc.w .a,.b", ".a", ".b dc.b 1"]
        else:
            lines += [" sm"]
    g.tag("scopes " + "dollar dot macro mixed".split()[kind])
    return done(g, lines)


def twice(g):
    """The same local name in several scopes, with branches to it."""
    cpu = g.pick([c for c in CPUS if c != "f8"])
    br = g.pick(["bne", "beq"])
    lines = head(g, cpu, 0xA00)
    n = g.int(2, 12)
    for i in range(n):
        lines.append(g.pick(["sub%d subroutine" % i, " subroutine", "sub%d: SUBROUTINE" % i]))
        k = g.int(0, 3)
        pad = [" nop"] * g.int(0, 5)
        if k == 0:
            lines += [".loop"] + pad + [" %s .loop" % br]
        elif k == 1:
            lines += [" %s .out" % br] + pad + [".out"]
        elif k == 2:
            lines += [".loop"] + pad + [" %s .out" % br, " %s .loop" % br, ".out dc.b 1"]
        else:
            lines += [".loop equ %d" % i, " dc.b .loop"]
    return done(g, lines)


add("C20", "program with local labels in several scopes whose bytes are compared, or one that has to be rejected", 7000, 28000, [
    (10, "scopes", locals_), (8, "dollar", dollars), (3, "branches", twice), (1, "many scopes", scopes),
    (4, "programs", mix(weights=only(sub=14, local=25, dollar=14, macro=12, repeat=6, include=4))),
])

# ------------------------------------------------------------------------------------------ C21


def assigns(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0xB00)
    defs = []
    tail = []
    have = []  # numbers usable now
    strs = []
    sets = []
    eqms = []
    out = []
    n0 = 0

    def fresh():
        nonlocal n0
        n0 += 1
        return g.pick(["n%d", "Name_%d", "_u%d", "A%d.b", "x%d", "L%d"]) % n0

    def val():
        k = g.int(0, 6)
        if k <= 1 and have:
            return g.pick([g.pick(have), g.pick(have) + "+%d" % g.int(0, 5), "[%s]*2" % g.pick(have)])
        if k == 2:
            return g.pick([".", "*", ".-1"])
        v = g.near(0, 70000, 0, 255, 256, 65535, 65536)
        return num(g, v if g.chance(90) else -v)

    for _ in range(g.int(0, 4)):
        n = fresh()
        k = g.int(0, 5)
        if k == 0:
            defs.append(("D", n))
        elif k <= 3:
            v = g.near(0, 70000, 0, 1, 255, 256)
            defs.append(("D", "%s=%s" % (n, g.pick([num(g, v), "%d+%d" % (v, 3), "-%d" % v, "[1+2]*%d" % g.int(0, 9)]))))
        elif k == 4:
            defs.append(("M", "%s=%s" % (n, g.pick(["5", ".", ".+1", "3*4", "later_1"]))))
            if "later_1" in defs[-1][1] and "later_1 equ 9" not in tail:
                tail.append("later_1 equ 9")
            eqms.append(n)
            continue
        else:
            t = "".join(g.pick("abcXYZ") for _ in range(g.int(1, 5)))
            defs.append(("D", '%s="%s"' % (n, t)))
            strs.append(n)
            continue
        have.append(n)
        sets.append(n)
        g.tag("-" + defs[-1][0])
    for _ in range(g.int(2, 12)):
        k = g.int(0, 15)
        if k <= 2:
            n = fresh()
            out.append("%s %s %s" % (n, g.pick(["equ", "EQU", "="]), val()))
            have.append(n)
        elif k <= 4:
            n = g.pick(sets) if sets and g.chance(60) else fresh()
            out.append("%s %s %s" % (n, g.pick(["set", "SET"]), (n + "+1") if n in have and g.chance(40) else val()))
            sets.append(n)
            have.append(n)
        elif k == 5:
            n = fresh()
            e = g.pick([".", ".+2", "*", "7"] + [h + "+1" for h in have[:3]] + ["late%d*2" % g.int(1, 2)]
                       + [g.pick(["3+%s", "%s*2+1", "[%s]-1", "1+[2*%s]"]) % q for q in eqms[:2]])
            if "late" in e and "%s equ 3" % e.split("*")[0] not in tail:
                tail.append("%s equ 3" % e.split("*")[0])
            out.append("%s eqm %s" % (n, e))
            eqms.append(n)
            g.tag("eqm")
        elif k == 6 and eqms:
            out.append(g.pick([" dc.l %s,%s+1", " dc.l 1+%s,2+3*%s", " dc.l [5-%s]+1,1+2*[3-%s]"]) % (g.pick(eqms), g.pick(eqms)))
        elif k == 7:
            n = fresh()
            t = "".join(g.pick("abcXYZ_.9 ") for _ in range(g.int(1, 7))).strip() or "q"
            out.append("%s setstr %s" % (n, t))
            strs.append(n)
            g.tag("setstr")
        elif k == 8 and strs:
            out.append(" dc.%s %s" % (g.pick("bwl"), g.pick(strs)))
        elif k == 9 and have:
            # the name in the string is looked up
            n, m = fresh(), fresh()
            out += ["%s setstr %s" % (n, g.pick(have)), "%s setsym %s" % (m, n), " dc.l " + m]
            have.append(m)
            g.tag("setsym")
            if g.chance(40):
                # nothing is set while the name is not known yet
                u = "lt%d" % n0
                n0 += 1
                out += ["%s set 7" % m] * g.int(0, 1) + ["%s setsym %s%s" % (m, u, g.pick(["", "", "+1"])), " dc.l " + m]
                if g.chance(85):
                    tail.append("%s %s %d" % (u, g.pick(["equ", "=", "set"]), g.int(0, 60000)))
                g.tag("setsym unknown")
        elif k == 10:
            n = fresh()
            out.append("%s %s \"%s\"" % (n, g.pick(["equ", "set", "="]), "".join(g.pick("pqrS") for _ in range(g.int(1, 4)))))
            strs.append(n)
        elif k == 11 and have:
            h = g.pick(have)
            out.append(" dc.l %s" % h)
        elif k == 12:
            n = fresh()
            v = g.near(0, 0x7FFFFFFF, 0, 99, 255, 256, 65535, 65536)
            w = v if g.chance(80) else v ^ (1 << g.int(0, 30))
            out += ["%s %s %d" % (n, g.pick(["equ", "="]), v), " dc.l %s" % n, "%s %s %d" % (n, g.pick(["equ", "="]), w)]
            g.tag("equ twice")
        elif k == 13:
            n = "fw%d" % n0
            n0 += 1
            out.append(" dc.w %s" % n)
            tail.append("%s %s %d" % (n, "equ", g.int(0, 60000)))
        elif k == 14 and have:
            out += [" repeat 3", "ctr set ctr+1", " dc.b ctr", " repend"]
            if "ctr set 0" not in lines:
                lines.append("ctr set 0")
        else:
            out.append(small(g, cpu))
    for h in g.sample(have, min(3, len(have))):
        out.append(" dc.l %s" % h)
    return done(g, lines + out + tail, defs=defs)


add("C21", "program with assignments whose bytes and symbol values are compared, or one that has to be rejected", 7000, 28000, [
    (14, "assignments", assigns),
    (4, "programs", mix(syms=100, weights=only(equ=25, set=20, eqm=14, setstr=10, repeat=6, macro=6))),
])

# ------------------------------------------------------------------------------------------ C22


def dynamic(g):
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0xC00)
    out, tail = [], []
    vars_ = {}
    for i in range(g.int(1, 3)):
        v = g.near(0, 70000, 0, 9, 10, 99, 100, 255, 65535) if g.chance(92) else g.near(70000, 0x3FFFFFFF, 0xFFFFFF, 0x1000000)
        n = ["i", "idx", "Big_1"][i]
        vars_[n] = v
        lines.append("%s %s %d" % (n, g.pick(["set", "="]), v))
    made = {}
    k0 = 0
    for _ in range(g.int(1, 7)):
        k0 += 1
        base = g.pick(["lab", "Dyn_", "t%d_" % k0, "q"]) + "k%d" % k0
        parts, name = [], base
        for _ in range(g.int(1, 4)):
            if g.chance(45):
                s = "".join(g.pick("abXY_019") for _ in range(g.int(1, 4)))
                parts.append('"%s"' % s)
                name += s
            else:
                n = g.pick(sorted(vars_))
                e, v = g.pick([(n, vars_[n]), (n + "+1", vars_[n] + 1), (n + "*2", vars_[n] * 2), ("3", 3), ("$1f", 31), (n + "&7", vars_[n] & 7)])
                parts.append(e)
                name += str(v)
        g.tag("parts %d" % len(parts))
        text = base + "," + ",".join(parts)
        k = g.int(0, 8)
        fwd = g.chance(40)
        if k <= 2:
            d = ["%s dc.w %s" % (text, name)]
        elif k == 3:
            d = [text + g.pick(["", ":"]), " dc.b 1"]
        elif k == 4:
            d = ["%s %s %d" % (text, g.pick(["equ", "=", "set"]), g.int(0, 255))]
            fwd = False
        elif k == 5:
            d = ["%s%s" % (text, ins(g, cpu))]
        elif k == 6:
            val = g.int(0, 999)
            d = ["%s = %d" % (name, val), "got%d set %s" % (k0, text), " dc.w got%d" % k0]
            fwd = False
        elif k == 7:
            d = [" if 1", "%s dc.b 7" % text, " endif"]
        else:
            d = ["%s=%d" % (text, g.int(0, 255)), " dc.b %s" % name]
            fwd = False
        if fwd:
            out += [" dc.w %s" % name] + d
        else:
            out += d + [" dc.w %s" % name]
    return done(g, lines + out + tail)


def loops(g):
    """Labels numbered by a loop counter, referenced from before and after."""
    cpu = g.pick(CPUS)
    n = g.near(1, 40, 1, 9, 10, 11)
    a, step = g.int(0, 120), g.int(1, 3)
    names = ["row" + str(a + step * i) for i in range(n)]
    lines = head(g, cpu, 0xD00)
    if g.chance(50):
        lines += [" dc.w " + ",".join(g.sample(names, min(n, 5)))]
    suffix = g.pick(["", ',"_x"'])
    lines += ["c set %d" % a, " repeat %d" % n, "row,c%s dc.w ." % suffix] + g.pick([[], [" nop"], [" dc.b c"]]) + ["c set c+%d" % step, " repend"]
    if suffix:
        names = [x + "_x" for x in names]
        if lines[2].startswith(" dc.w row"):
            lines[2] = " dc.w " + ",".join(g.sample(names, min(n, 5)))
    lines += [" dc.w " + ",".join(g.sample(names, min(n, 5)))]
    if g.chance(50):
        # read them back through SET
        lines += ["c set %d" % a, " repeat %d" % n, "v set row,c%s" % suffix, " dc.w v", "c set c+%d" % step, " repend"]
        g.tag("read back")
    if g.chance(40):
        lines += [" mac mk", "m_,{1} dc.w m_{2}", "m_,{1},\"b\" dc.b 1", " dc.w m_{2}b", " endm"]
        for _ in range(g.int(1, 3)):
            v = g.int(0, 99)
            if any(" mk %d," % v in l for l in lines):
                continue
            lines.append(" mk %d,%d" % (v, v))
        g.tag("in macro")
    return done(g, lines)


def late(g):
    """Labels whose arguments are defined further down: the name is known from the second pass on."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu, 0xE00)
    n = g.int(1, 4)
    vals = [g.near(0, 70000, 0, 9, 10, 255, 65535) for _ in range(n)]
    body = []
    used = set()
    for i in range(g.int(1, 6)):
        v = g.int(0, n - 1)
        name = "lab%d_%d" % (i if g.chance(70) else 0, vals[v])
        stem = name[: name.index("_") + 1]
        if name in used:
            continue
        used.add(name)
        arg, rest = g.pick([("v%d" % v, ""), ("v%d" % v, '"e"'), ("v%d*1" % v, ""), ("v%d+0" % v, '"_x"')])
        text = "%s,%s%s" % (stem, arg, "," + rest if rest else "")
        name += rest.strip('"')
        d = g.pick([["%s dc.w ." % text], [text, " dc.b 1"], ["%s:" % text, " dc.b 2"], ["%s%s" % (text, ins(g, cpu))], ["%s:%s" % (text, ins(g, cpu).strip())]])
        use = [" dc.w %s" % name]
        if g.chance(25):
            # SET to a symbol whose name is put together
            d = ["%s = %d" % (name, g.int(0, 999)), "got%d set %s" % (i, text)]
            use = [" dc.w got%d" % i]
            body += d + use
            g.tag("late SET")
            continue
        k = g.int(0, 3)
        body += use + d if k == 0 else d + use if k == 1 else d
        if k == 3:
            lines += use
    body = wrap_context(g, body) if g.chance(30) else body
    tail = ["v%d %s %d" % (i, g.pick(["equ", "="]), v) for i, v in enumerate(vals)]
    return done(g, lines + [" dc.b 1"] + body + [" dc.b 2"] + tail)


add("C22", "program with dynamic labels whose bytes and symbol names are compared", 7000, 28000, [
    (12, "names", dynamic), (6, "loops", loops), (4, "late arguments", late),
    (3, "programs", mix(syms=100, weights=only(dyn=30, set=8, repeat=6))),
])
