"""C33 the machine files that come with dasm."""

import json
import os

from ..gen import Case, Skip
from ..proggen import pass_args, ref_run
from .util import *

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "machines.json")))

TIA_W = """VSYNC VBLANK WSYNC RSYNC NUSIZ0 NUSIZ1 COLUP0 COLUP1 COLUPF COLUBK CTRLPF REFP0 REFP1 PF0 PF1 PF2 RESP0 RESP1
RESM0 RESM1 RESBL AUDC0 AUDC1 AUDF0 AUDF1 AUDV0 AUDV1 GRP0 GRP1 ENAM0 ENAM1 ENABL HMP0 HMP1 HMM0 HMM1 HMBL VDELP0 VDELP1
VDELBL RESMP0 RESMP1 HMOVE HMCLR CXCLR""".split()
TIA_R = "CXM0P CXM1P CXP0FB CXP1FB CXM0FB CXM1FB CXBLPF CXPPMM INPT0 INPT1 INPT2 INPT3 INPT4 INPT5".split()
RIOT = {"SWCHA": 0x280, "SWACNT": 0x281, "SWCHB": 0x282, "SWBCNT": 0x283, "INTIM": 0x284, "TIMINT": 0x285, "TIM1T": 0x294,
        "TIM8T": 0x295, "TIM64T": 0x296, "T1024T": 0x297, "TIM1I": 0x29C, "TIM8I": 0x29D, "TIM64I": 0x29E, "T1024I": 0x29F}


def number(g, v):
    return g.pick(["%d", "$%x", "$%04X"]) % v


def option(g, name, v, lines, args):
    """A setting made before the machine file is read."""
    if g.chance(50):
        args.append("-D%s=%s" % (name, number(g, v)))
        g.tag("-D setting")
    else:
        lines.append("%s %s %s" % (name, g.pick(["equ", "=", "set"]), number(g, v)))
        g.tag("setting in the source")


def vcs(g, lines, args):
    """Lines that read vcs.h -> its registers."""
    base, rd, wr = 0, None, None
    if g.chance(40):
        base = g.pick([0x40, 0x40, 0x80, 0, 0x20])
        option(g, "TIA_BASE_ADDRESS", base, lines, args)
    if g.chance(15):
        rd = g.pick([0x30, 0x40, 0, 0x100])
        option(g, "TIA_BASE_READ_ADDRESS", rd, lines, args)
    if g.chance(15):
        wr = g.pick([0x40, 0, 0x80])
        option(g, "TIA_BASE_WRITE_ADDRESS", wr, lines, args)
    rd, wr = base if rd is None else rd, base if wr is None else wr
    lines.append(include(g, "vcs.h"))
    regs = {n: wr + i for i, n in enumerate(TIA_W)}
    regs.update({n: rd + i for i, n in enumerate(TIA_R)})
    regs.update(RIOT)
    return regs


def include(g, name):
    return g.pick([' include "%s"', ' INCLUDE "%s"', "\tinclude\t\"%s\""]) % name


def uses(g, cpu, regs):
    """Statements that use registers."""
    out = []
    names = sorted(regs)
    for _ in range(g.int(1, 6)):
        n = g.pick(names)
        if cpu == "f8":
            t = " dci %s" if g.chance(50) or regs[n] > 255 else " li %s"
        elif cpu == "68HC11":
            t = g.pick([" ldaa %s", " staa %s", " ldd %s"])
        elif cpu == "68908":
            t = g.pick([" lda %s", " sta %s", " ora %s"])
        else:
            t = g.pick([" sta %s", " lda %s", " bit %s", " lda %s,x", " inc %s"])
        out.append(g.pick([t, t, " dc.w %s", " dc.w %s+1"]) % n)
    for n in g.sample(names, min(len(names), g.int(2, 12))):
        out.append(" dc.w %s" % n)
    return out


def twin_case(g, lines, twin, regs, args, incdir):
    """dasm assembles the lines; the same program without the machine files gives the expected output."""
    res = ref_run({"main.asm": "\n".join(twin) + "\n"}, "main.asm", 3)
    if not res.ok:
        raise Skip("meant to be valid: %s" % res.reason)
    entries = [[n, v, "num", None] for n, v in sorted(regs.items())]
    run = {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-so.sym", "-I@machines@/" + incdir] + args + pass_args(res),
           "expect": {"exit": 0, "out": {"file": "o.bin", "hex": res.image.hex()},
                      "sym": {"file": "o.sym", "entries": entries, "exact": False}}}
    return Case({"main.asm": "\n".join(lines) + "\n"}, [run])


MACHINES = ["2600", "2600", "7800", "68hc11a1", "68hc11e1", "68hc811e2", "jk1", "jk3", "jb8", "mr32", "ves"]


def start(g, m, f_cpu=None):
    """-> lines that read the machine file, lines of the twin, registers, options, include directory, cpu"""
    lines, twin, args = [], [], []
    g.tag("machine " + m)
    org = None
    if m == "2600":
        lines.append(" processor 6502")
        regs = vcs(g, lines, args)
        cpu, d = "6502", "atari2600"
    elif m == "7800":
        lines += [" processor 6502", include(g, "7800.h")]
        regs, cpu, d = dict(TABLES["atari7800/7800.h"]), "6502", "atari7800"
    elif m == "ves":
        lines += [" processor f8", " org $%x" % g.pick([0x800, 0x700]), include(g, "ves.h")]
        regs, cpu, d = dict(TABLES["channel-f/ves.h"]), "f8", "channel-f"
    elif m.startswith("68hc"):
        base = 0
        if g.chance(50):
            base = g.pick([0x1000, 0x1000, 0xB000, 0, 0x40])
            option(g, "REGBASE", base, lines, args)
        if g.chance(30):
            lines.insert(0, " processor 68HC11")
        lines.append(include(g, m + ".asm"))
        regs = dict(TABLES["68hc11/%s.asm" % m])
        regs.update({n: base + v for n, v in TABLES["68hc11 registers"].items()})
        cpu, d = "68HC11", "68hc11"
    else:
        regs = dict(TABLES["68hc908/mc68hc908%s.asm" % m])
        for n in ("RAM_START", "RAM_SIZE", "FLASH_START", "FLASH_SIZE"):
            if g.chance(10):
                v = g.pick([0x60, 0x88, 0xB0]) if n == "RAM_START" else g.int(64, 0xFFFF)
                option(g, n, v, lines, args)
                if n == "RAM_START":
                    for k in regs:
                        if k.startswith("fw"):
                            regs[k] += v - regs[n]
                regs[n] = v
        f_cpu = g.int(1, 8)
        lines += ["F_CPU equ %d" % f_cpu, include(g, "mc68hc908%s.asm" % m)]
        regs["F_CPU"] = f_cpu
        cpu, d = "68908", "68hc908"
    twin.append(" processor " + cpu)
    twin += ["%s equ %d" % i for i in sorted(regs.items())]
    return lines, twin, regs, args, d, cpu


def registers(g):
    lines, twin, regs, args, d, cpu = start(g, g.pick(MACHINES))
    body = [" org $%x" % g.pick([0xF000, 0x1000, 0x8000, 0x200])] + uses(g, cpu, regs)
    return twin_case(g, lines + body, twin + body, regs, args, d)


# ---------------------------------------------------------------- macros of the 6502 machines
def regs6502(g):
    return [g.pick([0, 1, 0x7F, 0x80, 0xFF, g.int(0, 255)]) for _ in range(3)] + [
        g.pick([0xFF, 0xFD, g.int(0x10, 0xFF)]), g.pick([0, 1, 2, 4, 8, 0x80, 0x40, 0xCF])]


def atari(g):
    """Code made by the macros is executed."""
    lines, args = [" processor 6502"], []
    old = g.chance(30)
    if old:
        if g.chance(50):
            args.append("-DNO_ILLEGAL_OPCODES" + g.pick(["", "=1"]))
        else:
            lines.append("NO_ILLEGAL_OPCODES %s 1" % g.pick(["equ", "="]))
        g.tag("no illegal opcodes")
    m = g.pick(["2600", "2600", "2600", "7800"])
    g.tag("machine " + m)
    if m == "2600":
        regs = vcs(g, lines, args)
        at = len(lines) - 1
        lines.insert(at if not old and g.chance(20) else at + 1, include(g, "macro.h"))
        kinds = ["SLEEP"] * 4 + ["VERTICAL_SYNC", "CLEAN_START", "SET_POINTER", "SET_POINTER", "BOUNDARY"]
    else:
        lines += g.shuffle([include(g, "7800.h"), include(g, "macro.h")])
        kinds = ["SLEEP", "SLEEP", "SET_POINTER"]
    org = g.pick([0xF000, 0xF0F0, 0x1000, 0xE0E8, 0x8003])
    lines.append(" org $%x" % org)
    if g.chance(30):
        lines.append(" dc.b $60")
    parts = []
    n = g.int(1, 6)
    bad = g.chance(5)
    for i in range(n):
        k = g.pick(kinds)
        g.tag(k)
        w = {"name": k}
        if k == "BOUNDARY":
            # the page position the macro names is reached by zeros; meant for what is not beyond it yet
            to = g.pick([0, 0, g.int(130, 255)])
            if to and i:
                to = 0
            low = org & 255
            if to and not 0 < low <= to:
                to = 0
            arg = number(g, to)
            w["pos"] = to
            if " dc.b $60" in lines[-1]:
                w["pos"], arg = 0, "0"
            r = [0, 0, 0, 0xFF, 0]
        else:
            r = regs6502(g)
        if k == "SLEEP":
            t = g.pick([2, 3, 4, 5, g.int(2, 40), g.int(2, 250)])
            if bad and i == n - 1:
                t = g.pick([1, 0, -1])
            arg = g.pick(["%d", "%d", "[%d]", "1+%d-1"]) % t
            w.update(cycles=t, writes=[], flags=0xFF if old else 0)
        elif k == "VERTICAL_SYNC":
            arg = ""
            w.update(a=0, vsync=[regs["VSYNC"], regs["WSYNC"]], flags=0xFF)
        elif k == "CLEAN_START":
            arg = ""
            w.update(a=0, x=0, y=0, s=0xFF, clear=True, flags=0xFF, flags_off=8, flags_on=4)
        elif k == "SET_POINTER":
            p, v = g.pick([0x80, 0xFE, 0xFF, 0x100, 0x1FF, g.int(0x80, 0xFE), 0x1800]), g.pick([0xF000, 0, 0xFFFF, 0x12, g.int(0, 0xFFFF)])
            a, b = number(g, p), number(g, v)
            if g.chance(30):
                lines.append("ptr%d = %s" % (i, a))
                a = "ptr%d" % i
            if g.chance(20):
                b = "far%d" % i
                lines.append("far%d = %d" % (i, v))
            arg = a + g.pick([",", ", "]) + b
            w.update(free="a", flags=0x82, writes=[[p, v & 255], [p + 1, v >> 8]])
        lines.append(g.pick(["m%d %s %s", "m%d: %s %s", "m%d\n %s %s"]) % (i, g.pick([k, k, k.lower()]), arg))
        parts.append(["m%d" % i, "m%d" % (i + 1), r, w])
        if g.chance(20) and k != "BOUNDARY":
            lines.append(" if 0\n brk\n endif")
    lines += ["m%d" % n, " dc.b 0"]
    bad = bad and parts[-1][3]["name"] == "SLEEP" and parts[-1][3]["cycles"] < 2
    exp = {"exit": "nz"} if bad else {"exit": 0, "cpu": {"file": "o.bin", "sym": "o.sym", "org": org, "parts": parts}}
    d = "atari2600" if m == "2600" else "atari7800"
    return Case({"main.asm": "\n".join(lines) + "\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-so.sym", "-I@machines@/" + d] + args + ["-P30"], "expect": exp}])


# ---------------------------------------------------------------- macros of the others
def hc908(g):
    m = g.pick(["jk1", "jk3", "jb8", "mr32"])
    lines, twin, regs, args, d, _ = start(g, m)
    loop = "MoniRomDelayLoop"
    if m == "mr32":
        a = g.int(0x200, 0xFFFF)
        lines.append("%s equ %d" % (loop, a))
        twin.append("%s equ %d" % (loop, a))
    small = [n for n, v in regs.items() if v < 256 and not n.startswith("_")]
    used = set()

    def addr(limit=255):
        if g.chance(50):
            return g.pick(sorted(small))
        return number(g, g.int(0, limit))

    def val(a):
        return regs[a] if a in regs else int(a.replace("$", "0x"), 0) if "$" in a else int(a)

    def delay(x, a):
        return [" ldx #%d" % x, " lda #%d" % a, " jsr " + loop]

    var = g.pick([0x80, 0x40, regs["RAM_START"]])
    body, want = [" org $8000", "next_var set %d" % var], [" org $8000"]
    kinds = ["store_reg", "store_reg", "store_reg16", "set_bits", "clear_bits", "and_bits", "or_bits", "shake_pin", "busy_loop_delay",
             "declare_var", "declare_delay"]
    kinds += {"jk1": ["fwFlashEraseProc"], "jk3": ["fw_delay", "fw_flash_erase_proc", "delay100us"],
              "jb8": ["fw_delay", "fw_flash_erase_proc", "delay5us", "delay10us", "delay100us", "delay2ms", "delay4ms"],
              "mr32": ["fw_delay", "switch_to_pll_clock"]}[m]
    for i in range(g.int(1, 8)):
        k = g.pick(kinds)
        g.tag(k)
        v = g.int(0, 255)
        arg = ""
        if k == "store_reg":
            a = addr() if g.chance(60) else number(g, g.pick([255, 256, 0xFE08, g.int(256, 0xFFFF)]))
            arg = "%s,#%d" % (a, v)
            out = [" mov #%d,%s" % (v, a)] if val(a) < 256 else [" lda #%d" % v, " sta %s" % a]
        elif k == "store_reg16":
            a, w = addr(), g.int(0, 0xFFFF)
            arg = "%s,#%d" % (a, w)
            out = [" ldhx #%d" % w, " sthx " + a]
        elif k in ("set_bits", "clear_bits"):
            a = addr()
            arg = "%s,%s%d" % (a, "#" if k == "set_bits" else "", v)
            out = [" ldhx #" + a, " lda ,x", " ora #%d" % v if k == "set_bits" else " and #%d" % (~v & 255), " sta ,x"]
        elif k in ("and_bits", "or_bits"):
            a = addr()
            arg = "%s,#%d" % (a, v)
            out = [" lda " + a, " %s #%d" % ("and" if k == "and_bits" else "ora", v), " sta " + a]
        elif k == "shake_pin":
            a, b = addr(), g.int(0, 7)
            arg = "%d,%s" % (b, a)
            out = [" brset %d,%s,s%d" % (b, a, i), " bset %d,%s" % (b, a), " bra t%d" % i, "s%d bclr %d,%s" % (i, b, a), "t%d" % i]
        elif k == "busy_loop_delay":
            a = g.pick(["#%d" % v, addr()])
            arg = a
            out = [" lda " + a, "s%d dbnza s%d" % (i, i)]
        elif k == "declare_var":
            n, size = "var%d" % i, g.int(0, 9)
            arg = "%s,%d" % (n, size)
            out = ["%s equ %d" % (n, var), " dc.b %s" % n]
            regs[n] = var
            var = min(var + size, 255)
            if var == 255:
                size = 0
                raise Skip("too many variables")
        elif k == "declare_delay":
            x, a = g.int(1, 255), g.int(3, 255)
            arg = "q%d,%d,%d" % (i, x, a)
            out = ["Delayq%d" % i] + delay(x, a) + [" rts"]
        elif k == "fw_delay":
            x, a = g.int(1, 255), g.int(3, 255)
            arg = "%d,%d" % (x, a)
            out = delay(x, a)
        elif k.startswith("delay"):
            out = delay(*{"delay5us": (1, 3), "delay10us": (1, 8), "delay100us": (1, 98 if m == "jb8" else 64), "delay2ms": (8, 250),
                          "delay4ms": (16, 250)}[k])
        elif k == "switch_to_pll_clock":
            if k in used:
                continue
            out = [" clr PCTL", " bset 5,PCTL", " bset 7,PBWC", "s%d brclr 6,PBWC,s%d" % (i, i), " bset 4,PCTL"]
        else:
            out = [" mov #$40,fwCtrlByte", " mov #4*F_CPU,fwCpuSpeed", " ldhx #FLASH_START", " jsr FlashErase"]
        used.add(k)
        call = " %s %s" % (k, arg)
        if k == "declare_var":
            call += "\n dc.b var%d" % i
        body += call.split("\n")
        want += out
        if g.chance(30):
            t = " dc.w * ; position"
            body.append(t)
            want.append(t)
    if g.chance(40):
        at = 0xFFD0
        for i in range(g.int(1, 3)):
            at = g.pick([a for a in range(at, 0xFFFF, 2)][:8] + [0xFFFE])
            t = g.pick(["$8000", "$1234", number(g, g.int(0, 65535))])
            body.append(" declare_vector $%x,%s" % (at, t))
            want += [" org $%x" % at, " dc.w " + t]
            g.tag("declare_vector")
            at += 2
            if at > 0xFFFE:
                break
    else:
        body.append(" dc.b 1")
        want.append(" dc.b 1")
    return twin_case(g, lines + body, twin + want, regs, args, d)


def channel_f(g):
    lines, twin, regs, args, d, cpu = start(g, "ves")
    lines.append(include(g, "macro.h"))
    org = g.pick([0x800, 0x800, 0x900])
    prompt = g.int(0, 0xFFF)
    body = [" org $%x" % org, " CARTRIDGE_START"]
    want = [" org $%x" % org, "CartridgeStart db $55", " nop"]
    if g.chance(70):
        body += [" PROMPTS_NOT"]
        want += ["prompts lr k,p", " pi pushk", "p2 li $85", " lr 0,a", " pi prompt", " lr a,4", " ci 8", " bf 4,p4", "p3 pi popk", " pk",
                 "p4 ci 2", " bf 4,p3", " li $8e", " lr 0,a", " pi prompt", " lisu 3", " lisl 6", " lr a,s", " as 4", " lr s,a", " bf 0,p2"]
        t = ["prompt equ %d" % prompt, " dc.w prompts"]
        body += t
        want += t
    t = [" dc.w CartridgeStart"] + uses(g, cpu, regs)
    return twin_case(g, lines + body + t, twin + want + t, regs, args, d)


add("C33", "the program reads a machine file and its registers, or the code its macros make, are compared", 3000, 12000,
    [(3, "registers", registers), (4, "atari macros", atari), (3, "68hc908 macros", hc908), (1, "channel f macros", channel_f)])
