"""C10 data, C11 space and fill, C12 formats, C13 ftohex, C14 segments, C15 RORG."""

from .util import *
from .cpus import Ops, encode, ranges

# ------------------------------------------------------------------------------------------ C10

CHARS = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 ,:<>+-#$%&!?_.()[]=~^|'@`;"


def text(g, n):
    return "".join(g.pick(CHARS) if g.chance(97) else chr(g.pick(HIGH + [9] * 5)) for _ in range(n))


def names(cpu):
    n1 = ["dc.b", "dc", "byte", ".byte", "byte.b", "DC.B", "Byte"]
    n2 = ["dc.w", "word", ".word", "DC.w", "dc.s", "dc.a"]
    n4 = ["dc.l", "long", ".long", "DC.L"]
    if cpu == "f8":
        n1 += ["db", "DB"]
        n2 += ["dw"]
        n4 += ["dd"]
    return n1, n2, n4


def item(g, o, size):
    if size == 1:
        v = g.near(-255, 255, -255, -128, -1, 0, 127, 128, 255)
    elif size == 2:
        v = g.near(-0xFFFF, 0xFFFF, -0x8000, -1, 0, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF)
        if g.chance(8):
            v = g.pick([0x10000, 0x12345, -0x10001, 0x7FFFFFFF])
    else:
        v = g.near(-0x7FFFFFFF, 0xFFFFFFFF, -0x7FFFFFFF, -1, 0, 0xFFFF, 0x10000, 0xFF0000, 0x1000000, 0x7FFFFFFF, 0x80000000,
                   0xFFFFFFFF)
        if abs(v) > 0x70000000:
            return num(g, v)
    return o.val(v)


def data(g):
    cpu = g.pick(CPUS)
    o = Ops(g)
    n1, n2, n4 = names(cpu)
    body = []
    dv = 0
    for i in range(g.int(1, 6)):
        size = g.pick([1, 1, 2, 2, 4])
        k = g.int(0, 11)
        lab = "l%d" % i if g.chance(25) else ""
        if k <= 5:
            items = []
            for _ in range(g.near(1, 12, 1, 4, 5)):
                if g.chance(25):
                    items.append('"%s"' % text(g, g.near(1, 20, 1, 2)))
                elif g.chance(8):
                    c = chr(g.int(33, 126) if g.chance(80) else g.pick(HIGH + [9, 32]))
                    items.append("'" + (c if c not in "{}\"'/*\\;," else "k"))
                elif g.chance(10):
                    items.append(g.pick(["<l", ">l"]) + "%d" % i if lab else "<.")
                else:
                    items.append(item(g, o, size))
            name = g.pick({1: n1, 2: n2, 4: n4}[size])
            sep = g.pick([",", ",", ", ", "," if size == 1 else ",  "])
            body.append("%s %s %s" % (lab, name, sep.join(items)))
            g.tag("size %d" % size)
        elif k == 6:
            n = g.near(1, 40, 1, 16, 32)
            d = g.pick(["%02x", "%02X"])
            s = "".join(d % g.int(0, 255) + (" " if g.chance(20) else "") for _ in range(n))
            body.append("%s hex %s" % (lab, s))
            g.tag("hex")
        elif k <= 8:
            e = g.pick(["..+1", "..", "[..*2]+1", "255-..", "..^$55", "<[..+.]", "..+vv", "~..", "-..", "[..>>1]|[..<<1]", "..==3"])
            ext, hi = g.pick([("", 60), (".b", 60), (".w", 9000), (".l", 90000)])
            if ext in (".w", ".l") and g.chance(50):
                e = g.pick(["..*$101", "..+$1200", "..<<7", "$4321-..", "[..<<8]|<.."] + (["..*$10203", "..<<20", "..+$12345600", "..^$76543210"] if ext == ".l" else []))
                dv += 1
                body.append("e%d eqm %s" % (dv, e))
                t = "".join(g.pick("aBz01~") for _ in range(g.int(1, 4)))
                body.append('%s dv%s e%d %s' % (lab, ext, dv, g.pick(['"%s"', '"%s",1', '1,"%s"', '"%s","k"']) % t))
                g.tag("wide dv" + ext)
                continue
            if g.chance(50) or not dv:
                dv += 1
                late = g.chance(15)
                (o.post if late else body).append("e%d eqm %s" % (dv, e))
                g.tag("late eqm" if late else "eqm")
            its = [num(g, g.int(0, hi)) if g.chance(80) else '"%s"' % "".join(g.pick("aBz01") for _ in range(g.int(1, 4)))
                   for _ in range(g.int(1, 5))]
            body.append("%s dv%s e%d %s" % (lab, ext, g.int(1, dv), ",".join(its)))
            g.tag("dv" + ext)
            if "vv" in e:
                o.post.append("vv equ %d" % g.int(0, 9)) if not any(x.startswith("vv ") for x in o.post) else None
        elif k == 9:
            t = text(g, g.int(1, 9)).replace(",", "").replace(";", "").replace("'", "").strip() or "t"
            body.append('s%d %s "%s"' % (i, g.pick(["equ", "set", "="]), t))
            body.append("%s %s s%d" % (lab, g.pick(n1 + n2 + n4), i))
            g.tag("string symbol")
        elif k == 10:
            body.append("%s dc.%s l_end,l_end-l_start,l_start" % (lab, g.pick("wl")))
        else:
            m, mode = ("li", "IMM8") if cpu == "f8" else g.pick([p for p in PLAIN[cpu] if not TABLES[cpu][p[0]].get("rel")])
            if cpu != "f8":
                mn, a = encode(g, o, cpu, m, mode, lambda: ".")
                body.append(" %s %s" % (mn, a))
    if any("vv" in b for b in body) and not any(x.startswith("vv ") for x in o.post):
        o.post.append("vv equ 3")
    lines = head(g, cpu) + o.pre + [" org " + num(g, g.pick([0, 0x80, 0x1000, 0xFF00])), "l_start"] + body + ["l_end"] + o.post
    return finish(g, lines)


def long_lists(g):
    """Lists and strings as long as a line allows."""
    cpu = g.pick(CPUS)
    n1, n2, n4 = names(cpu)
    k = g.int(0, 7)
    if k == 6:
        n = g.near(1, 490, 128, 254, 255, 256, 257, 300, 490)
        l = " %s %s" % (g.pick(n1 + n2 * 2 + n4 * 3), ",".join("%d" % (i * 7 % 10) for i in range(n)))
    elif k == 7:
        n = g.near(1, 200, 50, 127, 128)
        st = "".join(chr(97 + i % 26) for i in range(n))
        m = g.int(1, 100)
        return finish(g, head(g, cpu, 0x200) + ['s set "%s"' % st, "e eqm ..+1"] + wrap_context(g, [" %s%s" % (
            g.pick(g.pick([n1, n2, n4])) + " " if g.chance(70) else "dv%s e " % g.pick(["", ".b", ".w", ".l"]),
            ",".join(g.pick(["s", "%d" % (i % 10), "%d" % (i % 10), "$%x" % i, '"q"']) for i in range(m)))]) + ["here dc.w here"])
    elif k == 0:
        n = g.near(1, 200, 63, 64, 127, 128, 200)
        l = " %s %s" % (g.pick(n1), ",".join(str((i * 7 + 3) % 256) for i in range(n)))
    elif k == 1:
        n = g.near(1, 190, 64, 100, 128, 190)
        l = " %s %s" % (g.pick(n2), ",".join("$%x" % ((i * 257) % 4096) for i in range(n)))
    elif k == 2:
        n = g.near(1, 980, 63, 64, 127, 128, 255, 256, 400, 511, 512, 513, 900)
        l = ' %s "%s"' % (g.pick(n1), "".join(chr(65 + i % 26) for i in range(n)))
    elif k == 3:
        n = g.near(1, 980, 63, 128, 255, 256, 400, 512)
        l = ' %s "%s"' % (g.pick(n2 + n4), "".join(chr(65 + i % 26) for i in range(n)))
    elif k == 4:
        n = g.near(1, 300, 63, 128, 255, 256)
        m = g.near(1, 60, 4, 16)
        st = "".join(chr(65 + i % 26) for i in range(n))
        return finish(g, head(g, cpu, 0x200) + ['s set "%s"' % st, " %s %s" % (g.pick(n1 + n2 + n4), ",".join(["s"] * m)),
                                                "here dc.w here"])
    else:
        n = g.near(1, 490, 128, 255, 256, 257, 400)
        l = " hex " + "".join("%02x" % (i * 3 & 255) for i in range(n))
    g.tag("long %d" % k)
    return finish(g, head(g, cpu, 0x200) + wrap_context(g, [l]) + ["here dc.w here"])


add("C10", "at least one data statement whose bytes are compared", 9000, 36000, [
    (14, "data statements", data), (3, "long lists", long_lists), (2, "limits", ranges),
    (4, "programs", mix(weights=only(data=40, hex=12, dv=12, setstr=6))),
])

# ------------------------------------------------------------------------------------------ C11


def fills(g):
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    o = Ops(g)
    fmt = g.pick([1, 1, 2, 3, 3])
    pos = g.pick([0, 1, 0xFE, 0x100, 0x1000, 0xF000] + ([0xFFF5, 0x12345, 0x1FFFE] if g.chance(30) else []))
    body = []

    def byte():
        return g.near(-128, 255, 0, 1, 255, 128, -1) if g.chance(90) else g.pick([256, 0x1234, -300])

    if g.chance(95):
        body.append(" org %s%s" % (o.val(pos), "," + num(g, byte()) if g.chance(40) else ""))
    else:
        pos = 0
    bss = False
    for i in range(g.int(1, 8)):
        k = g.int(0, 9)
        lab = "f%d" % i if g.chance(30) else ""
        g.tag("fill %d" % k)
        if k <= 2:
            ext = g.pick(["", "", ".b", ".w", ".l"])
            n = g.near(0, 40, 0, 1, 2)
            if g.chance(4):
                n = g.pick([255, 256, 257, 1024, 4000])
            fill = ""
            if g.chance(70):
                v = byte() if ext in ("", ".b") else g.near(-0x8000, 0xFFFF, 0xFF, 0x100, 0x1234)
                if ext == ".l" and g.chance(60):
                    v = g.int(0, 0x7FFFFFFF)
                fill = "," + o.val(v)
            body.append("%s %s%s %s%s" % (lab, ds, ext, o.val(n), fill))
            pos += n * (2 if ext == ".w" else 4 if ext == ".l" else 1)
        elif k <= 4:
            n = g.pick([1, 2, 3, 4, 5, 7, 8, 16, 10, 32, 64, 100, 128, 256, 0x200])
            body.append("%s align %s%s" % (lab, o.val(n), "," + o.val(byte()) if g.chance(60) else ""))
            pos += -pos % n
        elif k <= 7:
            back = g.chance(6)
            n = -g.int(1, 5) if back else g.near(0, 70, 0, 1)
            if g.chance(3):
                n = g.pick([1000, 5000])
            fill = "," + num(g, byte()) if g.chance(45) else ""
            if fill and g.chance(30):
                nm = "ff%d" % i
                o.pre.append("%s equ %s" % (nm, fill[1:]))
                fill = "," + nm
            if g.chance(35):
                body.append("%s org %s%s%s" % (lab, g.pick([".", "*"]), "%+d" % n, fill))
            elif g.chance(20) and not fill:
                body.append(g.pick([". = ", "* = ", ". equ ", ".=", "* equ "]) + (".%+d" % n))
            elif g.chance(20):
                nm = "oo%d" % i
                o.post.append("%s equ %s" % (nm, num(g, max(0, pos + n))))
                body.append("%s org %s%s" % (lab, nm, fill))
            else:
                body.append("%s org %s%s" % (lab, num(g, max(0, pos + n)), fill))
            pos = max(0, pos + n)
        elif k == 8 and g.chance(40):
            body.append(" seg.u ram%d" % i)
            body.append(" org %s" % num(g, g.int(0, 500)))
            body.append("r%d %s 5" % (i, ds))
            body.append(" align 8")
            body.append("q%d" % i)
            body.append(" seg code")
            if not bss:
                bss = True
                body.append(" org %s" % num(g, pos))
        else:
            body.append("%s dc.b %s" % (lab, o.val(g.int(0, 255))))
            pos += 1
    if g.chance(20):
        body.insert(g.int(0, len(body)), " rorg " + g.pick(["$2345", "$2345", "$FFF1", "$12347", "0", "$1FFFD"]))
    lines = head(g, cpu) + o.pre + body
    if g.chance(95):
        lines += [" dc.b $EE"]
    return finish(g, lines + o.post, fmt=fmt, extra=["-so.sym"], more_expect=sym_expect())


def multi_pass_fill(g):
    """Fill values and gaps must come from the last pass."""
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    a, b, c = g.int(0, 255), g.int(0, 255), g.int(0, 255)
    lines = head(g, cpu) + [" org %s%s" % (num(g, g.pick([0x10, 0x1000])), g.pick(["", ",%d" % a])), " dc.w last"]
    lines += [" org .+%s%s" % (num(g, g.int(0, 9)), g.pick(["", ",%d" % b])), " dc.b <later"]
    lines += [" %s %s,%s" % (ds, g.pick(["later", "3"]), g.pick(["later", "%d" % c, "<last"]))]
    lines += [" align %s,%s" % (g.pick(["later2", "16"]), g.pick(["later", "%d" % c]))]
    lines += [" org .+%s" % g.pick(["later", "5"]), "last dc.b 1"]
    lines += ["later equ %d" % g.int(0, 30), "later2 equ %d" % g.pick([1, 4, 8, 16])]
    if g.chance(40):
        # the whole thing behind something that takes extra passes
        lines.insert(2, " dc.b <x1")
        lines += ["x1 equ x2+1", "x2 equ x3+1", "x3 equ %d" % g.int(0, 9)]
    return finish(g, lines)


def bad_fill(g):
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    s = g.pick([[" %s -1" % ds], [" %s.w -%d" % (ds, g.int(1, 9))], [" org 8", " dc.b 1", " org 7", " dc.b 1"],
                [" org $20", " dc.b 1", " org $20", " dc.b 2"], [" %s nowhere" % ds], [" align nowhere"], [" org nowhere", " dc.b 1"],
                [" org 5,nowhere", " dc.b 1"], [" %s 2,nowhere" % ds], [" align 4,nowhere"], [" align 0"],
                [" org $20", " dc.b 1", " org $20"], [" org 9", " org 5", " dc.b 1"], [" org 9", " dc.b 1", " org 5"],
                [" %s 700000" % ds]])
    tail = [" dc.b 3"] if g.chance(50) else []
    if any("align 0" in x for x in s):
        lines = head(g, cpu, 3) + s + tail
        fs = {"main.asm": "\n".join(lines) + "\n"}
        return Case(fs, [{"args": ["main.asm", "-f%d" % g.int(1, 3), "-oo.bin"], "expect": {"exit": "nz"}}])
    return finish(g, head(g, cpu, g.pick([3, 0x100])) + s + tail, passes=False)


add("C11", "at least one DS, ALIGN or ORG statement whose effect on bytes and addresses is compared", 9750, 39000, [
    (14, "fill", fills), (4, "over several passes", multi_pass_fill), (2, "rejected", bad_fill),
    (3, "programs", mix(weights=only(ds=25, align=20, org=20))),
])

# ------------------------------------------------------------------------------------------ C12


def layout_source(g):
    """Chunks at increasing (sometimes falling) origins."""
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    pos = g.near(0, 0xFF00, 0, 1, 0xFF, 0x100, 0x1000, 0xFF00)
    lines = head(g, cpu)
    if g.chance(90):
        lines.append(" org %s%s" % (num(g, pos), ",%d" % g.int(0, 255) if g.chance(40) else ""))
    else:
        pos = 0
    for i in range(g.near(0, 7, 0, 1)):
        k = g.int(0, 12)
        if k <= 4:
            n = g.near(1, 20, 1)
            lines.append(" dc.b " + ",".join(str(g.int(0, 255)) for _ in range(n)))
            pos += n
        elif k == 5:
            n = g.near(1, 3000, 1, 255, 256, 257, 1023, 1024, 1025, 3000)
            lines.append(" %s %d,%d" % (ds, n, g.int(0, 255)))
            pos += n
        elif k <= 8:
            n = g.near(0, 300, 0, 1, 255, 256)
            pos += n
            lines.append(" org %s%s" % (num(g, pos), ",%d" % g.int(0, 255) if g.chance(40) else ""))
        elif k == 9 and g.chance(50):
            pos = max(0, pos - g.int(1, 600))
            lines.append(" org " + num(g, pos))
        elif k == 10:
            lines += [" rorg $3000", " dc.w .", " rend"]
            pos += 2
        elif k == 11:
            lines.append("z%d" % i)
        else:
            lines += [" repeat %d" % g.int(0, 3), " dc.b 1", " repend"]
    if g.chance(25):
        lines += [" seg.u bss", " org " + num(g, g.int(0, 0xFFFF)), "v %s 4" % ds]
        if g.chance(50):
            lines += [" dc.b 1,2"]
    return lines


def formats(g):
    lines = layout_source(g)
    fs = {"main.asm": "\n".join(lines) + "\n"}
    runs = []
    good = None
    for fmt in (1, 2, 3):
        res = ref_run(fs, "main.asm", fmt)
        out = "o%d.bin" % fmt
        e = {"exit": 0, "out": {"file": out, "hex": res.image.hex()}} if res.ok else {"exit": "nz", "sane": True}
        if res.ok:
            good = res
        o = ["-o" + out]
        f = ["-f%d" % fmt]
        if fmt == 1 and g.chance(50):
            f = []
        runs.append({"args": ["main.asm"] + (f + o if g.chance(50) else o + f), "expect": e})
    if good is None:
        g.tag("all rejected")
    else:
        g.tag("chunks %d" % min(len(good.chunks), 5))
    if g.chance(15):
        # default output name
        res = ref_run(fs, "main.asm", 1)
        e = {"exit": 0, "out": {"file": "a.out", "hex": res.image.hex()}} if res.ok else {"exit": "nz"}
        runs.append({"args": ["main.asm"], "expect": e})
    return Case(fs, runs, bool(good and good.chunks))


def hunks(g):
    """Format 2 with segments that alternate and rest next to each other."""
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    lines = head(g, cpu)
    pos = {}
    for i in range(g.int(1, 9)):
        s = g.pick("abc")
        lines.append(" seg " + s)
        if s not in pos or g.chance(20):
            near_ = [p for p in pos.values()]
            pos[s] = g.pick(near_) if near_ and g.chance(40) else g.near(0, 0xFF00, 0, 0x100, 0x1000)
            lines.append(" org " + num(g, pos[s]))
        n = g.near(1, 40, 1)
        lines.append(" dc.b " + ",".join(str((i * 16 + j) & 255) for j in range(n)))
        pos[s] += n
    return finish(g, lines, fmt=2 if g.chance(85) else g.pick([1, 3]))


def big(g):
    """Hunks and gaps around 32K and 64K."""
    cpu = g.pick(["6502", "68hc11", "f8"])
    ds = "res" if cpu == "f8" else "ds"
    n = g.near(1, 65500, 32767, 32768, 65000, 65500)
    lines = head(g, cpu, g.pick([0, 1, 0x100]))
    lines += [" %s %d,%d" % (ds, n, g.int(0, 255)), " dc.b 1,2,3"]
    if g.chance(50):
        lines += [" org .+%d,%d" % (g.near(0, 70000, 1, 255, 256, 32768, 65535, 65536), g.int(0, 255)), " dc.b 4,5"]
    return finish(g, lines)


add("C12", "accepted source with at least one output byte, image of all three formats compared with the statement list", 4500, 18000, [
    (10, "three formats", formats), (8, "hunks", hunks), (2, "big images", big),
    (4, "programs", mix(weights=only(org=25, seg=12, ds=10, rorg=6))),
])

# ------------------------------------------------------------------------------------------ C13


def ftohex_case(g):
    mode = g.int(0, 6)
    if mode <= 3:
        lines = layout_source(g)
        files = {"main.asm": "\n".join(lines) + "\n"}
    else:
        p = P(g, weights=only(org=10, data=20, ds=10)).generate()
        files = dict(p.files)
        files["main.asm"] = p.source()
    fmt = g.pick([1, 2, 3])
    res = ref_run(files, "main.asm", fmt)
    if not res.ok:
        fmt = 2
        res = ref_run(files, "main.asm", fmt)
        if not res.ok:
            raise Skip("program rejected")
    fargs = ["o.bin", "o.hex"]
    sel = fmt
    args = [str(fmt)] + fargs
    g.tag("format %d" % fmt)
    runs = [{"args": ["main.asm", "-f%d" % fmt, "-oo.bin"] + pass_args(res), "expect": {"exit": 0, "out": {"file": "o.bin", "hex": res.image.hex()}}}]
    runs.append({"tool": "ftohex", "args": args, "expect": hex_expect(res.image, sel)})
    if g.chance(20):
        runs.append({"tool": "ftohex", "args": [str(fmt), "o.bin"], "expect": hex_expect(res.image, sel, stdout=True)})
    return Case(files, runs, bool(res.chunks))


def hex_expect(image, fmt, stdout=False):
    """Memory image the records have to carry."""
    mem = []
    if fmt == 1 and len(image) >= 2:
        mem.append([image[0] | image[1] << 8, image[2:].hex()])
    elif fmt == 3:
        mem.append([0, image.hex()])
    elif fmt == 2:
        k = 0
        while k < len(image):
            org, n = image[k] | image[k + 1] << 8, image[k + 2] | image[k + 3] << 8
            mem.append([org, image[k + 4:k + 4 + n].hex()])
            k += 4 + n
    return {"exit": 0, "ihex": {"file": None if stdout else "o.hex", "mem": mem}}


def ftohex_raw(g):
    """Object files made directly, with sizes around the record length."""
    fmt = g.pick([1, 2, 3])

    def blob(n):
        a, b = g.int(0, 255), g.int(0, 255)
        return bytes((a + i * b + (i >> 4)) & 255 for i in range(n))

    def size():
        return g.near(0, 200, 0, 1, 15, 16, 17, 31, 32, 33, 48, 255 % 200) if g.chance(90) else g.near(200, 4000, 255, 256, 1024, 4000)

    def adr(n):
        return g.near(0, 0xFFFF - max(n - 1, 0), 0, 0xFF, 0x100, 0x8000) if n < 0x10000 else 0

    n = size()
    if fmt == 3:
        image = blob(n)
    elif fmt == 1:
        a = adr(n)
        image = bytes([a & 255, a >> 8]) + blob(n)
    else:
        image = b""
        for _ in range(g.int(1, 4)):
            n = size()
            a = adr(n)
            image += bytes([a & 255, a >> 8, n & 255, n >> 8]) + blob(n)
    g.tag("raw format %d" % fmt)
    return Case({"o.bin": {"hex": image.hex()}}, [{"tool": "ftohex", "args": [str(fmt), "o.bin", "o.hex"], "expect": hex_expect(image, fmt)}],
                len(image) > 0)


def ftohex_bad(g):
    """Command lines and files that ftohex has to refuse."""
    fmt = g.pick(["0", "4", "-1", "9", "x", "", "300"])
    k = g.int(0, 3)
    good = str(g.int(1, 3))
    args = [[fmt, "o.bin", "o.hex"], [fmt, "o.bin"], [good, "nofile.bin", "o.hex"], [good, "o.bin", "nodir/o.hex"]][k]
    g.tag("refused %d" % k)
    return Case({"o.bin": {"hex": "00100300010203"}}, [{"tool": "ftohex", "args": args, "expect": {"exit": "nz", "gone": ["o.hex"]}}], True)


add("C13", "non-empty image converted by ftohex, records parsed and memory compared", 5750, 23000, [
    (8, "assembled", ftohex_case), (12, "made directly", ftohex_raw), (1, "refused", ftohex_bad),
])

# ------------------------------------------------------------------------------------------ C14


def segments(g):
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    fmt = g.pick([2, 2, 1, 3])
    lines = head(g, cpu)
    segs = {}
    pool = [("code", False), ("data", False), ("ram", True), ("Zero Page", True), ("vars", True), ("", False)]
    pool = pool[:g.int(2, len(pool))]
    if g.chance(20):
        # names are told apart by case
        pool.append(g.pick([("Code", False), ("CODE", True), ("Data", True), ("RAM", True), ("codE", False)]))
        g.tag("names differ in case")
    cur = None
    nlab = 0
    pos = 0
    labs = []
    for i in range(g.int(2, 14)):
        if cur is None or g.chance(60):
            name, bss = g.pick(pool)
            if fmt != 2 and not bss and cur is not None and name != "code":
                name, bss = "code", False
            first = name not in segs
            ext = (".u" if bss else "") if first else g.pick(["", ".u"] if bss or g.chance(20) else [""])
            if ext and g.chance(20):
                ext = g.pick([".U", ".undef"])
            lab = ""
            if g.chance(15):
                nlab += 1
                lab = "g%d" % nlab
                labs.append(lab)
            lines.append("%s seg%s %s" % (lab, ext, name))
            if first:
                segs[name] = bss
                if g.chance(97):
                    o = g.pick([0, 0x80, 0x100, 0x1000, 0xE000])
                    if g.chance(30):
                        lines.append(" org lat%d" % (o & 0xFF))
                    else:
                        lines.append(" org %s%s" % (num(g, o), ",%d" % g.int(0, 255) if g.chance(25) else ""))
            elif g.chance(10):
                lines.append(" org " + (".+%d" % g.int(0, 20) if g.chance(70) else num(g, g.int(0, 0xF000))))
            cur = name
        nlab += 1
        lab = "g%d" % nlab if g.chance(60) else ""
        if lab:
            labs.append(lab)
        k = g.int(0, 6)
        if k == 0:
            lines.append("%s %s%s %d" % (lab, ds, g.pick(["", ".w", ".l"]), g.int(0, 12)))
        elif k == 1:
            lines.append("%s dc.%s %s" % (lab, g.pick("bw"), ",".join(str(g.int(0, 255)) for _ in range(g.int(1, 5)))))
        elif k == 2 and labs:
            lines.append("%s dc.w %s" % (lab, g.pick(labs)))
        elif k == 3:
            lines.append("%s dc.w g%d" % (lab, g.int(1, nlab)))
        elif k == 4:
            lines.append("%s align %d" % (lab, g.pick([2, 4, 8])))
        elif k == 5 and g.chance(50):
            lines += ["%s rorg %s" % (lab, num(g, g.int(0, 0xFF00))), " dc.w ."] + ([" rend"] if g.chance(70) else [])
        else:
            lines.append("%s dc.b <." % lab)
    used = set(l.split("dc.w ")[1] for l in lines if "dc.w g" in l)
    for u in sorted(used - set(labs)):
        lines.append("%s equ %d" % (u, g.int(0, 0xFFFF)))
    for z in ("0", "128"):
        if any("lat" + z in l for l in lines):
            lines.append("lat%s equ %s" % (z, num(g, {"0": 0, "128": 0x80}[z])))
    return finish(g, lines, fmt=fmt, extra=["-so.sym"], more_expect=sym_expect())


def counters(g):
    """Each segment keeps its own counters across many switches, in every pass."""
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    n = g.int(2, 4)
    fmt = 2
    lines = head(g, cpu)
    if g.chance(50):
        lines.append(" dc.w far1") if g.chance(0) else None
    bss = [g.chance(40) for _ in range(n)]
    for i in range(n):
        lines += [" seg%s s%d" % (".u" if bss[i] else "", i), " org " + num(g, 0x1000 * (i + 1) + g.int(0, 300))]
        if g.chance(40):
            lines.append(" rorg " + num(g, g.int(0, 0xFF00)))
    for j in range(g.int(2, 16)):
        i = g.int(0, n - 1)
        lines.append(" seg s%d" % i)
        lines.append("q%d %s %d" % (j, ds, g.int(1, 9)))
        if g.chance(30):
            lines.append(" dc.w far1,q%d" % j if not bss[i] else "w%d" % j)
        if g.chance(10):
            lines.append(" rend")
    lines += ["far1 equ far2+2", "far2 equ %d" % g.int(0, 999)]
    return finish(g, lines, fmt=fmt, extra=["-so.sym"], more_expect=sym_expect())


def main_seg_first(g):
    """Code before the first SEG belongs to the initial segment in every pass."""
    cpu = g.pick(CPUS)
    lines = head(g, cpu) + [" org $%x" % g.int(0, 0x800), "m0 dc.w fwd", " dc.b 1"]
    lines += [" seg%s other" % g.pick(["", ".u"]), " org $%x" % g.int(0x900, 0xF000), "m1 " + ("res" if cpu == "f8" else "ds") + " 3", "fwd"]
    if g.chance(50):
        lines += ["m2 dc.w m0,m1"]
    return finish(g, lines, fmt=2 if g.chance(60) else g.pick([1, 3]), extra=["-so.sym"], more_expect=sym_expect())


add("C14", "program that leaves and re-enters at least one segment, bytes and label values compared", 7750, 31000, [
    (10, "segments", segments), (6, "counters", counters), (2, "initial segment", main_seg_first),
    (4, "programs", mix(syms=70, weights=only(seg=30, ds=10, label=10))),
])

# ------------------------------------------------------------------------------------------ C15


def rorgs(g):
    cpu = g.pick(CPUS)
    ds = "res" if cpu == "f8" else "ds"
    o = Ops(g)
    fmt = g.pick([1, 2, 3])
    body = [" org " + num(g, g.pick([0, 0x80, 0x1000, 0xE000, 0xFFF0, 0x12000]))]
    n = 0
    inr = False
    rels = None if cpu == "f8" else [(m, md) for m, md in RELS[cpu] if md == "REL" and not TABLES[cpu][m].get("mask")]
    for i in range(g.int(2, 12)):
        k = g.int(0, 12)
        n += 1
        lab = "r%d" % n if g.chance(50) else ""
        if k <= 2:
            tgt = g.pick([0, 0x10, 0xF0, 0x100, 0x2000, 0xF000, 0xFFF8]) if g.chance(85) else g.near(0x10000, 0x7FFFFF00, 0x10000, 0x12345, 0x20000, 0x1000000)
            body.append("%s rorg %s" % (lab, o.val(tgt)))
            inr = True
        elif k == 3:
            if not inr and any(" rorg " in l for l in body) and g.chance(60):
                body.append("%s rorg" % lab)
                inr = True
                g.tag("resumed")
            else:
                body.append(" rend")
                inr = False
        elif k == 4:
            body.append("%s dc.%s .,*" % (lab, g.pick("wl")))
        elif k == 5:
            body.append("%s %s %d" % (lab, ds, g.int(0, 9)))
        elif k == 6:
            body.append("%s align %d,%d" % (lab, g.pick([2, 4, 8, 16]), g.int(0, 255)))
        elif k == 7:
            nm = "t%d" % n
            br = g.pick(rels)[0] if rels else "br"
            body += [nm, " dc.b 1", " %s %s" % (br, nm)]
        elif k == 8:
            body.append("%s org .+%d" % (lab, g.int(0, 9)) if not inr else "%s dc.b 7" % lab)
        elif k == 9 and g.chance(50):
            body.append(g.pick([". = .+%d", "* = *+%d", ". equ .+%d"]) % g.int(0, 9))
        elif k == 10:
            body.append("k%d equ %s" % (n, g.pick([".", "*", ".+3"])))
            body.append(" dc.w k%d" % n)
        elif k == 11 and lab:
            body.append("%s dc.w %s,r_end" % (lab, lab))
        else:
            body.append("%s dc.b %d" % (lab, g.int(0, 255)))
    body.append("r_end dc.w r_end")
    lines = head(g, cpu) + o.pre + body + o.post
    return finish(g, lines, fmt=fmt, extra=["-so.sym"], more_expect=sym_expect())


def blocks(g):
    """Several relocated blocks; the output stays contiguous."""
    cpu = g.pick(CPUS)
    rels = ["br"] if cpu == "f8" else [m for m, md in RELS[cpu] if md == "REL" and not TABLES[cpu][m].get("mask")]
    lines = head(g, cpu, g.pick([0x1000, 0x8000, 0x80]))
    post = []
    for b in range(g.int(1, 5)):
        t = g.int(0, 0xF000) if g.chance(85) else g.near(0x10000, 0x7FFFFF00, 0x10000, 0x20000)
        a = num(g, t)
        if g.chance(40):
            a = "tgt%d" % b
            post.append("tgt%d equ %s" % (b, num(g, t)))
        lines += [" rorg " + a, "a%d" % b, " dc.%s .,a%d" % (g.pick("wl"), b)]
        for _ in range(g.int(0, 5)):
            lines.append(g.pick([" %s a%d" % (g.pick(rels), b), " %s b%d" % (g.pick(rels), b), " align %d" % g.pick([2, 4]), " dc.b 1,2",
                                 " dc.w b%d-a%d" % (b, b), " dc.w x%d" % b]))
        lines += ["b%d" % b]
        if g.chance(30):
            lines += [" seg.u rr%d" % b, " org $40", "x%d %s 3" % (b, "res" if cpu == "f8" else "ds"), " seg main"]
            if not any(l == " seg main" for l in lines[:-1]):
                lines += [" org $C000"]
        else:
            lines += [" rend"]
        lines += [x for x in ["x%d dc.w ." % b] if not any(l.startswith("x%d " % b) for l in lines)]
    return finish(g, lines + post, fmt=g.pick([1, 2, 3]), extra=["-so.sym"], more_expect=sym_expect())


add("C15", "program with relocated code, bytes and label values compared", 9000, 36000, [
    (12, "relocation", rorgs), (6, "blocks", blocks),
    (4, "programs", mix(syms=60, weights=only(rorg=30, branch=12, label=10, align=8))),
])
