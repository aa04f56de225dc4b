"""Writes the regression cases: one small input per repaired defect, expectation by the reference assembler."""

import json
import os
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib.proggen import simple_case  # noqa: E402
from lib.props.reports import list_case  # noqa: E402
from lib.props.util import sym_expect  # noqa: E402
from lib.props.verbose import verbose_expect  # noqa: E402


class NoG:
    def tag(self, *a):
        pass

    def chance(self, n):
        return False

    def pick(self, seq):
        return seq[0]


H = " processor 6502\n org $1000\n"


def asan(files, args=(), main="main.asm", expect=None, pre=None):
    if isinstance(files, str):
        files = {"main.asm": files}
    run = {"tool": "dasm_asan", "args": [main] + list(args), "expect": dict({"exit": "any", "sane": True}, **(expect or {}))}
    if pre:
        run["pre"] = pre
    return {"files": files, "runs": [run]}


def raw(files, runs):
    return {"files": files, "runs": runs}


def ref(src, files=None, syms=False, **kw):
    fs = dict(files or {})
    fs["main.asm"] = src
    if syms:
        kw.update(extra=["-so.sym"], more_expect=sym_expect())
    return simple_case(NoG(), fs, kw.pop("fmt", 1), **kw).data


L = "l" * 300
CASES = [
    ("C07", "f8-branch-range", ref(" processor f8\n org 0\n br far\n res 300\nfar nop\n", must=False)),
    ("C06", "f8-branch-range", ref(" processor f8\n org 0\n br far\n res 300\nfar nop\n", must=False)),
    ("C26", "remove-after-abort", raw({"main.asm": H + " dc.b 1\n err\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-R", "-oo.bin"], "expect": {"exit": "nz", "gone": ["o.bin"]}}])),
    ("C14", "initial-segment-every-pass", ref(" processor 6502\n dc.b 1,a\n seg two\n org $200\n dc.b b\n seg three\n org $300\na equ 2\nb equ c\nc equ 5\n"
                                              .replace(" dc.b 1,a\n", " org $100\n dc.b 1,a\n", 1))),
    ("C11", "org-fill-every-pass", ref(" processor 6502\n org $100\n dc.b a\n org $104\n dc.b 1\n org $108,$55\n dc.b 2\n org $10c\n dc.b 3\na equ b\nb equ 5\n")),
    ("C17", "repeat-count-forward", ref(H + " repeat n\n nop\n repend\n dc.b 1\nn equ 3\n")),
    ("C17", "repeat-count-unknown-negative", ref(H + " repeat n-5\n nop\n repend\n dc.b 1\nn equ 8\n")),
    ("C01", "bytes-at-unknown-origin", ref(" processor 6502\n org o\n dc.b 1,2,3\n dc.w l\nl equ 7\no equ $1234\n")),
    ("C15", "branch-unknown-rorg", ref(H + " rorg r\nx0 nop\n bne x0\n rend\nr equ $2000\n")),
    ("C22", "set-dynamic-long-name", ref(H + "n set 12345\nvalue12345x set 77\nvalue set 1\nvalue12345 set 9\nk set value,n\n dc.b k\n", syms=True)),
    ("C16", "missing-argument-passed-on", raw({"main.asm": " processor 6502\n org 0\n mac a\n dc.b {2}\n endm\n mac b\n a 1,{2},{2},3\n endm\n b 1\n"},
                                             [{"tool": "dasm", "args": ["main.asm", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C18", "ifconst-in-skipped-code", ref(H + " if 0\nx ifconst a\n endif\n ifnconst [\n endif\n endif\n dc.b 1\nx dc.b <x\n")),
    ("C18", "ifconst-of-string", ref(H + "s setstr abc\n ifconst s\n dc.b 1\n else\n dc.b 2\n endif\n ifnconst s\n dc.b 3\n endif\n")),
    ("C16", "open-if-at-mexit", ref(H + " mac m\n if 1\n dc.b 1\n mexit\n endif\n endm\n m\n m\n if 1\n dc.b 2\n endif\n dc.b 3\n")),
    ("C11", "align-zero", raw({"main.asm": H + " align 0\n dc.b 1\n"}, [{"tool": "dasm", "args": ["main.asm", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C12", "format-2-nothing", raw({"main.asm": " processor 6502\n org $1000\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f2", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": ""}}}])),
    ("C02", "unary-after-binary", ref(H + " dc.b 1*2+-1+9,6/-2+5,5*<$102,8-!0,3&~1,4==-4\n")),
    ("C09", "symbol-like-index", ref(H + "x_1 equ 3\ny_2 equ 4\nsp_ equ 5\n dc.b 1,x_1,y_2,sp_\n")),
    ("C22", "dynamic-label-end", ref(H + "n set 3\nlab,n dc.b 1\n dc.w lab3\n", syms=True)),
    ("C01", "unknown-negative-origin", ref(" processor 6502\n org o-10\n dc.b 1\no equ $1000\n")),
    ("C19", "incbin-skip-every-pass", ref(H + ' incbin "b.bin",2\nend1 dc.w end1,f\nf equ g\ng equ 3\n', files={"b.bin": {"hex": "0102030405"}})),
    ("C08", "limit-in-final-mode", ref(H + " lda $12345\n", strict=True, must=False)),
    ("C08", "limit-68705-indexed", ref(" processor 68705\n org $100\n rol -32769,x\n", must=False)),
    ("C04", "65c02-nop", ref(" processor 65c02\n org $100\n nop #1\n nop $12\n nop $12,x\n nop $1234\n nop $1234,x\n nop\n")),
    ("C08", "negative-bit", ref(" processor 68705\n org $100\n bset -1,$12\n", must=False)),
    ("C08", "negative-indirect", ref(H + " lda (-300),y\n", must=False)),
    ("C08", "strict-jmp-indexed", ref(" processor 65c02\n org $100\n jmp ($12345,x)\n", strict=True, must=False)),
    ("C10", "long-line", ref(H + " dc.b " + ",".join(["200"] * 200) + "\n")),
    ("C30", "long-line", ref(H + " dc.b " + ",".join(["200"] * 240) + "\nafter dc.w after\n")),
    ("C13", "empty-format-2", raw({"o.bin": ""}, [{"tool": "ftohex", "args": ["2", "o.bin", "o.hex"], "expect": {
        "exit": 0, "ihex": {"file": "o.hex", "mem": []}}}])),
    ("C10", "long-string-words", ref(H + ' dc.l "' + "q" * 900 + '"\n dc.b 1\n')),
    ("C10", "string-symbol-list", ref(H + 's set "' + "q" * 100 + '"\n dc.l ' + ",".join(["s"] * 30) + "\n dc.b 1\n")),
    ("C10", "dv-forward-eqm", ref(H + " dv e 1,2,3\ne eqm ..*2\n")),
    ("C03", "dv-without-eqm", ref(H + " dv nope 1,2,3\n dc.b 1\n", must=False)),
    ("C02", "deep-expression", raw({"main.asm": H + " dc.b " + "[" * 40 + "1" + "+2]" * 40 + "\n"}, [
         {"tool": "dasm", "args": ["main.asm", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C09", "unbalanced-bracket", raw({"main.asm": H + " dc.b 1]\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C09", "empty-bracket", raw({"main.asm": H + " lda #[]\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C27", "missing-operand", asan(H + " dc.b ,1\n")),
    ("C27", "missing-operand-65c02", asan(" processor 65c02\n org 0\n dc.b ,1\n bbr0 ,x\n")),
    ("C27", "long-mnemonic", asan(H + " " + "m" * 900 + " 1\n")),
    ("C27", "long-operand-error", asan(H + " lda (" + L + "),x\n lda.b " + L + "*1000\n stx " + L + ",y\n" + L + " equ 3\n", ["-S"])),
    ("C27", "long-name-error", asan(H + " " + "q" * 900 + "\n org 0\n" + "r" * 700 + "\n")),
    ("C27", "long-macro-recursion", asan(H + " mac " + L + "\n " + L + "\n endm\n " + L + "\n")),
    ("C27", "long-dynamic-set", asan(H + "k set " + "n" * 300 + ",1,2\nn set 2000000000\nk set a" + ",n" * 300 + "\n")),
    ("C27", "long-echo", asan(H + ' echo "' + "e" * 900 + '"\n')),
    ("C27", "setsym-number", asan(H + "n equ 5\nk setsym n\n dc.b k\n")),
    ("C21", "setsym-number", raw({"main.asm": H + "n equ 5\nk setsym n\n dc.b k\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "05"}}}])),
    ("C27", "message-buffer", asan(H + ' echo "' + "e" * 126 + '"\n' + (' echo "' + "e" * 126 + '"\n') * 127 + " dc.b 1\n")),
    ("C24", "sort-far-apart", raw({"main.asm": H + "big equ $7fffffff\nsmall equ 0-$7fffffff\nzero equ 0\n dc.b <big,<small,zero\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-T1", "-so.sym"], "expect": {"exit": 0, "sym": {
            "file": "o.sym", "sort": 1, "entries": [["small", -0x7FFFFFFF, "num", None], ["zero", 0, "num", None],
                                                            ["big", 0x7FFFFFFF, "num", None]], "exact": True}}}])),
    ("C27", "block-comment-at-line-limit", asan(H + " dc.b 1 /* " + "c" * 1011 + "\n" + "d" * 1022 + "\n*/\n")),
    ("C27", "long-line-listed", asan(H + "a" * 500 + " dc.b 1 ;" + "c" * 500 + "\n", ["-lo.lst"])),
    ("C27", "long-include-dir", asan(H + ' include "' + "f" * 200 + '"\n', ["-I" + "d" * 400])),
    ("C27", "define-dot", asan(H + " dc.b 1\n", ["-DX=."])),
    ("C27", "define-error", asan(H + " dc.b 1\n", ["-lo.lst", "-DX=?"])),
    ("C27", "illegal-character-in-eqm", asan(H + "e eqm \\1\n dc.b e\n")),
    ("C27", "many-illegal-characters", asan(H + " dc.b \\,\\,\\,\\\n" * 300)),
    ("C27", "too-many-passes-listed", asan(H + " dc.b a\na equ b\nb equ c\nc equ d\nd equ 1\n", ["-p2", "-lo.lst"])),
    ("C27", "no-passes", asan(H + " dc.b a,300\na equ b\nb equ c\nc equ d\nd equ 1\n", ["-p0"])),
    ("C23", "hidden-bytes", list_case(NoG(), {"main.asm": H + " dc.b 1\n list off\n dc.b 2,3\n list on\nlab\n dc.b 4\n"}, 2).data),
    ("C06", "bf-label", ref(" processor f8\n org 0\nl1 bf later,l1\n dc.w l1\nlater equ 3\n", syms=True)),
    ("C24", "definition-order", raw({"main.asm": H + " dc.b <zz\nbb equ 1\naa\nzz equ 2\n dc.b bb,<aa\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-T2", "-so.sym"], "expect": {"exit": 0, "sym": {
            "file": "o.sym", "sort": 2, "order": ["bb", "aa", "zz"], "entries": [
                ["bb", 1, "num", None], ["aa", 0x1001, "any", None], ["zz", 2, "num", None]], "exact": True}}}])),
    ("C24", "reference-marks", raw({"main.asm": H + " dc.b <later,<macr\nlater equ 3\nmacr eqm later\nvar set 4\nvar2 set 5\n dc.b var2\nidle equ 6\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-so.sym"], "expect": {"exit": 0, "sym": {
            "file": "o.sym", "entries": [
                ["later", 3, "num", None, True, False], ["macr", None, "eqm", "later", True, True], ["var", 4, "num", None, False, True],
                ["var2", 5, "num", None, True, True], ["idle", 6, "num", None, False, False]], "exact": True}}}])),
    ("C26", "size-in-kb", raw({"main.asm": H + " ds 3000\n dc.b 1\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-m65"], "expect": {"exit": 0}}])),
    ("C27", "smallest-by-minus-one", asan(H + "k equ [1<<62]*2\n dc.b <[k/-1],<[k%-1]\n")),
    ("C29", "marks-in-strings", ref(H + ' dc.b "a;b",1\n dc.b "/*",2\n dc.b "*/",3\n dc.b \';,4\n dc.b 5\n')),
    ("C29", "semicolon-in-block", ref(H + " dc.b 1 /* ; */\n dc.b 2\n /* ; */ dc.b 3\n dc.b 4\n")),
    ("C29", "comment-on-call", raw({"main.asm": H + " mac m\n dc.b 1\n endm\n m /* open\n dc.b 9\n closed */\n dc.b 2\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "0102"}}}])),
    ("C29", "comment-on-include", raw({"main.asm": H + ' include "i.asm" /* open\n dc.b 9\n closed */\n dc.b 2\n', "i.asm": " dc.b 1\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "0102"}}}])),
    ("C29", "comment-on-repend", raw({"main.asm": H + " repeat 2\n dc.b 1\n repend /* open\n dc.b 9\n closed */\n dc.b 2\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "010102"}}}])),
    ("C13", "truncated-input", raw({"o.bin": {"hex": "0010050001020304"}}, [
        {"tool": "ftohex", "args": ["2", "o.bin", "o.hex"], "expect": {"exit": "nz"}}])),
    ("C26", "negative-origin", raw({"main.asm": H + " dc.b 1\n org 0-5\n dc.b 1\n"}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": "nz"}}])),
    ("C25", "scanned-line", raw({"main.asm": H + ' dc.b 1\n dc.b "open\n */\n'}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin"], "expect": {"exit": "nz", "diag": {"format": 0, "at": [
            ["main.asm", 4, None], ["main.asm", 5, "Multi-line comment closed without open\\."]], "some": True}, "hasnt": ["main.asm (3)"]}}])),
    ("C16", "strict-alternative", ref(H + " if 1\n mac m\n nop\n endm\n else\n mac m\n asl\n endm\n endif\n m\n", strict=True)),
    ("C08", "sp-offset-forward", ref(" processor 68908\n org 240\n repeat 4\n eor L1,sp\n repend\nL1\n adc #<L1\n")),
    ("C02", "high-character", ref(H + " dc.w '\xe9,\"\xe9\"\n dc.l '\xff\n lda #'\xc4\n")),
    ("C33", "68hc11-flash-end", raw({"main.asm": ' include "68hc811e2.asm"\n org $f800\n dc.w PORTA,PORTB\n'}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-I@machines@/68hc11"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "00000004"}}}])),
    ("C33", "68hc908-and-bits", raw({"main.asm": 'F_CPU equ 2\n include "mc68hc908jb8.asm"\n org $f000\n and_bits 5,#3\n or_bits 6,#4\n'}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-I@machines@/68hc908"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "b605a403b705b606aa04b706"}}}])),
    ("C33", "68hc908-jk1", raw({"main.asm": 'F_CPU equ 2\n include "mc68hc908jk1.asm"\n org $f600\n lda PTB\n'}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-I@machines@/68hc908"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "b601"}}}])),
    ("C33", "channel-f-macros", raw({"main.asm": ' processor f8\n org $800\n include "ves.h"\n include "macro.h"\n org $800\n CARTRIDGE_START\n'}, [
        {"tool": "dasm", "args": ["main.asm", "-f3", "-oo.bin", "-I@machines@/channel-f"], "expect": {"exit": 0, "out": {"file": "o.bin", "hex": "552b"}}}])),
    ("C32", "segment-table", ref(H + " seg.u v\n org $80\n ds 2\n seg c\n org $2000\n rorg $3000\n dc.b 1\n", extra=["-v1"], more_expect=verbose_expect(1))),
]


def main():
    root = os.path.join(HERE, "regress")
    shutil.rmtree(root, ignore_errors=True)
    for prop, name, data in CASES:
        os.makedirs(os.path.join(root, prop), exist_ok=True)
        with open(os.path.join(root, prop, name + ".json"), "w") as f:
            json.dump({"property": prop, "case": data}, f, indent=1)
            f.write("\n")
    print(len(CASES), "cases")


main()
