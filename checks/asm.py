"""C20 (Isa.tla), C23 (Source.tla)."""
import itertools
from vlib import *
from basics import drive, hx
from flow import TRACE, batches

ALL = ("adc and asl bit cld cli clv cmp cpx cpy dec dex dey eor inc inx iny lda ldx ldy "
       "lsr mvn mvp nop ora pea pei per pha phb phd phk phx phy pla plb pld plx ply rol "
       "ror sbc sed sei sta stp stx sty stz tax tay tcd tcs tdc trb tsb tsc tsx txa txs "
       "txy tya tyx wai wdm xba bcc bcs beq bmi bne bpl bra brk brl bvc bvs cop jmp jsl "
       "jsr rti rtl rts clc php plp rep sec sep xce add sub").split()
MODES = ("imp acc immb immw dirb dirw dirl dirbx dirby dirwx dirwy dirlx indb indw indbx indby "
         "indwx lngb lngw lngby stk stky mov rel8 rel16 immm immx").split()
# sources of /repo/nsasm the assembler needs
CORE = ("error", "execution_state", "calling_convention", "parse", "token", "expression", "mnemonic",
        "addressing_mode", "opcode_map", "instruction", "directive", "statement", "location",
        "memory", "decode")


def c20():
    c = Check("C20")
    c.model("MCIsa", "SPECIFICATION Spec\nINVARIANT RoundTrip Prefixes Counted\nCHECK_DEADLOCK FALSE\n")
    exe = c.b.driver("isa_drv", CORE)
    rng = c.rng
    vals = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456,
            0x89abcd, 0xffffff, -1, -2, -128, -129, -32768, -32769]
    pcs = [0x8000, 0x00fffd, 0x12fffe, 0x80ffff, 0xffffff, 0xc00000]
    enc = []
    for mn in ALL:
        for m in MODES:
            if m in ("rel8", "rel16"):
                base = rng.choice([0x8000, 0x123456, 0xfffffe, 0x80007f])
                n = 2 if m == "rel8" else 3
                for d in (0, 1, -1, 127, 128, -128, -129, 32767, -32768):
                    t = base // 65536 * 65536 + (base + n + d) % 65536
                    enc.append(f"{mn} {m} {t} 0 {base}")
                enc.append(f"{mn} {m} {(base + 65536 + n) % 16777216} 0 {base}")
            elif m == "mov":
                for a, b in ((0, 1), (0x7e, 0x7f), (255, 128), (0x101, -1)):
                    enc.append(f"{mn} {m} {a} {b} {rng.choice(pcs)}")
            else:
                for a in [rng.choice(vals) for _ in range(c.pick(3, 12))]:
                    enc.append(f"{mn} {m} {a} 0 {rng.choice(pcs)}")
    # every branch, over every displacement
    for mn in "bcc bcs beq bmi bne bpl bra bvc bvs brl per".split():
        for base in rng.sample([0x8000, 0x00ff80, 0x12ffff, 0xff0000, 0x80fffe], c.pick(2, 5)):
            n, m = (3, "rel16") if mn in ("brl", "per") else (2, "rel8")
            ds = list(range(-140, 141)) if m == "rel8" else \
                [rng.randrange(-32768, 32768) for _ in range(60)] + [-32768, 32767, 0, -1, -3, 255, 256]
            for d in ds:
                t = base // 65536 * 65536 + (base + n + d) % 65536
                enc.append(f"{mn} {m} {t} 0 {base}")
    # every operand value of each mode, on one instruction that has it
    rep = {"dirb": "lda", "dirw": "sta", "immb": "rep", "immw": "pea", "stk": "adc", "lngby": "eor"}
    for m, mn in rep.items():
        for a in rng.sample(range(65536), c.pick(150, 3000)):
            enc.append(f"{mn} {m} {a} 0 {rng.choice(pcs)}")
    for _ in range(c.pick(1500, 40000)):
        m = rng.choice(MODES[:23])
        enc.append(f"{rng.choice(ALL)} {m} {rng.randrange(-65536, 1 << 24)} {rng.randrange(256)} "
                   f"{rng.randrange(1 << 24)}")
    cmds = ["begin", "facts " + " ".join(ALL)] + batches("enc", enc)
    dec = []
    flags = ["".join(q) for q in itertools.product("nfou", repeat=3)]
    for opc in range(256):
        for f in ("fnf", "ffn", "fnn", "fff", "nnn", "uuu", "fof", "ooo"):
            for n in (4, rng.randrange(1, 4)):
                ops = [rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]) for _ in range(3)]
                dec.append(f"{f} {rng.choice(pcs)} {n} " + " ".join(map(str, ([opc] + ops)[:n])))
        for n in (1, 2, 3):
            dec.append(f"fnf {rng.choice(pcs)} {n} " + " ".join(map(str, [opc, 0x12, 0xff][:n])))
    dec.append("uuu 0 0")
    for opc in (0x10, 0x80, 0xf0, 0x82, 0x62):     # all signed distances
        for d in range(256):
            dec.append(f"{rng.choice(flags)} {rng.choice(pcs)} 4 {opc} {d} {rng.choice([0, 127, 128, 255, d])} 0")
    for _ in range(c.pick(2000, 60000)):
        n = rng.randrange(0, 7)
        dec.append(f"{rng.choice(flags)} {rng.randrange(1 << 24)} {n} " +
                   " ".join(str(rng.randrange(256)) for _ in range(n)))
    cmds += batches("dec", [d.strip() for d in dec])
    ans = drive(c, exe, cmds, "TraceIsa", cfg=TRACE)
    for op in ("enc", "dec"):
        qs = [q for a in ans if a["op"] == op for q in a["q"]]
        c.notes[op + "_calls"] = len(qs)
        c.notes[op + "_accepted"] = sum(q["ok"] for q in qs)
        c.sample({"op": op, "call": next((q for q in qs if q["ok"]), None)})
    return c.finish()


# ------------------------------------------------------------------ source --
NAMES = ["foo", "bar", "Foo", "_q", "x1", "loop", "unk", "m8x8", "native"]
ENVN = ["foo", "bar", "Foo", "_q", "m::foo", "m::bar", "::foo", "::x1", "loop"]
STATES = ["unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16",
          "M8X16", "Emu", "m8x", "x8m8", "m16m16"]


class Gen:
    """Random source text from the grammar (and from near misses of it)."""

    def __init__(self, rng):
        self.r = rng

    def case(self, s):
        k = self.r.randrange(4)
        return s.upper() if k == 0 else s.capitalize() if k == 1 else s

    def num(self):
        r = self.r
        v = r.choice([0, 1, 5, 127, 128, 129, 255, 256, 300, 32767, 32768, 65535, 65536, 70000, 0xffffff,
                      r.randrange(256), r.randrange(65536), r.randrange(1 << 24), r.randrange(1 << 31)])
        k = r.randrange(8)
        if k < 2:
            return str(v)
        if k < 5:
            h = r.choice(["%x", "%02x", "%04x", "%06x", "%X", "%03x", "%05x"]) % v
            return "$" + h[-7:]
        if k == 5:
            return r.choice(["0x", "0X"]) + ("%04x" % v)[-6:]
        if k == 6:
            return "%" + "".join(r.choice("01") for _ in range(r.choice([1, 4, 8, 9, 16, 17, 24])))
        return r.choice(["0", "00", "007", "0x", "09"]) if r.random() < .1 else str(v % 256)

    def name(self):
        r = self.r
        n = r.choice(NAMES)
        k = r.randrange(10)
        if k == 0:
            n = "::" + n
        elif k == 1:
            n = r.choice(["m", "n"]) + r.choice(["::", " :: "]) + n
        if r.random() < .2:
            n = r.choice(["@", "@ "]) + n
        return n

    def expr(self, d=2):
        r = self.r
        k = r.randrange(10)
        if d == 0 or k < 4:
            return self.num() if r.random() < .6 else self.name()
        if k < 6:
            return r.choice(["-", "<", ">", "^", "- ", "<  "]) + self.expr(d - 1)
        if k < 7:
            return "(" + self.expr(d - 1) + ")"
        return self.expr(d - 1) + r.choice(["+", "-", "*", "/", " + ", " - ", " * ", " / "]) + self.expr(d - 1)

    def arg(self):
        return self.expr(self.r.choice([0, 0, 0, 1, 2]))

    def operand(self):
        r = self.r
        a = self.arg()
        c = r.choice([",", ", ", " , "])
        reg = lambda s: r.choice([s, s.lower()])
        return r.choice([lambda: "", lambda: reg("A"), lambda: "#" + a, lambda: a, lambda: a + c + reg("X"),
                         lambda: a + c + reg("Y"), lambda: a + c + reg("S"), lambda: f"({a})",
                         lambda: f"({a}{c}{reg('X')})", lambda: f"({a}){c}{reg('Y')}", lambda: f"[{a}]",
                         lambda: f"[{a}]{c}{reg('Y')}", lambda: f"({a}{c}{reg('S')}){c}{reg('Y')}",
                         lambda: f"#{a}{c}#{self.arg()}", lambda: f"({a}){r.choice('+-*/')}{self.arg()}",
                         lambda: f"({a}){r.choice('+-*/')}{self.arg()}{c}{reg('X')}"])()

    def ret(self, p=.1):
        r = self.r
        if r.random() > p:
            return ""
        return r.choice([" noreturn", " Yields " + r.choice(STATES), " yields " + r.choice(STATES),
                         " NORETURN", " yields", " yields noreturn"])

    def stmt(self):
        r = self.r
        k = r.randrange(18)
        if k > 11:
            s = r.choice(self.legal).split(" ", 1)
            if "$12" in s[-1] and r.random() < .7:
                s[-1] = s[-1].replace("$1234", "$%04x" % r.randrange(65536)).replace("$12", "$%02x" % r.randrange(256))
            return self.case(s[0]) + " " + " ".join(s[1:])
        if k < 8:
            return self.case(r.choice(ALL)) + r.choice(["", "", "", "", ".b", ".w", ".W", " .b"]) + " " + \
                self.operand() + self.ret()
        if k == 8:
            return r.choice(["jsr", "JSL", "jmp"]) + " " + self.arg() + self.ret(.7)
        if k == 9:
            return r.choice(["{", "}", "", "{ nop", "} nop"])
        return self.directive()

    def directive(self):
        r = self.r
        n = r.choice("begin db dl dw end entry equ halt mode module org remote".split())
        d = "." + self.case(n)
        if n in ("begin", "end", "halt"):
            return d + r.choice(["", "", "", " foo"])
        if n in ("db", "dw", "dl"):
            return d + " " + r.choice([", ", ","]).join(self.arg() for _ in range(r.randrange(1, 5)))
        if n in ("equ", "org"):
            return d + " " + self.arg()
        if n == "module":
            return d + " " + (self.name() if r.random() < .8 else self.arg())
        if n == "mode":
            return d + " " + r.choice(STATES) + self.ret(.05)
        if n == "entry":
            return d + " " + r.choice(STATES) + self.ret(.5)
        return d + " " + self.arg() + " " + r.choice(STATES) + self.ret(.5)

    def line(self):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            p = ""
            if r.random() < .3:
                p = r.choice(["", "", "export ", "Export "]) + r.choice(NAMES + ["y", "nop"]) + r.choice([":", " ", ": "])
            parts.append(p + self.stmt())
        s = r.choice([":", " : ", " : : "]).join(parts)
        if r.random() < .1:
            s += r.choice([" ; note : nop", ";", " :"])
        return s

    TOKENS = ("( ) [ ] , : # + - * / @ { } < > ^ :: ++ --- $12 $1234 $123456 %101 12 300 foo bar A x Y s "
              "lda jsr nop bra .db .equ .mode .b .w m8 m8x8 yields noreturn export ; . $ % ! .foo 0x1f").split()

    def soup(self):
        return self.r.choice(["", " "]).join(self.r.choice(self.TOKENS) for _ in range(self.r.randrange(1, 9)))

    def damaged(self):
        s = self.line()
        if not s:
            return s
        i = self.r.randrange(len(s))
        k = self.r.randrange(3)
        if k == 0:
            return s[:i] + s[i + 1:]
        if k == 1:
            return s[:i] + self.r.choice("()[],:#+-@{}<>^$.%;!~ axys0") + s[i:]
        return s[:i]


def c23():
    c = Check("C23")
    t = c.model("MCSource", f"SPECIFICATION Spec\nCONSTANT Deep = {'TRUE' if c.thorough else 'FALSE'}\n"
                    "INVARIANT ReadsBack Sized InsReadsBack\n"
                "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    legal = sorted({x["text"] for x in t.printed("LINE")})
    if len(legal) < 400:
        raise CheckError("MCSource emitted no lines")
    exe = c.b.driver("parse_drv", CORE)
    rng = c.rng
    g = Gen(rng)
    lines = list(legal)
    g.legal = legal
    # every mnemonic in every operand form, with arguments of every width
    args = ["12", "300", "70000", "-5", "-200", "$12", "$1234", "$123456", "foo", "@foo", "m::foo", "(foo)",
            "-$12", "<foo", "$12+1", "-32768", "65535", "-32769", "65536", "255", "256", "-128", "-129"]
    forms = ["{m}", "{m} A", "{m} #{a}", "{m} {a}", "{m} {a},X", "{m} {a},Y", "{m} {a},S", "{m} ({a})",
             "{m} ({a},X)", "{m} ({a}),Y", "{m} [{a}]", "{m} [{a}],Y", "{m} ({a},S),Y", "{m} #{a},#$01",
             "{m}.b #{a}", "{m}.w {a}", "{m} {a} noreturn", "{m} {a},A", "{m} [{a}],X", "{m} ({a},Y)"]
    for m in ALL:
        for f in forms:
            for a in (args if "{a}" in f else [""]) if c.thorough else \
                    (rng.sample(args, 7) if "{a}" in f else [""]):
                lines.append(f.format(m=g.case(m), a=a))
    for d in "begin db dl dw end entry equ halt mode module org remote".split():
        for a in ("", "1", "foo", "m8x16", "$12,foo", "foo m8", "$8000 emu noreturn", "emu yields m16",
                  "$8000 m8x8 yields native", "@foo", "m::foo", "native noreturn", "1,", "m8 m8"):
            lines.append(f".{g.case(d)} {a}")
    for a, b in itertools.product(("", "foo", "foo:", "export foo", "export foo:", "{", "}", ":", "nop:", "nop",
                                   ".halt", ".halt:", "export", "; x", "foo bar"), repeat=2):
        lines.append(a + " " + b)
        lines.append(a + " " + b + " : nop")
    lines += [g.line() for _ in range(c.pick(7000, 60000))]
    lines += [g.soup() for _ in range(c.pick(2000, 30000))]
    lines += [g.damaged() for _ in range(c.pick(2000, 30000))]
    exprs = [g.expr(rng.choice([1, 2, 3, 4])) for _ in range(c.pick(2500, 40000))]
    for a, b in itertools.product("+-*/", repeat=2):
        for u in ("", "-", "<", ">", "^"):
            exprs += [f"{u}7{a}3{b}2", f"7{a}{u}$03{b}$0002", f"(7{a}3){b}{u}2", f"7{a}({u}3{b}2)",
                      f"{u}foo{a}bar{b}$12", f"0-7{a}2{b}{u}3"]
    exprs += ["2147483647", "2147483648", "0-2147483647-1", "(0-2147483647-1)/(0-1)", "1/0", "foo/(bar-bar)",
              "<-1", ">-1", "^-1", "-<-1", "$ff*$ff", "-$80", "-(-$80)", "$1234567", "%", "$", "0x", "--1",
              "- -1", "+1", "1 2", "(1", "1)", "()", "", "@1", "@@foo", "foo::", "::", "foo::bar::baz", "1+", "*1"]
    cmds = ["begin"]
    sets = []
    for _ in range(3):
        sets.append("env " + " ".join(f"{n} {rng.choice([rng.randrange(-300, 300), rng.randrange(1 << 24)])}"
                                      for n in ENVN))
    rng.shuffle(lines)
    for i, s in enumerate(sets):
        cmds.append(s)
        cmds += batches("line", [hx(x) for x in lines[i::3]], 300)
        cmds += batches("expr", [hx(x) for x in exprs[i::3]], 300)
    ans = drive(c, exe, cmds, "TraceSource", cfg=TRACE)
    for op in ("line", "expr"):
        qs = [q for a in ans if a["op"] == op for q in a["q"]]
        c.notes[op + "s"] = len(qs)
        c.notes[op + "s_accepted"] = sum(q["ok"] for q in qs)
        c.sample({"op": op, "src": next((q["src"] for q in qs if q["ok"]), None)})
    return c.finish()
