"""C12 (Flags.tla), C13 (Cpu.tla, Analysis.tla), C14 (AbsStack.tla)."""
import itertools
from vlib import *
from basics import drive, hx

TRACE = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def batches(op, calls, n=400):
    calls = list(calls)
    return [op + " " + " ".join(calls[i:i + n]) for i in range(0, len(calls), n)]


def c12():
    c = Check("C12")
    c.model("MCFlags", "SPECIFICATION Spec\nINVARIANT Commutes Idempotent " +
            ("Associates " if c.thorough else "") +
            "Covers Keeps EmulationIs8Bit NameReadsBack ExchangeSound IncomingSound\n"
            "CHECK_DEADLOCK FALSE\n")
    exe = c.b.driver("flags_drv", ("execution_state", "calling_convention"))
    quads = ["".join(q) for q in itertools.product("fnou", repeat=4)]
    # the distinct states, by the documented constraint
    states = [q for q in quads if not (q[0] == "n" and q[1:3] != "nn") and
              not (q[0] == "u" and set(q[1:3]) & set("fo")) and
              not (q[0] == "o" and "f" in q[1:3])]
    rng = c.rng
    cmds = ["begin"]
    cmds += batches("make", quads)
    cmds += batches("merge", (f"{a} {b}" for a in states for b in states))
    cmds += batches("same", (f"{a} {b}" for a in states for b in states))
    for op in ("setm", "setx", "setc"):
        cmds += batches(op, (f"{s} {b}" for s in states for b in "fnou"))
    for op in ("incoming", "xce", "show"):
        cmds += batches(op, states)
    names = ["unk", "emu", "native"] + [m + x for m in ("", "m8", "m16") for x in ("", "x8", "x16")]
    texts = set()
    for n in names:
        for cs in itertools.product(*[(ch, ch.upper()) if ch.isalpha() else (ch,) for ch in n]):
            texts.add("".join(cs))
        for i in range(len(n) + 1):
            for ch in "mxeuk816 0":
                texts |= {n[:i] + ch + n[i:], n[:i] + n[i + 1:], n[:i] + ch + n[i + 1:]}
        texts |= {n + n, n[::-1], n + "\0", " " + n}
    texts |= {"x8m8", "m16m16", "x16x8", "m", "x", "m1", "m6", "m88", "unknown", "emulation", "m8 x8",
              "m8,x8", "original", "*"}
    for _ in range(c.pick(300, 20000)):
        texts.add("".join(rng.choice(["m", "x", "8", "16", "1", "6", "unk", "emu", "native", "M", "X", ""])
                          for _ in range(rng.randrange(1, 5))))
    cmds += batches("name", map(hx, sorted(texts)))
    named = ["uuuu", "nnnu"] + ["f" + m + x + "u" for m in "ufn" for x in "ufn"]
    convs = ["default", "noreturn"] + named
    cmds += batches("suffix", convs)
    cmds += batches("apply", (f"{r} {s}" for r in convs for s in states))
    ans = drive(c, exe, cmds, "TraceFlags", cfg=TRACE)
    c.notes["calls"] = sum(len(a["q"]) for a in ans)
    for op in ("merge", "xce", "name", "apply"):
        c.sample({"op": op, "call": next(a for a in ans if a["op"] == op)["q"][7]})
    return c.finish()


# mnemonic -> operands; '' none.  {m}/{x}: immediate, sized by the code
OPERANDS = {
    "sec": [""], "clc": [""], "xce": [""], "php": [""], "plp": [""], "pha": [""], "pla": [""],
    "phx": [""], "plx": [""], "phy": [""], "ply": [""], "phb": [""], "plb": [""], "phd": [""],
    "pld": [""], "phk": [""], "txs": [""], "tcs": [""], "pea": ["#$1234", "#-2"],
    "pei": ["$12"], "per": ["foo"], "adc": ["#$12", "$12", "$123456,x", "($12),y"],
    "sbc": ["#$12", "[$12]"], "add": ["#$12", "$1234"], "sub": ["#$12", "$12,s"],
    "asl": ["", "$12"], "lsr": ["A", "$1234,x"], "rol": ["", "$1234"], "ror": ["", "$12,x"],
    "cmp": ["#$12", "$12"], "cpx": ["#$12", "$12"], "cpy": ["#$12", "$1234"],
    "and": ["#$12", "$12"], "ora": ["#$12", "($12,s),y"], "eor": ["#$12", "$12"],
    "lda": ["#$12", "#$1234", "$12", "@foo"], "ldx": ["#$12", "$1234"], "ldy": ["#$12", "$12"],
    "sta": ["$12", "$123456"], "stx": ["$12"], "sty": ["$12"], "stz": ["$1234"],
    "bit": ["#$12", "$12"], "trb": ["$12"], "tsb": ["$1234"], "inc": ["", "$12"], "dec": ["", "$12"],
    "inx": [""], "iny": [""], "dex": [""], "dey": [""], "tax": [""], "tay": [""], "txa": [""],
    "tya": [""], "txy": [""], "tyx": [""], "tsx": [""], "tsc": [""], "tcd": [""], "tdc": [""],
    "xba": [""], "nop": [""], "wai": [""], "wdm": ["#$12"], "cld": [""], "sed": [""], "cli": [""],
    "sei": [""], "clv": [""], "mvn": ["#$12,#$34"], "mvp": ["#$12,#$34"],
    "bcc": ["foo"], "bcs": ["foo"], "beq": ["foo"], "bne": ["foo"], "bmi": ["foo"], "bpl": ["foo"],
    "bvc": ["foo"], "bvs": ["foo"], "brk": ["#$12"], "cop": ["#$12"],
    "jsr": ["foo", "$1234", "($1234,x)"], "jsl": ["@foo", "$123456"],
}
SIZED_X = {"cpx", "cpy", "ldx", "ldy"}
BRANCHES = ["bcc", "bcs", "beq", "bne", "bmi", "bpl", "bvc", "bvs", "bra", "brl"]
STATES = ["unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"]


def ex(mn, operand="", arg=-1, ret="default", taken=0):
    text = mn + (" " + operand if operand else "")
    if ret == "noreturn":
        text += " noreturn"
    elif ret != "default" and mn != ".mode":
        text += " yields " + ret
    elif mn == ".mode":
        text += " " + ret
    return f"exec {taken} {mn} {arg} {ret} {1 if mn in SIZED_X else 0} {hx(text)}"


def mask(rng, mn, n=None):
    n = rng.choice([0, 1, 0x10, 0x20, 0x30, 0x31, 0x33, 0xff, 0xc3, 0xcf, 0x21, 0x11,
                    rng.randrange(256)]) if n is None else n
    r = rng.random()
    text = f"#${n:02x}" if r < .5 else f"#{n}" if r < .7 else f"#%{n:08b}" if r < .9 else f"#<${n:04x}"
    return ex(mn, text, n)


def any_instruction(rng):
    r = rng.random()
    if r < .18:
        return mask(rng, rng.choice(["rep", "sep"]))
    if r < .21:
        return ex(rng.choice(["rep", "sep"]), rng.choice(["#<foo", "#>foo", "#<foo+1"]))
    if r < .28:
        mn = rng.choice(["jsr", "jsl", "jsr", "brk", "cop"])
        op = rng.choice(OPERANDS[mn])
        return ex(mn, op, ret=rng.choice(STATES) if mn[0] == "j" and rng.random() < .6 else "default")
    if r < .31:
        return ex(".mode", ret=rng.choice(STATES))
    if r < .42:
        return ex(rng.choice(BRANCHES), "foo", taken=1)
    if r < .5:
        return ex(rng.choice(["bcc", "bcs"]), "foo")
    if r < .82:
        mn = rng.choice(["sec", "clc", "xce", "xce", "php", "php", "plp", "plp", "pha", "pla", "phx",
                         "plx", "phy", "ply", "phb", "plb", "phd", "pld", "phk", "txs", "tcs"])
    else:
        mn = rng.choice(sorted(OPERANDS))
    return ex(mn, rng.choice(OPERANDS[mn]))


def c13():
    c = Check("C13")
    cfg = "CONSTANTS MaxSteps = %d Depth = 6\nSPECIFICATION Spec\nINVARIANT Sound StackFits\n" \
          "CONSTRAINT Small\nCHECK_DEADLOCK FALSE\n"
    c.model("MCAnalysis", cfg % c.pick(3, 4), timeout=3000)
    exe = c.b.driver("flow_drv", ("error", "execution_state", "calling_convention", "parse", "token",
                                  "expression", "mnemonic", "addressing_mode", "opcode_map",
                                  "instruction", "directive", "statement", "location", "memory"))
    rng = c.rng
    # every instruction after every kind of entry
    cmds = []
    for st in STATES:
        cmds += [f"begin {st}", "save 0"]
        alone = [ex(mn, op) for mn in OPERANDS for op in OPERANDS[mn]]
        alone += [ex(b, "foo", taken=1) for b in BRANCHES]
        alone += [mask(rng, mn, n) for mn in ("rep", "sep") for n in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255)]
        alone += [ex("rep", "#<foo"), ex("sep", "#<foo")]
        alone += [ex(j, o, ret=r) for j, o in (("jsr", "foo"), ("jsl", "@foo"), ("jsr", "($1234,x)"))
                  for r in STATES]
        alone += [ex(".mode", ret=r) for r in STATES]
        for a in alone:
            cmds += ["load 0", a]
        # saved flags across every instruction that moves or may move the stack
        for first in ("php",):
            for a in alone:
                cmds += ["load 0", ex(first), a, ex("plp")]
                cmds += ["load 0", ex(first), mask(rng, "sep"), a, ex("pla"), ex("plp")]
                cmds += ["load 0", ex(first), mask(rng, "rep"), ex("pha"), a, ex("plx"), ex("plp")]
    # every short sequence over the instructions that matter most
    alpha = [ex(m) for m in ("sec", "clc", "xce", "php", "plp", "pha", "pla", "phx", "ply", "plb")]
    alpha += [mask(rng, "rep", 0x30), mask(rng, "sep", 0x20), mask(rng, "sep", 0x11), ex("rep", "#<foo"),
              ex("bcc", "foo"), ex("bcs", "foo", taken=1), ex("jsr", "foo", ret="m8x16"), ex("adc", "$12")]
    depth = c.pick(3, 4)

    def tree(d):
        for a in alpha:
            cmds.extend([f"load {d}", a])
            if d + 1 < depth:
                cmds.append(f"save {d + 1}")
                tree(d + 1)
    for st in c.pick(["unk", "m8x16"], ["unk", "native", "m8x16", "emu"]):
        cmds += [f"begin {st}", "save 0"]
        tree(0)
    # long random sequences with joins
    for _ in range(c.pick(500, 8000)):
        cmds += [f"begin {rng.choice(STATES)}", "save 0", "save 1", "save 2"]
        for _ in range(rng.randrange(4, 22)):
            r = rng.random()
            if r < .08:
                cmds.append(f"save {rng.randrange(3)}")
            elif r < .14:
                cmds.append(f"join {rng.randrange(3)}")
            elif r < .18:
                cmds.append(f"load {rng.randrange(3)}")
            else:
                cmds.append(any_instruction(rng))
    ans = drive(c, exe, cmds, "TraceCpu", cfg=TRACE)
    c.notes["instructions"] = sum(a["op"] == "exec" for a in ans)
    c.notes["refused_by_code"] = sum(a["op"] == "exec" and not a["ok"] for a in ans)
    c.notes["definite_width_claims"] = sum(a["op"] == "exec" and (a["s"][1] in ("on", "off")) for a in ans)
    c.sample(next(a for a in ans if a["op"] == "exec" and a["mn"] == "plp"))
    c.sample(next(a for a in ans if a["op"] == "exec" and a["mn"] == "xce"))
    return c.finish()


def c14():
    c = Check("C14")
    cfg = ("CONSTANT MaxOps = %d\nSPECIFICATION Spec\nINVARIANT Sound\nCONSTRAINT Deep\nVIEW View\n"
           "%sCHECK_DEADLOCK FALSE\n")
    c.model("MCAbsStack", cfg % (c.pick(4, 5), ""), timeout=3000)
    t = c.model("MCAbsStack", cfg % (3, "ACTION_CONSTRAINT Emit\n"), workers=1, label="MCAbsStackEmit")
    hs = t.printed("TR")
    exe = c.b.driver("stack_drv", ("execution_state",))
    rng = c.rng
    cmds = []
    # all behaviours of the model, and then everything is pulled
    for h in hs:
        cmds += ["begin"] + h + ["copies"]
        if h[-1].startswith("pu"):
            cmds += ["save 0", "pullbyte", "pullbyte", "pullbyte", "load 0", "pullreg a off",
                     "load 0", "pullreg x orig", "pullreg a orig"]
    replayed = len(hs)
    # long histories with several kept stacks
    bits = ["on", "off", "orig", "unk"]
    quads = ["".join(q) for q in itertools.product("fnou", repeat=4)]
    for _ in range(c.pick(1500, 20000)):
        cmds.append("begin")
        depth = 0
        for _ in range(rng.randrange(5, 26)):
            r = rng.random()
            bit = rng.choice(bits[:3] + bits[:3] + bits[:3] + bits)
            reg = rng.choice("axy")
            if r < .3:
                rv = rng.choice(["unk:0", "orig:0", "orig:0", f"val:{rng.randrange(65536)}",
                                 f"val:{rng.randrange(256)}"])
                cmds.append(f"pushreg {reg} {rv} {bit}")
            elif r < .36:
                cmds.append(f"pushbyte {rng.choice([-1, rng.randrange(256)])}")
            elif r < .42:
                cmds.append(f"pushword {rng.choice([-1, rng.randrange(65536)])}")
            elif r < .45:
                cmds.append(f"pushbank {rng.choice(['unk:0', 'orig:0', f'val:{rng.randrange(256)}'])}")
            elif r < .5:
                cmds.append(f"pushflags {rng.choice(quads)}")
            elif r < .72:
                cmds.append(f"pullreg {reg} {bit}")
            elif r < .78:
                cmds.append("pullbyte")
            elif r < .82:
                cmds.append("pullbank")
            elif r < .825:
                cmds.append("abandon")
            elif r < .88:
                cmds.append(f"save {rng.randrange(4)}")
            elif r < .91:
                cmds.append(f"load {rng.randrange(4)}")
            elif r < .94:
                cmds.append("swap")
            elif r < .98:
                cmds.append(f"join {rng.randrange(4)}")
            else:
                cmds.append("copies")
    # two paths over a common stack, merged and pulled to the bottom
    def push():
        r, reg, bit = rng.random(), rng.choice("axy"), rng.choice(["on", "off", "orig", "orig"])
        if r < .55:
            return f"pushreg {reg} {rng.choice(['unk:0', 'orig:0', 'val:4660', 'val:18'])} {bit}"
        if r < .8:
            return f"pushbyte {rng.choice([18, 18, 52, -1])}"
        return rng.choice(["pushword 4660", "pushbank orig:0", f"pushflags {rng.choice(quads[::7])}"])

    def undo(cmd):
        w = cmd.split()
        r = rng.random()
        if r < .25 or w[0] == "pushflags":
            return ["pullbyte"]
        if w[0] == "pushreg":
            return [f"pullreg {w[1]} {w[3] if r < .9 else rng.choice(bits)}"]
        return [{"pushbyte": "pullbyte", "pushbank": "pullbank"}.get(w[0], "pullreg a off")]
    for _ in range(c.pick(4000, 60000)):
        base = [push() for _ in range(rng.randrange(0, 3))]
        one = [push() for _ in range(rng.randrange(1, 4))]
        other = [push() if rng.random() < .4 else x for x in one]
        if rng.random() < .1:
            other = other[1:]
        if rng.random() < .1:
            other = other + ["pullbyte", push()]
        cmds += ["begin"] + base + ["save 0", "save 1"] + one + ["save 2", "load 0"] + other
        cmds += ["join 2"] if rng.random() < .5 else ["swap", "load 2", "join 1"]
        for x in reversed(base + rng.choice([one, other])):
            cmds += undo(x)
        cmds += ["pullbyte"]
    # what was pushed comes back, at every width, below one more entry
    for bit in bits:
        for reg in "axy":
            for rv in ("unk:0", "orig:0", "val:4660", "val:18"):
                for b2 in bits:
                    for r2 in "axy":
                        cmds += ["begin", f"pushreg {reg} {rv} {bit}", f"pullreg {r2} {b2}", "pullbyte",
                                 "begin", f"pushreg {r2} orig:0 {b2}", f"pushreg {reg} {rv} {bit}",
                                 f"pullreg {reg} {bit}", f"pullreg {r2} {b2}", "pullbyte",
                                 "pushbyte 7", "pullbyte"]
    ans = drive(c, exe, cmds, "TraceStack", cfg=TRACE)
    c.notes["replayed_model_behaviours"] = replayed
    c.notes["definite_answers"] = sum(a.get("k", "unk") != "unk" for a in ans)
    c.notes["unknown_answers"] = sum(a.get("k") == "unk" for a in ans)
    c.sample(show(ans[40:60]))
    return c.finish()
