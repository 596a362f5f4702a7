"""C08 (Names.tla), C09 (Numbers.tla), C10 (Errors.tla)."""
import itertools
from vlib import *


def hx(s):
    return "=" + s.encode("latin-1").hex()


def drive(c, exe, cmds, module, cfg=None, label=None):
    ans, crash = run_driver(exe, cmds, 120)
    if crash:
        k = len(ans)
        i = min(k, len(cmds) - 1)
        while i > 0 and not cmds[i].startswith("begin"):
            i -= 1
        c.violation(f"{c.id}: no answer to '{cmds[min(k, len(cmds) - 1)][:300]}': {crash.why}",
                    "\n".join(cmds[i:k + 1]) + "\n" + crash.stderr)
    bad = c.validate(module, ans, cfg=cfg, label=label)
    for m in bad[:4]:
        h = history(ans, m["l"])
        last = h[-1] if len(json.dumps(h[-1])) < 2000 else {"op": h[-1]["op"]}
        c.violation(f"{c.id}: {json.dumps(last)[:300]} -- specification: "
                    f"{json.dumps(m['want'])[:300]}",
                    show(h if "q" not in h[-1] else h[-1:]) + "\nspecification wants " +
                    json.dumps(m["want"]))
    return ans


def c08():
    c = Check("C08")
    c.model("Names", "SPECIFICATION NSpec\nINVARIANT RoundTrip CaseBlind Unique Counts\n"
                     "CHECK_DEADLOCK FALSE\n", workers=1)
    exe = c.b.driver("names_drv", ("mnemonic",))
    mn = ("adc and asl bit cld cli clv cmp cpx cpy dec dex dey eor inc inx iny lda ldx ldy "
          "lsr mvn mvp nop ora pea pei per pha phb phd phk phx phy pla plb pld plx ply rol "
          "ror sbc sed sei sta stp stx sty stz tax tay tcd tcs tdc trb tsb tsc tsx txa txs "
          "txy tya tyx wai wdm xba bcc bcs beq bmi bne bpl bra brk brl bvc bvs cop jmp jsl "
          "jsr rti rtl rts clc php plp rep sec sep xce").split()
    di = "begin db dl dw end entry equ halt mode module org remote".split()
    names = {"mnemonic": mn + ["add", "sub"], "suffix": [".b", ".w"],
             "directive": ["." + d for d in di]}
    items = {"mnemonic": ["M_" + m for m in mn] + ["PM_add", "PM_sub"],
             "suffix": ["S_b", "S_w"], "directive": ["D_" + d for d in di]}
    rng = c.rng
    cmds = ["begin"]
    for k in names:
        for i in items[k]:
            cmds.append(f"print {k} {i}")
    # in-range bit patterns of the enumerations that are no item
    cmds += [f"printraw mnemonic {n}" for n in range(93, 128)]
    cmds += ["printraw suffix 0", "printraw suffix 3"]
    cmds += [f"printraw directive {n}" for n in range(12, 16)]
    cmds += ["all mnemonic", "all suffix"]
    texts = {k: set() for k in names}
    for k, ns in names.items():
        for n in ns:
            for cs in itertools.product(*[(ch, ch.upper()) if ch.isalpha() else (ch,) for ch in n]):
                texts[k].add("".join(cs))
            for i in range(len(n) + 1):      # near misses
                texts[k].add(n[:i] + n[i + 1:])
                texts[k].add(n[:i] + rng.choice("abcdefghijklmnopqrstuvwxyz.0_ ") + n[i:])
                if i < len(n):
                    texts[k].add(n[:i] + rng.choice("abcdefghijklmnopqrstuvwxyz.#") + n[i + 1:])
                    texts[k].add(n[:i] + chr(ord(n[i]) ^ 0x80) + n[i + 1:])
            texts[k] |= {n + " ", " " + n, n + n, n[::-1], n.lstrip("."), "." + n, n + "\0",
                         n + ".b"}
        for kk, other in names.items():
            if kk != k:
                texts[k] |= set(other)
        texts[k] |= {"", ".", " ", "none", "\0", "*"}
        for _ in range(c.pick(150, 3000)):
            texts[k].add("".join(rng.choice("abcdelmnoprstxy.BDW") for _ in range(rng.randrange(1, 5))))
    if c.thorough:       # every string of three letters
        for t in itertools.product("abcdefghijklmnopqrstuvwxyz", repeat=3):
            texts["mnemonic"].add("".join(t))
    # chars above 126 arrive as \u00xx; compare only ASCII texts in the spec
    for k in texts:
        for t in sorted(texts[k]):
            cmds.append(f"parse {k} {hx(t)}")
    ans = drive(c, exe, cmds, "TraceNames")
    c.notes["names_parsed"] = sum(a["op"] == "parse" for a in ans)
    c.notes["accepted"] = sum(a["op"] == "parse" and a["item"] != "none" for a in ans)
    c.sample(ans[5])
    c.sample(next(a for a in ans if a["op"] == "parse" and a["item"] != "none"))
    return c.finish()


NUMCFG = ("CONSTANTS ByteMod = {} WordMod = {} LongMod = {} MaxValue = {} MaxOffset = {}\n")


def c09():
    c = Check("C09")
    c.model("Numbers", NUMCFG.format(4, 8, 32, 40, 9) +
            "SPECIFICATION NSpec\nINVARIANT CastFits CastIdempotent CombineLaws AdvanceInBank "
            "AdvanceAdds DiffUndone\nCHECK_DEADLOCK FALSE\n")
    exe = c.b.driver("numbers_drv", ("error",))
    rng = c.rng
    types = ["unknown", "byte", "word", "long", "signed_byte", "signed_word", "signed_long"]

    def value():
        r = rng.random()
        if r < 0.6:
            return rng.choice([-1, 1]) * (1 << rng.choice([0, 7, 8, 15, 16, 23, 24, 30])) + \
                rng.choice([-2, -1, 0, 1, 2])
        if r < 0.8:
            return rng.randrange(-300, 300)
        return rng.randrange(-2 ** 31 + 1, 2 ** 31)

    def addr():
        return rng.choice([0, 1, 0x3f, 0x7e, 0x7f, 0x80, 0xff, rng.randrange(256)]) << 16 | \
            rng.choice([0, 1, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, rng.randrange(65536)])

    def offset():
        return rng.choice([0, 1, -1, 2, -2, 0x7fff, -0x8000, 0x8000, 0xffff, -0xffff, 0x10000,
                           -0x10000, 0x10001, 0x20000, rng.randrange(-70000, 70000),
                           rng.randrange(-2 ** 24, 2 ** 24)])
    cmds = ["begin", "combine " + " ".join(f"{a} {b}" for a in types for b in types),
            "type " + " ".join(types)]
    for _ in range(c.pick(20, 200)):
        cmds.append("cast " + " ".join(f"{rng.choice(types)} {value()}" for _ in range(200)))
        cmds.append("advance " + " ".join(f"{addr()} {offset()}" for _ in range(200)))
        pairs = []
        for _ in range(200):
            a = addr()
            b = addr() if rng.random() < 0.3 else (a & 0xff0000) | (addr() & 0xffff)
            pairs.append(f"{a} {b}")
        cmds.append("diff " + " ".join(pairs))
        cmds.append("parts " + " ".join(str(addr()) for _ in range(60)))
        near = []
        for _ in range(80):
            a = addr()
            b = a if rng.random() < 0.3 else min(max(a + rng.choice([-1, 1, 0x10000, -0x10000]), 0), 2 ** 24 - 1)
            near.append(f"{a} {b}")
        cmds.append("order " + " ".join(near))
        cmds.append("label " + " ".join(f"{addr()} {rng.choice(types)}" for _ in range(100)))
        pl = []
        for _ in range(60):
            a = addr()
            pl.append(f"{a} {rng.choice([0, 1, -1 if a else 0, rng.randrange(-a, 2 ** 24 + 1 - a)])}")
        cmds.append("plus " + " ".join(pl))
    for base in range(-70000, 70000, 1400) if c.thorough else ():
        for t in types:
            cmds.append("cast " + " ".join(f"{t} {v}" for v in range(base, base + 1400)))
    ans = drive(c, exe, cmds, "TraceNumbers",
                cfg=NUMCFG.format(256, 65536, 16777216, 0, 0) +
                "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n")
    c.notes["calls"] = sum(len(a["q"]) for a in ans)
    for a in ans[1:6]:
        c.sample({"op": a["op"], "call": a["q"][0]})
    return c.finish()


def c10():
    c = Check("C10")
    base = "CONSTANT MaxSteps = {}\nSPECIFICATION MSpec\nINVARIANT LastWins MessageKept\n" \
           "CHECK_DEADLOCK FALSE\n"
    if c.thorough:
        c.model("MCErrors", base.format(3), label="MCErrors-3")
    t = c.model("MCErrors", base.format(2) + "ACTION_CONSTRAINT Emit\n", workers=1)
    exe = c.b.driver("errors_drv", ("error",))
    cmds, plan = [], []

    def loc(l):
        return f"{hx(l['p'])} {l['k']} {l['n']}"
    for h in t.printed("TR"):
        cmds.append("begin " + hx("bad thing"))
        for s in h:
            cmds.append({"attach": f"attach {loc(s['l1'])}",
                         "attach2": f"attach2 {loc(s['l1'])} {loc(s['l2'])}"}.get(s["op"], s["op"]))
        plan.append((h, len(cmds)))
    ans, crash = run_driver(exe, cmds, 120)
    if crash:
        c.violation(f"C10: no answer to '{cmds[len(ans)]}': {crash.why}", crash.stderr)
    for h, end in plan:
        if end > len(ans):
            break
        got = [a.get("text") for a in ans[end - len(h):end]]
        if got != [s["text"] for s in h]:
            c.violation(f"C10: behaviour {json.dumps(h)[:400]} printed {got}",
                        "\n".join(cmds[end - len(h) - 1:end]))
            if len(c.violations) > 2:
                break
    c.traces += len(plan)
    c.sample({"replayed": plan[len(plan) // 2][0]})
    rng, cmds = c.rng, []
    paths = ["", "", "a.asm", "b.asm", "dir/x.sfc", "p q", "x" * 60, "0", "%s", "c:1", "$8000"]
    msgs = ["x", "", "Address in WRAM", "100% %d %s", "a: b", "q" * 300, "\ttab", "line\nline"]

    def rl():
        k = rng.choice(["none", "line", "addr"])
        return f"{hx(rng.choice(paths))} {k} " + str(
            0 if k == "none" else rng.choice([0, 1, 9, 120, 99999, 2 ** 31 - 1, -1])
            if k == "line" else rng.choice([0, 1, 0x8000, 0xffffff, 0x1000000, 0x7e0000, 255]))

    def rl1():     # addresses carry no path of their own, empty paths no kind clash
        while True:
            s = rl()
            p, k, n = s.split()
            if k == "addr" and p != "=":
                continue
            return s
    for _ in range(c.pick(300, 3000)):
        cmds.append("begin " + hx(rng.choice(msgs)))
        for _ in range(rng.randrange(1, 14)):
            op = rng.choice(["attach", "attach", "attach2", "rethrow", "copy", "move", "or", "void",
                             "chain", "value"])
            if op in ("attach", "rethrow"):
                cmds.append(f"{op} {rl1()}")
            elif op == "attach2":
                cmds.append(f"attach2 {rl1()} {rl1()}")
            elif op == "value":
                cmds.append(f"value {rng.choice(['int', 'string', 'unique', 'void', 'chain'])} {rng.randrange(1000)}")
            elif op == "chain":
                cmds.append(f"chain {rng.randrange(6)}")
            else:
                cmds.append(op)
    ans = drive(c, exe, cmds, "TraceErrors", label="C10-random")
    c.sample(next(a for a in ans if a["op"] == "attach2"))
    return c.finish()
