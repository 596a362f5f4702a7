"""C15 to C19 (Asm.tla): assembling sets of source files."""
import itertools
import re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from asm import CORE

# judging is an invariant, see TraceAsm.tla
TRACE = ("SPECIFICATION TraceSpec\nINVARIANT Judged\nPOSTCONDITION TraceAccepted\n"
         "CHECK_DEADLOCK FALSE\n")

PARTS = CORE + ("module", "assembler", "file", "ranges", "identifiers")
NAMES = ["aa", "bb", "cc", "dd"]
MODES = ["m8x8", "m16x16", "m8", "x8", "m16", "x16", "m8x16", "m16x8", "native", "emu", "unk"]
MIMM = "lda adc and cmp eor ora sbc bit add sub".split()
XIMM = "ldx ldy cpx cpy".split()
COND = "bcc bcs beq bmi bne bpl bvc bvs".split()


def job(files, query=(), deny=(), orders=None):
    """One assembly of files (texts) in each of the orders."""
    n = len(files)
    if orders is None:
        orders = ["".join(p) for p in itertools.permutations("0123456789"[:n])]
    return (f"asm {n} " + " ".join(f"f{i} ={f.encode('latin-1').hex()}" for i, f in enumerate(files)) +
            f" {len(query)} " + " ".join(map(str, query)) + f" {len(deny)} " + " ".join(map(str, deny)) +
            f" {len(orders)} " + " ".join(orders))


def spread(c, exe, cmds, module, shards=8, head="begin", cfg=TRACE, timeout=300, extra=None):
    """Drives the code once per shard and validates the shards side by side.
    extra: what to add to the answers before they are judged."""
    shards = max(1, min(shards, len(cmds) // 20))
    parts = [[head] + cmds[i::shards] for i in range(shards)]
    runs = []
    with ThreadPoolExecutor(shards) as ex:
        runs = list(ex.map(lambda p: run_driver(exe, p, timeout), parts))
    if extra:
        for i, (ans, _) in enumerate(runs):
            for a, x in zip(ans[1:], extra[i::shards]):
                a.update(x)
    answers, verdicts, bads = [], [], []
    for part, (ans, crash) in zip(parts, runs):
        if crash:
            k = min(len(ans), len(part) - 1)
            c.violation(f"{c.id}: no answer to {readable(part[k])[:400]!r}: {crash.why}",
                        readable(part[k]) + "\n" + crash.stderr)
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda i: c.judge(module, runs[i][0], cfg, f"{module}{i}", heap="2500m"), range(shards)))
    for (ans, _), t in zip(runs, res):
        vs = t.printed("VERDICT")
        asked = [a for a in ans if a["op"] != head]
        if len(vs) != len(asked):
            raise CheckError("a verdict is missing")
        answers += asked
        c.traces += len(asked) - 1
        verdicts += vs
        bads += [(ans[m["l"] - 1], m["want"]) for m in t.printed("MISMATCH")]
    return answers, verdicts, bads


def readable(cmd):
    return re.sub(r"=([0-9a-f]+)", lambda m: "\n" + bytes.fromhex(m[1]).decode("latin-1") + "\n", cmd)


def source(a):
    return "\n---\n".join("\n".join(f) for f in a["files"])


def report(c, bads):
    for a, want in sorted(bads, key=lambda b: sum(map(len, sum(b[0]["files"], []))))[:4]:
        runs = [{k: r[k] for k in ("order", "ok", "error")} for r in a["runs"]]
        c.violation(f"{c.id}: {'/'.join(want['problems'])} for {source(a)[:300]!r}: "
                    f"{json.dumps(runs)[:250]} -- specification: must fail {want['must']}, may fail "
                    f"{want['may']}",
                    source(a) + "\n\n" + json.dumps(a["runs"], indent=1)[:6000] +
                    "\n\nspecification: " + json.dumps(want)[:4000])


class Programs:
    def __init__(self, rng):
        self.r = rng

    # ------------------------------------------------------------- pieces --
    def imm(self):
        r = self.r
        mn = r.choice(MIMM if r.random() < .65 else XIMM)
        suf = r.choice(["", "", "", "", ".b", ".w"])
        v = r.choice(["1", "$12", "$7f", "$80", "200"])
        return f"{mn}{suf} #{v}"

    def width(self):
        r = self.r
        return r.choice(["rep", "sep"]) + " #$" + r.choice(["10", "20", "30", "31", "20", "10", "01", "cf"])

    def stack(self):
        return self.r.choice("php plp pha pla phx plx phy ply phb plb phd pld pea".split()).replace("pea", "pea #$1234")

    def plain(self):
        r = self.r
        if r.random() < .25:        # sizes are also said where the operand has none
            mn = r.choice(MIMM + XIMM + "sta stx sty stz inc dec asl lsr rol ror trb tsb".split())
            return mn + r.choice([".b", ".w"]) + " " + r.choice(["$12", "$1234", "$12", "$12,X" if mn not in XIMM + ["stx", "sty", "trb", "tsb"] else "$1234"])
        return r.choice(["nop", "sta $12", "inc A", "tax", "clc", "sec", "xce", "adc $10", "lda.b $1234",
                         "lda $12,X", "asl A", "cmp $20", "inx", "sta.w $7e0000", "ldx $10", "mvn #$01,#$02",
                         "tcs", "txs", "cop #$01", "brk #$00"])

    def call(self):
        r = self.r
        t = r.choice(["jsr $9000", "jsl $129000", "jsr $9003", "jsl $7fff00"])
        k = r.random()
        if k < .35:
            t += " yields " + r.choice(MODES)
        elif k < .42:
            t += " noreturn"
        return t

    def flow_stmt(self, labels):
        r = self.r
        k = r.random()
        if k < .25:
            return self.imm()
        if k < .42:
            return self.width()
        if k < .50:
            return self.stack()
        if k < .60:
            return self.plain()
        if k < .67:
            return self.call()
        if k < .71:
            return ".mode " + r.choice(MODES)
        if k < .74:
            return r.choice(["rts", "rtl", "rti", "jmp $8000", "jmp ($1234)", ".halt", "stp", "jmp $128000"])
        if k < .77:
            return r.choice(["bra ", "brl "]) + r.choice(labels)
        if k < .772:
            return r.choice([".db 7", ".dw $1234", ".org $8200"])
        if k < .775:
            return "per " + r.choice(labels)
        if k < .78:
            return ".entry " + r.choice(MODES)
        return r.choice(COND) + " " + r.choice(labels)

    def idiom(self):
        """Short sequences whose effect on the widths is known."""
        r = self.r
        a, b = r.choice(MIMM), r.choice(XIMM)
        return r.choice([
            ["rep #$20", f"{a} #1"], ["sep #$20", f"{a} #1"], ["rep #$10", f"{b} #1"], ["sep #$30", f"{a} #1", f"{b} #2"],
            ["php", "rep #$30", f"{a} #1", "plp", f"{a} #1"], ["php", "sep #$30", f"{b} #1", "plp"],
            ["clc", "xce", "rep #$30", f"{a} #2"], ["sec", "xce", f"{a} #2", f"{b} #1"],
            [".mode " + r.choice(MODES[:8]), f"{a} #3"], ["jsr $9000 yields m8x16", f"{b} #1"],
            ["jsl $129000 yields m16", f"{a} #1"], ["pha", "rep #$20", "pla"], ["php", "pla", "plp", f"{a} #1"],
            ["phb", "plb", f"{a} #1"], ["php", "phk", "plb", "plp", f"{b} #1"], ["php", "tcs", "plp", f"{a} #1"],
            ["php", "pha", "pla", "plp", f"{a} #1"], ["php", "sep #$20", "pha", "pla", "plp", f"{b} #1"]])

    def flow(self, steps=None):
        """A module of one or more routines with labels and branches."""
        r = self.r
        out = [f".org ${r.choice([0x8000, 0xc08000, 0x12fff0]):06x}"]
        for k in range(r.choice([1, 1, 1, 2])):
            n = steps or r.randrange(2, 12)
            labels = [f"{'ab'[k]}{i}" for i in range(r.randrange(1, 4))]
            out.append(".entry " + r.choice(MODES[:8] if r.random() < .7 else MODES))
            body = []
            while len(body) < n:
                body += self.idiom() if r.random() < .3 else [self.flow_stmt(labels)]
            body.append(r.choice(["rts", "rts", "rtl", "rti", "bra " + r.choice(labels), "jmp $8000", ".halt", "stp"]))
            # a stop inside is followed by a label something branches to
            spots = {}
            for i, s in enumerate(body[:-1]):
                if re.match(r"(bra|brl|rts|rtl|rti|stp|jmp|\.halt)\b|.*noreturn", s) and r.random() < .9:
                    spots.setdefault(i + 1, r.choice(labels))
            for lab in labels:
                if lab not in spots.values():
                    spots.setdefault(r.randrange(len(body)), lab)
            seen = set()
            for i, s in enumerate(body):
                if i in spots and spots[i] not in seen:
                    seen.add(spots[i])
                    s = spots[i] + ": " + s
                out.append(s)
            if r.random() < .15:
                out.append(r.choice([".db 1,2", ".org $8100", ".dw 7"]))
        return "\n".join(out)

    # ------------------------------------------------------------- layout --
    def operand_ins(self, labels):
        r = self.r
        lab = r.choice(labels)
        return r.choice([f"lda {lab}", f"sta @{lab}", f"lda @{lab},X", f"ldx <{lab}", f"lda #<{lab}", f"pea #{lab}",
                         f"jsr {lab}", f"jsl @{lab}", f"lda ({lab},X)" if False else f"jmp ({lab})", f"lda {lab},Y",
                         f"lda [$12],Y", f"per {lab}", f"lda {lab}+1", f"bne {lab}", f"adc.b #{r.randrange(256)}",
                         f"cop #{r.randrange(256)}", "nop", "mvp #$01,#$02", f"add {lab}", f"sub #<{lab}", "inc A",
                         f"lda ($12,S),Y", f"ldy #>{lab}", f"rep #$30", f"sep #$20", f"pei ($34)", f"jmp [{lab}]"])

    def place(self):
        r = self.r
        bank = r.choice([0, 0, 0x12, 0x80, 0xff])
        off = r.choice([0x8000, 0x8000, 0xfff8, 0xfffe, 0xffff, 0, 2, 0x8004, 0x8008, 0x8010])
        return bank * 65536 + off

    def layout(self):
        r = self.r
        labels = NAMES[:r.randrange(1, 4)]
        out = []
        if r.random() < .95:
            out.append(f".org ${self.place():06x}")
        code = r.random() < .6
        if code:
            out.append(f".entry {r.choice(MODES[:2] + ['m8x16', 'm16x8'])}")
        n = r.randrange(1, 9)
        marks = dict(zip(r.sample(range(n), min(n, len(labels))), labels))
        stopped = not code
        for i in range(n):
            s = ""
            if i in marks:
                s = marks[i] + ": "
            k = r.random()
            if code and not stopped and k < .8:
                s += self.operand_ins(labels)
                out.append(s)
                if r.random() < .2:
                    out.append("rts")
                    stopped = True
                continue
            if code and not stopped:
                out.append("rts")
                stopped = True
            if k < .25:
                s += f".org ${self.place():06x}"
            elif k < .35:
                s += f".equ {r.choice(labels)}+{r.randrange(9)}" if i in marks else ".begin\n.end"
            else:
                args = [r.choice(labels + [str(r.randrange(256)), f"${r.randrange(65536):04x}", f"@{r.choice(labels)}",
                                           f"<{r.choice(labels)}", f"^{r.choice(labels)}", "70000", "-1"])
                        for _ in range(r.randrange(1, 5))]
                s += r.choice([".db ", ".dw ", ".dl "]) + ",".join(args)
            out.append(s)
        if not stopped:
            out.append("rts")
        if r.random() < .5:
            out.append(".dl " + ",".join(labels))
        for lab in labels:
            if lab not in marks.values() and r.random() < .9:
                out.append(f"{lab}: .db {r.randrange(256)}")
        if r.random() < .06:
            # what has no place, or no place among the addresses
            k = r.randrange(5)
            if k == 0:
                out[:0] = r.choice([["zz: .begin", ".end"], [".begin", "zz: .end"], [".entry m8x8"], ["zz: .equ 7"]])
            elif k == 1:
                out.append(f".org {r.choice(['$ffffff+1', '-1', '$ffffff*2', '$ffffff', '2-2'])}\n.db 1")
            elif k == 2:
                out += [".org $123456", ".entry m8x8", r.choice(["bne zz", "per zz", "bra zz", "brl zz"]), "rts",
                        "zz: .equ " + r.choice(["$ffffff+1", "-1", "$123456", "$7fffff*256", "$1234d8", "$1234d7", "$1234d4"])]
            elif k == 3:
                out += [".org $123456", "zz: .equ " + r.choice(["$ffffff+1", "-2"]), ".dl zz,zz+1", ".dw zz"]
            else:
                out.insert(r.randrange(len(out) + 1), ".module " + r.choice(["mm", "aa"]))
                if r.random() < .5:
                    out.insert(r.randrange(len(out) + 1), ".module " + r.choice(["mm", "nn"]))
        return "\n".join(out)

    # -------------------------------------------------------------- names --
    def skeleton(self, mod, faults):
        """Statements of a module with nested scopes: [label, exported, kind, path]
        where path lists the scopes open before the statement."""
        r = self.r
        items, path, count = [], (0,), 1
        used = {0: set()}

        def label(p):
            n = r.choice(NAMES)
            exported = r.random() < .2
            scope = 0 if exported else path[-1]
            if r.random() > p or n in used[scope] and not (faults and r.random() < .15):
                return ["", False]
            used[scope].add(n)
            return [n, exported]

        for _ in range(r.randrange(3, 12)):
            k = r.random()
            if k < .2 and len(path) < 4:
                items.append(label(.3) + ["open", path])
                path += (count,)
                used[count] = set()
                count += 1
            elif k < .35 and len(path) > 1:
                items.append(label(.2) + ["close", path])
                path = path[:-1]
            elif k < .5:
                lab = label(1)
                items.append(lab + ["equ" if lab[0] else "data", path])
            else:
                items.append(label(.6) + ["data", path])
        while len(path) > 1 and not (faults and r.random() < .1):
            items.append(["", False, "close", path])
            path = path[:-1]
        if r.random() < .5:
            items.append(label(1) + ["data", path])
        return {"mod": mod, "items": items, "used": used}

    def fill(self, sk, k, origin, faults):
        """The text of skeleton sk[k]: names mentioned are defined unless faulty."""
        r = self.r
        me = sk[k]
        # addresses of statements are known early, constants only in order
        far = [(s["mod"], n) for s in sk for n in s["used"][0] if s["mod"]]
        free = {n for s in sk if not s["mod"] for n in s["used"][0]}
        done = [(s["mod"], n) for s in sk[:k] for n in s["used"][0] if s["mod"]]
        fixed = {(it[3][-1] if not it[1] else 0, it[0]) for it in me["items"] if it[2] not in ("equ",)}
        before = set(fixed)

        def mention(path, const):
            if faults and r.random() < .12:
                return r.choice(NAMES + ["zz::aa", "::bb", "mm::cc"])
            # the innermost scope that has the name decides
            near = []
            for n in NAMES:
                sc = next((x for x in reversed(path) if n in me["used"][x]), None)
                if sc is None:
                    if n in free and not const:
                        near.append(n)
                elif not const or (sc, n) in before:
                    near.append(n)
            own = [n for n in me["used"][0] if not const or (0, n) in before]
            k2 = r.random()
            if k2 < .25 and (done if const else far):
                return "::".join(r.choice(done if const else far))
            if k2 < .35 and own:
                return (me["mod"] or "") + "::" + r.choice(own) if me["mod"] else r.choice(near or ["5"])
            return r.choice(near) if near else str(r.randrange(300))

        out = [f".module {me['mod']}"] if me["mod"] else []
        out.append(f".org ${origin:06x}")
        for n, exported, kind, path in me["items"]:
            s = ("export " if exported else "") + n + ": " if n else ""
            if kind == "open":
                s += r.choice(["{", ".begin"])
            elif kind == "close":
                s += r.choice(["}", ".end"])
            elif kind == "equ":
                s += ".equ " + r.choice([str(r.randrange(300)), mention(path, True), mention(path, True) + "+1"])
                before.add((0 if exported else path[-1], n))
            else:
                s += r.choice([".dl ", ".dw "]) + ",".join(mention(path, False) for _ in range(r.randrange(1, 4)))
            out.append(s)
        return "\n".join(out)

    def label(self, used, out, p, p_dup):
        r = self.r
        if r.random() > p:
            return ""
        n = r.choice(NAMES)
        exported = r.random() < .2
        scope = used[0] if exported else used[-1]
        if n in scope and r.random() > p_dup:
            return ""
        scope.add(n)
        return ("export " if exported else "") + n + ": "

    def branchy(self):
        """Scopes around code: branch targets are looked up in scopes too."""
        r = self.r
        out = [".org $8000", ".entry m8x8"]
        depth = 0
        used = [set()]
        for _ in range(r.randrange(4, 14)):
            k = r.random()
            lab = self.label(used, out, .45, .03)
            if k < .2 and depth < 3:
                out.append(lab + "{")
                used.append(set())
                depth += 1
            elif k < .35 and depth:
                out.append(lab + "}")
                used.pop()
                depth -= 1
            elif k < .75:
                out.append(lab + r.choice(COND) + " " + r.choice(NAMES))
            else:
                out.append(lab + r.choice(["nop", "inx", "lda #<" + r.choice(NAMES), "per " + r.choice(NAMES),
                                           "jsr " + r.choice(NAMES), "jsr ::" + r.choice(NAMES)]))
        out += ["}"] * depth
        out.append(r.choice(["", "aa: "]) + "rts")
        if r.random() < .7:
            for n in NAMES:
                if n not in used[0]:
                    out.append(n + ": nop" if r.random() < .3 else "")
            out.append("rts")
        return "\n".join(x for x in out if x)

    def files(self, n=None):
        r = self.r
        n = n or r.choice([1, 2, 2, 3])
        faults = r.random() < .25
        mods = r.sample(["mm", "nn", "pp"], n)
        if r.random() < .4:
            mods[r.randrange(n)] = ""
        if faults and r.random() < .2:
            mods = [mods[0]] * n
        sk = [self.skeleton(m, faults) for m in mods]
        out = [self.fill(sk, i, 0x8000 + 0x100 * i, faults) for i in range(n)]
        r.shuffle(out)
        return out

    def linked(self, n=None):
        """Modules that depend on each other's constants, mostly without cycles."""
        r = self.r
        n = n or r.choice([2, 3, 3, 4])
        faults = r.random() < .3
        bad = lambda p: faults and r.random() < p
        names = ["mm", "nn", "pp", "qq"][:n]
        if r.random() < .25:
            names[r.randrange(n)] = ""
        plan = [[(lab, r.random() < .6) for lab in NAMES[:r.randrange(1, 4)]] for _ in names]
        if "" in names:
            # one without a name keeps its names to itself, or else they are everybody's
            k = names.index("")
            plan[k] = [("u" + lab, c) for lab, c in plan[k]]
        if n > 1 and r.random() < .3:
            # two files of one module, seldom with a name of the module in both
            j = r.randrange(1, n)
            names[j] = names[r.randrange(j)]
            if not bad(.2):
                plan[j] = [("v" + lab, c) for lab, c in plan[j]]
        ref = lambda k, lab: f"{names[k]}::{lab}" if names[k] else lab
        out = []
        for i, m in enumerate(names):
            lines = [f".module {m}"] if m and not bad(.1) else []
            lines.append(f".org ${0x8000 + 0x40 * (0 if bad(.15) else i):06x}")

            def any_of(ks, const):
                ts = [ref(k, lab) for k in ks for lab, c in plan[k] if c or not const or r.random() < .5]
                if bad(.06):
                    ts.append("mm::dd")
                return r.choice(ts) if ts else "7"
            for j, (lab, const) in enumerate(plan[i]):
                # constants mention names of earlier modules, rarely others'
                pool = range(n) if bad(.25) else range(i)
                if const:
                    e = str(r.randrange(1000))
                    if pool and r.random() < .75:
                        t = any_of(pool, True)
                        e = r.choice([t, t + "+1", f"{t}+{any_of(pool, True)}", f"<{t}", f"{t}*2"])
                    lines.append(f"{lab}: .equ {e}")
                else:
                    lines.append(f"{lab}: .dl {any_of(range(n), False)},{lab}")
            if r.random() < .5:
                lines.append(".dl " + ",".join(any_of(range(n), False) for _ in range(2)))
            if r.random() < .3:
                # names of a scope shadow, but not qualified ones
                k = r.randrange(i + 1)
                lab = r.choice([lab for lab, c in plan[k] if c or k < i] or ["zz"])
                inner = ["{", f"{lab}: " + r.choice([f".equ {r.randrange(1000)}", ".db 1"]),
                         f"in: .equ {r.choice([ref(k, lab), ref(k, lab) + '+1', '7'])}", f".dl in,{ref(k, lab)},{lab}", "}"]
                if r.random() < .3:
                    inner[1], inner[2] = inner[2], inner[1]
                at = r.randrange(1, len(lines) + 1)
                lines[at:at] = inner
            if bad(.3):
                lines.append(f".org ${0x8000 + 0x40 * r.randrange(n) + r.choice([0, 1, 0x30]):06x}\n.db 1,2,3")
            out.append("\n".join(lines))
        perm = list(range(n))
        r.shuffle(perm)
        return [out[i] for i in perm]

    # ------------------------------------------------------------ targets --
    def target(self, far):
        r = self.r
        v = r.choice([0x8000, 0x8003, 0x8010, 0x9000, 0x9100, 0xffff, 0x0000])
        b = r.choice([0, 0, 0x12, 0x7f, 0xff])
        k = r.random()
        if not far:
            return r.choice([f"${v:04x}", f"${v:04x}", f"$80{v % 256:02x}", f"${(v + 65535) % 65536:04x}+1"])
        if k < .8:
            return f"${b:02x}{v:04x}"
        return r.choice([f"${b:02x}{v:04x}+{r.randrange(4)}", f"${b:02x}{v:04x}+$ff00", "$ffffff+$ffffff", "-$000100"])

    def jumping(self, i=0):
        r = self.r
        out = []
        if r.random() < .6:
            out.append(f".module {'mnpq'[i]}m")
        for k in range(r.randrange(1, 4)):
            org = r.choice([0x8000, 0x8010, 0x9000, 0x128000, 0x129000, 0x12fffc]) + i * 0x1000 + 0x20 * k
            out.append(f".org ${org:06x}")
            conv = r.choice(["", "", "", " noreturn", " yields m8x16", " yields emu"])
            lab = r.choice(["", f"l{k}: "])
            out.append(f"{lab}.entry {r.choice(MODES)}{conv}")
            for _ in range(r.randrange(0, 5)):
                out.append(r.choice([
                    lambda: "jsr " + self.target(False), lambda: "jsl " + self.target(True),
                    lambda: self.width(), lambda: "nop", lambda: "xce", lambda: "bcc ff" if False else "clc",
                    lambda: "jsl " + self.target(True) + " yields " + r.choice(MODES),
                    lambda: "jsr " + self.target(False) + " yields " + r.choice(MODES),
                    lambda: "jsr kk", lambda: "lda " + self.target(False), lambda: "pea #" + self.target(False),
                    lambda: "php", lambda: "plp"])())
            out.append(r.choice(["rts", "jmp " + self.target(False), "jmp " + self.target(True), "jmp kk", "jmp ($9000)",
                                 "jmp [$9000]"]))
        for _ in range(r.randrange(0, 3)):
            conv = r.choice(["", "", " noreturn", " yields m8", " yields m16x16"])
            out.append(f".remote {r.choice([self.target(True), self.target(False), 'kk', '@kk+1'])} {r.choice(MODES)}{conv}")
        out.append(r.choice(["kk .equ $9000", "kk .equ $8000", "kk: .db 1,2,3"]))
        return "\n".join(out)


def prepare(pid):
    c = Check(pid)
    exe = c.b.driver("asm_drv", PARTS)
    return c, exe, Programs(c.rng)


def conclude(c, exe, jobs, kinds):
    """Drives and judges the jobs; kinds: verdicts the run must have met."""
    answers, verdicts, bads = spread(c, exe, jobs, "TraceAsm")
    report(c, bads)
    c.notes["programs"] = len(answers)
    c.notes["assembled"] = sum(a["runs"][0]["ok"] for a in answers)
    c.notes["determined"] = sum(v["exact"] for v in verdicts)
    count = {}
    for v in verdicts:
        for k in ["must fail: " + m for m in v["must"]] + (["may fail: " + m for m in v["may"]] if not v["must"] else []):
            count[k] = count.get(k, 0) + 1
    c.notes["reasons"] = count
    for a, v in zip(answers, verdicts):
        if a["runs"][0]["ok"] and v["exact"] and len(a["files"][0]) > 4:
            c.sample({"files": a["files"], "writes": len(a["runs"][0]["writes"])})
    if not c.violations:
        missing = [k for k in kinds if not any(k in v["must"] for v in verdicts)]
        if missing or not c.notes["assembled"]:
            raise CheckError(f"the generated programs never met {missing}")
    return c.finish()


def small_programs(c):
    """The programs of MCFlow, whose analysis is explored in every order."""
    cfg = ("SPECIFICATION Spec\nCONSTANT Length0 = %d\nCONSTANT Rich = %s\nINVARIANT Confluent Describing%s\n"
           "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    c.model("MCFlow", "SPECIFICATION Spec\nCONSTANT Length0 = 1\nCONSTANT Rich = TRUE\nPROPERTY Ends\n"
                      "CHECK_DEADLOCK FALSE\n", label="MCFlow ends")
    out = c.model("MCFlow", cfg % (2, "TRUE", " Below")).printed("LINE")
    if c.thorough:
        out += c.model("MCFlow", cfg % (3, "FALSE", ""), label="MCFlow longer").printed("LINE")
    return ["\n".join(x["text"]) for x in out]


def sized():
    """Every instruction with every size in every state: sizes are said of
    operands that have none as well."""
    for mn in MIMM + XIMM + "sta stx sty stz inc dec asl lsr rol ror trb tsb pha phx php jmp".split():
        for suf in (".b", ".w"):
            for operand in ("", " A", " #1", " $12", " $1234", " $12,X", " ($12),Y"):
                for mode in ("m8x8", "m16x16", "m8x16", "m16x8", "m8", "x16", "emu"):
                    yield f".org $8000\n.entry {mode}\n{mn}{suf}{operand}\nrts"


def c15():
    c, exe, g = prepare("C15")
    jobs = [job([t]) for t in small_programs(c)]
    c.notes["small_programs"] = len(jobs)
    jobs += [job([t]) for t in sized()]
    jobs += [job([g.flow()]) for _ in range(c.pick(6000, 50000))]
    return conclude(c, exe, jobs, ["width", "unreached", "runs into data", "suffix"])


def small_layouts(c):
    """The files of MCLayout, whose bytes are written one by one in every interleaving."""
    out = []
    for files, length, rich in [(1, 2, "TRUE"), (2, 1, "TRUE"), (2, 2, "FALSE")] + ([(1, 3, "TRUE")] if c.thorough else []):
        out += c.model("MCLayout", f"SPECIFICATION Spec\nCONSTANT Files0 = {files}\nCONSTANT Length0 = {length}\n"
                       f"CONSTANT Rich = {rich}\nINVARIANT TwiceNoted SameCells SameBytes SameLabels\n"
                       "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", label=f"MCLayout {files}x{length}").printed("LINE")
    return [["\n".join(f) for f in x["files"]] for x in out]


def c16():
    c, exe, g = prepare("C16")
    near = [a % (1 << 24) for a in [*range(0xfff9, 0x10000), *range(8), 0x10000, 0x10001, -1, 0xff0000, 0xff0001]]
    jobs = [job(fs, near) for fs in small_layouts(c)]
    c.notes["small_layouts"] = len(jobs)
    for _ in range(c.pick(5000, 50000)):
        q = [g.place() + g.r.randrange(12) for _ in range(12)]
        jobs.append(job([g.layout()], [x % (1 << 24) for x in q], [g.place() + 1] if g.r.random() < .2 else []))
    return conclude(c, exe, jobs, ["written twice", "no address"])


def small_scopes(c):
    """The modules of MCScope, whose names are looked up with a stack of open scopes."""
    out = []
    for length, kinds in [(2, 3), (3, 3), (5, 1)] + ([(4, 2)] if c.thorough else []):
        x = c.model("MCScope", f"SPECIFICATION Spec\nCONSTANT Length0 = {length}\nCONSTANT Kinds0 = {kinds}\n"
                    "INVARIANT ScopesMatch Duplicates SameMeaning Innermost\nACTION_CONSTRAINT Emit\n"
                    "CHECK_DEADLOCK FALSE\n", label=f"MCScope {length} of {kinds}").printed("LINE")
        x.sort(key=str)
        out += x if c.thorough or length < 5 else c.rng.sample(x, min(900, len(x)))
    return [["\n".join(f) for f in x["files"]] for x in out]


def c17():
    c, exe, g = prepare("C17")
    jobs = [job(fs, range(0x8000, 0x8009)) for fs in small_scopes(c)]
    c.notes["small_scopes"] = len(jobs)
    jobs += [job(g.files(), [0x8000 + 0x100 * i + j for i in range(3) for j in range(8)], (), None)
            for _ in range(c.pick(3000, 30000))]
    jobs += [job([g.branchy()]) for _ in range(c.pick(1500, 12000))]
    return conclude(c, exe, jobs, ["duplicate", "undefined", "scope"])


def small_links(c):
    """The sets of files of MCLink, whose modules are taken up in every order."""
    cfg = ("SPECIFICATION Spec\nCONSTANT Files0 = %d\nCONSTANT Rich = %s\nINVARIANT SameModules SameValues\n"
           "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    two = c.model("MCLink", cfg % (2, "TRUE")).printed("LINE")
    three = c.model("MCLink", cfg % (3, "FALSE"), label="MCLink three").printed("LINE")
    three.sort(key=str)
    return [["\n".join(f) for f in x["files"]] for x in two + c.rng.sample(three, min(c.pick(1200, 9999), len(three)))]


def c18():
    c, exe, g = prepare("C18")
    jobs = [job(fs) for fs in small_links(c)]
    c.notes["small_sets"] = len(jobs)
    jobs += [job(g.linked(), [0x8000 + 0x40 * i + j for i in range(4) for j in range(6)])
            for _ in range(c.pick(2500, 22000))]
    return conclude(c, exe, jobs, ["cyclic", "duplicate export", "written twice", "undefined"])


def small_targets(c):
    """The pairs of files of MCTargets, through which processors run from every entry."""
    out = []
    for length, rich in [(1, "TRUE"), (2, "FALSE")] + ([(2, "TRUE")] if c.thorough else []):
        out += c.model("MCTargets", f"SPECIFICATION Spec\nCONSTANT Length0 = {length}\nCONSTANT Rich = {rich}\n"
                       "INVARIANT Reported\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n",
                       label=f"MCTargets {length} {rich}").printed("LINE")
    return [["\n".join(f) for f in x["files"]] for x in out]


def c19():
    c, exe, g = prepare("C19")
    jobs = [job(fs, [0x8000, 0x9000, 0xa000]) for fs in small_targets(c)]
    c.notes["small_pairs"] = len(jobs)
    jobs += [job([g.jumping(i) for i in range(c.rng.choice([1, 1, 2]))], [0x8000, 0x9000, 0x129000])
            for _ in range(c.pick(4000, 40000))]
    return conclude(c, exe, jobs, [])
