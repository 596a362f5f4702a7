"""C21, C22, C26 (Disasm.tla, Listing.tla): disassembling memory images, and what listings say."""
import itertools
import re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from asm import CORE
from rom import mapaddr
from assemble import spread, job, source, MODES, TRACE, PARTS as ASM_PARTS

PARTS = CORE + ("disassemble", "rom", "file", "ranges")
ONE = [0xea, 0xe8, 0xc8, 0xca, 0x88, 0xaa, 0xa8, 0x8a, 0x98, 0x0a, 0x4a, 0x2a, 0x1a, 0x3a, 0xeb, 0x5b, 0x7b,
       0x9b, 0xbb, 0xcb, 0x58, 0x78, 0xd8, 0xf8, 0xb8, 0xba, 0x3b]
STACK = [0x08, 0x28, 0x48, 0x68, 0xda, 0xfa, 0x5a, 0x7a, 0x8b, 0xab, 0x0b, 0x2b, 0x4b]
TWO = [0x85, 0xb2, 0xa6, 0xa3, 0xb3, 0x02, 0x42, 0x65, 0xc5, 0xe5, 0x06, 0x94, 0xb7, 0xa7, 0x72, 0x61, 0x71, 0x96,
       0x24, 0x64, 0xe6]
THREE = [0x8d, 0xad, 0xbd, 0xb9, 0x6d, 0xed, 0x9c, 0x54, 0x44, 0x0e, 0x2c, 0x7d]
FOUR = [0x8f, 0xaf, 0x6f, 0xbf, 0x9f, 0xef]
IMM_M = [0x69, 0x29, 0xc9, 0x49, 0xa9, 0x09, 0xe9, 0x89]
IMM_X = [0xc0, 0xe0, 0xa0, 0xa2]
COND = [0x10, 0x30, 0x50, 0x70, 0x90, 0xb0, 0xd0, 0xf0]
EXITS = [0x60, 0x6b, 0x40, 0xdb]
WIDTHS = {"m8x8": (1, 1), "m16x16": (0, 0), "m8": (1, None), "x8": (None, 1), "m16": (0, None), "x16": (None, 0),
          "m8x16": (1, 0), "m16x8": (0, 1), "native": (None, None), "emu": (1, 1), "unk": (None, None)}


def wrap(a, n):
    return (a & 0xff0000) | ((a + n) & 0xffff)


class Code:
    """Routines of bytes whose instructions mostly agree with the widths."""
    modes = MODES
    extra = []      # further places that are called
    banks = [0, 0, 0x12, 0x80]
    seams, seamy = [0, 0x12, 0x80], .02
    offsets = [0x8000, 0x9000, 0xa000, 0xb000, 0xfff0, 0xfff8, 0xffe0, 0xffff, 0x8010, 0x8020, 0x0000]

    def __init__(self, rng):
        self.r = rng

    def rnd(self, n):
        return [self.r.choice([0, 1, 0x12, 0x34, 0x60, 0x80, 0xea, 0xff, self.r.randrange(256)]) for _ in range(n)]

    def ins(self, w, faults):
        """(bytes, widths after); w = [m, x], None when not known."""
        r = self.r
        k = r.random()
        w = list(w)
        if k < .12:
            return [r.choice(ONE)], w
        if k < .24:
            op = r.choice(STACK)
            if op == 0x28 and r.random() < .9:
                op = 0x08
            if op == 0x28:
                w = [None, None]
            return [op], w
        if k < .30:
            return r.choice([[0xf4] + self.rnd(2), [0xd4] + self.rnd(1), self.per(), [0x9a], [0x1b]]), w
        if k < .38:
            return [r.choice([0x18, 0x38, 0x18, 0x38, 0xea])], w
        if k < .40:
            return [0xfb], ([None, None] if r.random() < .8 else w)
        if k < .50:
            return [r.choice(TWO)] + self.rnd(1), w
        if k < .58:
            return [r.choice(THREE)] + self.rnd(2), w
        if k < .62:
            return [r.choice(FOUR)] + self.rnd(3), w
        if k < .78:
            i = r.random() < .35
            wd = w[1 if i else 0]
            if wd is None and r.random() > faults:
                return [0xea], w
            return [r.choice(IMM_X if i else IMM_M)] + self.rnd(1 if wd == 1 else 2), w
        op = r.choice([0xc2, 0xe2])
        n = r.choice([0x30, 0x20, 0x10, 0x31, 0x01, 0xff, 0x0f, 0x30])
        b = 1 if op == 0xe2 else 0
        return [op, n], [b if n & 0x20 else w[0], b if n & 0x10 else w[1]]

    def per(self):
        return [0x62] + self.rnd(2)

    def widths(self, w):
        out = []
        for i, bit in ((0, 0x20), (1, 0x10)):
            if w[i] is not None:
                out += [0xe2 if w[i] else 0xc2, bit]
        return out

    def routine(self, a, mode, others, faults):
        """Blocks with assumed widths; branches go to block starts."""
        r = self.r
        nb = r.randrange(1, 6)
        w0 = WIDTHS[mode]
        # the widths at the start of a block: everywhere the same, or set again
        assume = [list(w0)] + [[None, None] if r.random() < .5 else list(w0) for _ in range(nb)]
        items = []      # (bytes or branch tuple)
        starts = []
        for b in range(nb):
            # a block may start between two instructions that are listed as one
            pair = r.choice([[0x18, 0x65], [0x38, 0xe5], [0x18, 0x6d], [0x38, 0xed]]) if b and r.random() < .2 else None
            if pair:
                items.append(pair[:1])
            starts.append(len(items))
            if pair:
                items.append(pair[1:] + self.rnd(1 if pair[1] & 15 == 5 else 2))
            w = assume[b]
            if b and r.random() < .5:
                w = [r.choice([0, 1]), r.choice([0, 1])]
                n = (0x20 if w[0] else 0) | (0x10 if w[1] else 0)
                items += [[0xc2, 0x30]] + ([[0xe2, n]] if n else [])
            for _ in range(r.randrange(0, 5)):
                k = r.random()
                if k < .16:
                    t = r.choice(others)
                    q = r.random()
                    if q < .45 and t >> 16 == a >> 16:
                        items.append([0x20, t & 255, t >> 8 & 255])
                    elif q < .9:
                        items.append([0x22, t & 255, t >> 8 & 255, t >> 16])
                    else:
                        items.append([0xfc] + self.rnd(2))
                    if r.random() > faults:     # whatever the callee's convention
                        w = [r.choice([0, 1]), r.choice([0, 1])]
                        n = (0x20 if w[0] else 0) | (0x10 if w[1] else 0)
                        items += [[0xc2, 0x30]] + ([[0xe2, n]] if n else [])
                elif k < .22:
                    items += r.choice([[[0x18], [0x69, 0x65][1:] + self.rnd(1)], [[0x38], [0xe5] + self.rnd(1)],
                                       [[0x18], [0x6d] + self.rnd(2)]])
                elif k < .27:
                    inner = self.ins([None, None], 0)[0]
                    items += [[0x08], [0xc2, r.choice([0x30, 0x20])], inner if inner[0] not in STACK else [0xea], [0x28]]
                else:
                    by, w = self.ins(w, faults)
                    items.append(by)
            k = r.random()
            t = r.randrange(nb)
            same = assume[b] == w == assume[t] or assume[t] == [None, None] or r.random() < faults
            # falling into the next block, or its widths are wiped
            if k < .5 and same:
                items.append((r.choice(COND), t))
                items += [self.widths(assume[b + 1])] if b + 1 < nb else []
            elif k < .6 and same:
                items.append(r.choice([(0x80, t), (0x82, t)]))
            elif k < .7:
                items.append([r.choice(EXITS)])
            elif k < .76:
                tt = r.choice(others)
                items.append([0x5c, tt & 255, tt >> 8 & 255, tt >> 16] if r.random() < .6 or tt >> 16 != a >> 16
                             else [0x4c, tt & 255, tt >> 8 & 255])
            elif k < .8:
                items.append(r.choice([[0x6c], [0x7c], [0xdc]]) + self.rnd(2))
            elif b + 1 < nb:
                items.append(self.widths(assume[b + 1]))
        items.append([r.choice(EXITS)])
        starts.append(len(items) - 1)
        # addresses, then branch distances
        at, p = [], a
        for it in items:
            at.append(p)
            p = wrap(p, len(it) if isinstance(it, list) else (3 if it[0] == 0x82 else 2))
        out = []
        for it, pos in zip(items, at):
            if isinstance(it, list):
                out += it
                continue
            t = at[starts[it[1]]]
            if r.random() < faults * .2:
                t = wrap(t, 1)
            if it[0] == 0x82:
                d = (t - wrap(pos, 3)) & 0xffff
                out += [0x82, d & 255, d >> 8]
            else:
                d = ((t & 0xffff) - (wrap(pos, 2) & 0xffff)) & 0xffff
                if d >= 0x8000:
                    d -= 0x10000
                out += [it[0], d & 255] if -128 <= d <= 127 else [0xea, 0xea]
        return out, [at[s] for s in starts], at

    def place(self):
        return self.r.choice(self.banks) << 16 | self.r.choice(self.offsets)

    def image(self, faults=None):
        r = self.r
        if faults is None:
            faults = r.choice([0, 0, .05, .3])
        if r.random() < self.seamy:
            return self.seam()
        n = r.choice([1, 1, 2, 2, 3])
        places = r.sample(sorted({self.place() for _ in range(12)}), n)
        others = places + [r.choice([0x9003, 0x129000, 0x7fff00, 0x8000]) for _ in range(r.randrange(0, 3))]
        others += self.extra
        modes = [r.choice(self.modes) for _ in range(n)]
        segs, starts, inside = [], [], []
        for a, m in zip(places, modes):
            by, st, at = self.routine(a, m, others, faults)
            segs.append((a, by))
            starts += [(s, m) for s in st]
            inside += [(x, m) for x in at]
        if r.random() < .12:
            segs.append((self.place(), [r.randrange(256) for _ in range(r.randrange(1, 20))]))
        reqs = list(zip(places, modes))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if len(reqs) >= 3:
                break
            k = r.random()
            s, m = r.choice(starts if k < .5 else inside)
            if k > .9:
                s = wrap(s, 1)
            reqs.append((s, m if r.random() < .6 else r.choice(MODES)))
        r.shuffle(reqs)
        fill = r.choice([0x60, 0xdb, 0x60, 0x6b, 0x40])
        banks = sorted({a >> 16 for a in places} | ({0, 0x12, 0x80} if r.random() < .8 else set()))
        convs = {}
        for t in others:
            if r.random() < .45:
                convs[t] = r.choice(["default", "noreturn"] + MODES)
        return fill, banks, segs, convs, reqs, r.choice([0, 0x8000])

    def seam(self):
        """Two banks, one's last instruction next to the other's first."""
        r = self.r
        b = r.choice(self.seams)
        op = r.choice([[0x18, 0x65], [0x38, 0xe5]])
        segs = [(b << 16 | 0xffff, [op[0]]), (b << 16, [0xdb]), ((b + 1) << 16, [op[1], 0x12, 0x60]),
                ((b + 1) << 16 | 0xfffe, [0xea, 0xea])]
        if r.random() < .5:     # which leaves there
            segs = [(b << 16 | 0xfffe, [op[0], r.choice(EXITS)]), ((b + 1) << 16, [op[1], 0x12, r.choice(EXITS)])]
            reqs = [(b << 16 | 0xfffe, r.choice(MODES)), ((b + 1) << 16, r.choice(MODES))]
            r.shuffle(reqs)
            return 0x60, [b, b + 1], segs, {}, reqs, 0
        reqs = [(b << 16 | 0xffff, r.choice(MODES)), ((b + 1) << 16 | 0xfffe, "m8x8")]
        r.shuffle(reqs)
        return 0x60, [b, b + 1], segs, {}, reqs, 0

    def job(self, image, orders=None):
        fill, banks, segs, convs, reqs, low = image
        n = len(reqs)
        orders = orders or ["".join(p) for p in itertools.permutations("123"[:n])]
        if n == 3:
            orders = self.r.sample(orders, 3)
        if n == 1 and self.r.random() < .3:
            orders = ["1", "11"]
        return (f"dis {fill} {low} {len(banks)} {' '.join(map(str, banks))} {len(segs)} " +
                " ".join(f"{a} ={bytes(b).hex()}" for a, b in segs) + f" {len(convs)} " +
                " ".join(f"{a} {c}" for a, c in convs.items()) + f" {n} " +
                " ".join(f"{a} {m}" for a, m in reqs) + f" {len(orders)} " + " ".join(orders))


def shown(a):
    mem = "; ".join(f"{s['a']:06x}: " + " ".join(f"{b:02x}" for b in s["b"]) for s in a["segs"])
    reqs = "; ".join(f"{q['a']:06x} {q['f']}" for q in a["reqs"])
    return f"memory {mem} (else {a['fill']:02x}, from {a['low']:04x}), conventions {a['convs']}, requests {reqs}"


def small_images(c):
    """The images of MCDisasm, whose requests are followed in every order."""
    cfg = ("SPECIFICATION Spec\nCONSTANT Count = %d\nCONSTANT Codes = {194,48,169,40,144,252,96,251,8}\n"
           "%s\nCHECK_DEADLOCK FALSE\n")
    c.model("MCDisasm", cfg % (2, "PROPERTY Ends"), label="MCDisasm ends")
    want = "INVARIANT Exactly Refusals Describing\nACTION_CONSTRAINT Emit"
    small = c.model("MCDisasm", cfg % (3, want)).printed("LINE")
    small.sort(key=str)
    if c.thorough:
        four = c.model("MCDisasm", cfg % (4, want), label="MCDisasm longer").printed("LINE")
        four.sort(key=str)
        small += c.rng.sample(four, min(7000, len(four)))
    return [(96, [0], [(0x8000, x["bytes"])], {}, [(q["a"], q["m"]) for q in x["reqs"]], 0x8000) for x in small]


def c21():
    c = Check("C21")
    exe = c.b.driver("dis_drv", PARTS)
    g = Code(c.rng)
    jobs = [g.job(i) for i in small_images(c)]
    c.notes["small_images"] = len(jobs)
    jobs += [g.job(g.image()) for _ in range(c.pick(3000, 24000))]
    answers, verdicts, bads = spread(c, exe, jobs, "TraceDisasm")
    for a, want in sorted(bads, key=lambda b: sum(len(s["b"]) for s in b[0]["segs"]))[:4]:
        runs = [{"order": r["order"], "steps": [(s["ok"], s["error"]) for s in r["steps"]]} for r in a["runs"]]
        c.violation(f"C21: {', '.join(want['problems'])}: {shown(a)[:900]}",
                    shown(a) + "\n" + json.dumps(runs) + "\n\n" + json.dumps(a["runs"], indent=1)[:8000] +
                    "\nspecification: " + json.dumps(want)[:4000])
    c.notes["images"] = len(answers)
    c.notes["all_granted"] = sum(v["all"] for v in verdicts)
    c.notes["undetermined"] = sum(v["open"] for v in verdicts)
    c.notes["instructions"] = sum(v["code"] for v in verdicts)
    c.sample(shown(next(a for a, v in zip(answers, verdicts) if v["all"] and v["code"] > 6)))
    if not c.notes["all_granted"] or c.notes["all_granted"] == len(answers):
        raise CheckError("the generated images are one-sided")
    return c.finish()


# a checksum and its complement, where LoROM has them
SUMS = [(0x7fdc, 0x12), (0x7fdd, 0x34), (0x7fde, 0xed), (0x7fdf, 0xcb)]


class Carts(Code):
    """The same in cartridges, for the tools."""
    LO = ([0, 0, 1, 0x80, 0x81], [0x8000, 0x9000, 0xa000, 0xb000, 0xfff0, 0x8010, 0x8030, 0xfffa])
    seams, seamy = [0xc0], .03      # (not mapped in LoROM)
    HI = ([0xc0, 0xc0, 0xc1, 0, 0x40, 0x80], [0x8000, 0x9000, 0xa000, 0x8030, 0xfff0, 0xfff8])

    def per(self):      # listings cannot be assembled then (known finding)
        return [0x62] + self.rnd(2) if self.r.random() < .03 else [0x0b]

    def cart(self, faults=None):
        """(mode, size, fill, patch, requests): patch by ROM offset."""
        r = self.r
        mode = r.choice(["lo", "hi"])
        self.banks, self.offsets = self.LO if mode == "lo" else self.HI
        fill, _, segs, _, reqs, _ = self.image(r.choice([0, 0, 0, .1]) if faults is None else faults)
        size = r.choice([0x10000, 0x20000])
        at = {}
        base = 0x7fdc if mode == "lo" else 0xffdc
        a, b = r.randrange(256), r.randrange(256)
        other = 0xffdc if mode == "lo" else 0x7fdc
        for o, v in ((base, a), (base + 1, b), (base + 2, a ^ 255), (base + 3, b ^ 255)):
            at[o] = v
        for s, by in segs:
            for i, v in enumerate(by):
                o = mapaddr(mode, wrap(s, i))
                if 0 <= o < size and not any(h <= o < h + 4 for h in (base, other)):
                    at.setdefault(o, v)
        want = {}
        for q, m in reqs:
            want.setdefault(q, m)
        return mode, size, fill, sorted(at.items()), sorted(want.items())

    def listed(self):
        """The two known findings."""
        def one(fill, segs, reqs):
            return "lo", 0x10000, fill, sorted([(a + i, v) for a, by in segs for i, v in enumerate(by)] + SUMS), reqs
        return [one(0x60, [(0, [0x62, 0x80, 0x60, 0x60])], [(0x8000, "m8x8")]),
                one(0x60, [(0, [0x22, 0, 0x90, 0, 0x60]), (0x100, [0x22, 0, 0x90, 0, 0x60]),
                           (0x1000, [0xa9, 0x12, 0x6b])], [(0x8000, "m8x8"), (0x8100, "emu")])]

    def write(self, cart, path):
        mode, size, fill, patch, _ = cart
        d = bytearray([fill]) * size
        for o, v in patch:
            d[o] = v
        with open(path, "wb") as f:
            f.write(d)


class Web(Carts):
    """Routines that call each other, some of them only reached by calls, and
    sources that contain one of them."""

    def chain(self, mode, a, links):
        """Routines of which each calls the next."""
        r = self.r
        at = {}
        for i in range(links):
            t = a + 16 if i < links - 1 else a if r.random() < .1 else 0
            by = r.choice([[], [], [0xea], [0xe2, 0x30], [0xc2, 0x20], [0x18]])
            if t:
                by = by + ([0x20, t & 255, t >> 8 & 255] if r.random() < .6 else [0x22, t & 255, t >> 8 & 255, t >> 16])
            for j, v in enumerate(by + [r.choice([0x60, 0x6b])]):
                at[mapaddr(mode, a + j)] = v
            a += 16
        return at

    def pointed(self, cart):
        """Some of the requests by way of pointers: request -> pointer."""
        r = self.r
        mode, size, fill, patch, reqs = cart
        via, at = {}, dict(patch)
        for q, _ in reqs:
            if q < 0x10000 and r.random() < .35:
                p = (r.choice([0, 0x80, 0x81, 1]) << 16 | 0xe000) if mode == "lo" else r.choice([0xc0e000, 0xe000, 0xc0ffff])
                p += 4 * len(via) * (p & 0xffff == 0xe000)
                os = [mapaddr(mode, x) for x in (p, wrap(p, 1))]
                if all(0 <= o < size for o in os) and p not in via.values():
                    via[q] = p
                    at[os[0]], at[os[1]] = q & 255, q >> 8
        return (mode, size, fill, sorted(at.items()), reqs), via

    def web(self, links=0):
        r = self.r
        self.modes = r.choice([MODES, ["native", "unk", "native", "m8x8", "x8", "m16"], ["native", "unk"]])
        more = r.random() < .5
        own = r.random() < .6
        self.extra = [0xc000, 0xc000, 0x80c000, 0xc0c000][:3] if own else []
        links = links or (r.randrange(2, 10) if r.random() < .12 else 0)
        self.extra += [0xd000, 0x80d000, 0xc0d000] if links else []
        mode, size, fill, patch, reqs = self.cart(r.choice([0, 0, 0, .05]))
        if links:
            a = r.choice([0xd000, 0x80d000] if mode == "lo" else [0xc0d000])
            patch = sorted({**self.chain(mode, a, links), **dict(patch)}.items())
            if r.random() < .6:
                reqs = reqs[:2] + [(a, r.choice(MODES))]
        if len(reqs) > 1 and r.random() < .7:
            reqs = r.sample(reqs, r.randrange(1, len(reqs)))
        reqs = [(q, m if r.random() < .8 else r.choice(MODES)) for q, m in reqs]
        if not more:
            return (mode, size, fill, patch, sorted(reqs)), None
        lines, convs, owned, ents = [], {}, [], []
        for q, m in reqs:
            if own and r.random() < .3:
                continue
            cv = r.choice(["noreturn"] + MODES) if r.random() < .3 else None
            if cv:
                convs[q] = cv
            lines.append(f".remote ${q:06x} {m}{saying(cv)}")
            ents.append((q, m))
        at = dict(patch)
        if own:
            a = r.choice([0xc000, 0x80c000]) if mode == "lo" else 0xc0c000
            m = r.choice(MODES)
            cv = r.choice(["noreturn"] + MODES) if r.random() < .4 else None
            if cv:
                convs[a] = cv
            lines += [f".org ${a:06x}", f".entry {m}{saying(cv)}"]
            by = []
            for _ in range(r.randrange(0, 4)):
                t, _ = r.choice(reqs + [(a, "")])
                k = r.random()
                if r.random() < .2:         # the carry is known at the jump then
                    by += [r.choice([0x18, 0x38])]
                    lines.append("clc" if by[-1] == 0x18 else "sec")
                    m = m[:-1] + "-" if m[-1] in "+-" else m + "-"
                    m = m[:-1] + ("-" if by[-1] == 0x18 else "+")
                if k < .3 and t >> 16 == a >> 16:
                    by += [0x20, t & 255, t >> 8 & 255]
                    lines.append(f"jsr ${t & 0xffff:04x}{saying(convs.get(t))}")
                elif k < .8:
                    by += [0x22, t & 255, t >> 8 & 255, t >> 16]
                    lines.append(f"jsl ${t:06x}{saying(convs.get(t))}")
                else:
                    by += [0xea]
                    lines.append("nop")
                    continue
                if t != a:
                    ents.append((t, m))
                m = m.rstrip("+-")
                if convs.get(t) == "noreturn":
                    break
                if convs.get(t):
                    m = convs[t]
            else:
                by.append(r.choice([0x60, 0x6b]))
                lines.append("rts" if by[-1] == 0x60 else "rtl")
            for i, v in enumerate(by):
                o = mapaddr(mode, wrap(a, i))
                if o < size:
                    at[o] = v
            owned = [wrap(a, i) for i in range(len(by))]
        return (mode, size, fill, sorted(at.items()), ents), (lines, convs, owned)


def small_calls(c, n, sizes):
    """n of the cartridges of MCCalls, whose calls are followed in every order."""
    out = {}
    for slots, rich in sizes:
        for x in c.model("MCCalls", f"SPECIFICATION Spec\nCONSTANT Slots = {slots}\nCONSTANT Rich = {rich}\n"
                         "INVARIANT Between\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n",
                         label=f"MCCalls {slots} {rich}").printed("LINE"):
            cart = ("lo", 0x10000, 0x60, sorted([tuple(p) for p in x["patch"]] + SUMS), [tuple(q) for q in x["reqs"]])
            out[str(cart)] = cart
    carts = [out[k] for k in sorted(out)]
    for cart in carts if len(carts) <= n else c.rng.sample(carts, n):
        yield cart, None if c.rng.random() < .5 else ([f".remote ${q:06x} {m}" for q, m in cart[4]], {}, [])


FLAG = {0: "off", 1: "on", None: "unk"}


def flags_of(mode):
    """What a mode name says, as the specification writes it; a + or - after it
    says that the carry is set or clear."""
    if mode[-1] in "+-":
        return dict(flags_of(mode[:-1]), c="on" if mode[-1] == "+" else "off")
    if mode == "unk":
        return dict(e="unk", m="unk", x="unk", c="unk")
    m, x = WIDTHS[mode]
    return dict(e="on" if mode == "emu" else "off", m=FLAG[m], x=FLAG[x], c="unk")


def saying(conv):
    return "" if conv is None else " noreturn" if conv == "noreturn" else f" yields {conv}"


def known_case(problems, error):
    """The listed finding a refused listing falls under, if any."""
    if len(problems) == 1 and problems[0].startswith("refused"):
        if "instruction per requires a named" in error:
            return "per-operand"
        if "nameless" in problems[0] and "which is unknown here" in error:
            return "nameless-entry"
    return None


def c22():
    c = Check("C22")
    tool = c.b.driver("quick_disassemble", PARTS, main=f"{REPO}/util/quick_disassemble.cc")
    more = c.b.driver("disassemble_more", ASM_PARTS + PARTS, main=f"{REPO}/util/disassemble_more.cc")
    exe = c.b.driver("asm_drv", ASM_PARTS)
    g, w = Carts(c.rng), Web(c.rng)
    known = g.listed()
    # every third listing is made by the tool that follows declared targets, or
    # those jumped to by given sources
    carts, srcs = [], []
    for i in range(c.pick(1500, 20000)):
        cart, src = (known[i], None) if i < len(known) else w.web() if i % 4 == 1 else (g.cart(), None)
        if i >= len(known) and not src and i % 3 == 2:
            convs = {q: g.r.choice(["noreturn"] + MODES) for q, m in cart[4] if g.r.random() < .3}
            src = [f".remote ${q:06x} {m}{saying(convs.get(q))}" for q, m in cart[4]], convs, []
        carts.append(cart)
        srcs.append(src)
    for cart, src in small_calls(c, c.pick(400, 4000), [(1, "TRUE")]):
        carts.append(cart)
        srcs.append(src)

    def listing(i):
        path = os.path.join(c.work, f"{i}.sfc")
        g.write(carts[i], path)
        reqs = carts[i][4]
        if srcs[i]:
            with open(path + ".asm", "w") as f:
                f.write("\n".join(srcs[i][0]) + "\n")
            r = run_prog([more, path, path + ".asm"], timeout=60)
            os.unlink(path + ".asm")
        else:
            r = run_prog([tool, path] + [w for q, m in reqs for w in (f"{q:06x}", m)], timeout=60)
        os.unlink(path)
        return r
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(listing, range(len(carts))))
    jobs, extra = [], []
    for cart, src, (rc, text, err) in zip(carts, srcs, out):
        _, conv, owned = src or ([], {}, [])
        if rc not in (0, 1):
            c.violation(f"C22: the disassembling tool ended with {rc} for {cart[3]} {cart[4]}", text + err)
            continue
        mode, size, fill, patch, reqs = cart
        jobs.append(job([text]))
        extra.append(dict(mode=mode, size=size, fill=fill, patch=patch, rc=rc,
                          reqs=[dict(a=q, f=flags_of(m)) for q, m in reqs], owned=owned,
                          convs=[dict(a=q, r=dict.fromkeys("emxc", "noreturn") if m == "noreturn" else flags_of(m))
                                 for q, m in conv.items()]))
    answers, verdicts, bads = spread(c, exe, jobs, "TraceBack", extra=extra)
    for a, want in sorted(bads, key=lambda b: len(b[0]["files"][0]))[:60]:
        c.violation(f"C22: {', '.join(want['problems'])}: {a['runs'][0]['error'][:200]}: {source(a)[:600]!r}",
                    source(a) + "\n\n" + json.dumps({k: a[k] for k in ("mode", "size", "fill", "patch", "reqs", "convs", "owned", "rc")}) +
                    "\n" + json.dumps(a["runs"])[:6000] + "\n" + json.dumps(want)[:4000],
                    key=known_case(want["problems"], a["runs"][0]["error"]))
    c.notes["listings"] = len(answers)
    c.notes["must_reassemble"] = sum(v["clean"] for v in verdicts)
    c.notes["reassembled"] = sum(v["ok"] for v in verdicts)
    c.notes["instructions"] = sum(v["code"] for v in verdicts if v["ok"])
    if not c.notes["must_reassemble"]:
        raise CheckError("no listing had to be accepted")
    c.sample(source(next(a for a, v in zip(answers, verdicts) if v["ok"] and v["code"] > 8)))
    return c.finish()


def rows(out):
    """The rows of a listing, and how many it says it has."""
    found, label, entry, count = [], "", "", -1
    for line in out.split("\n"):
        m = re.match(r"; Disassembled (\d+) instructions\.$", line)
        if m:
            count = int(m[1])
        m = re.match(r"(?:(\w+):)? +\.entry (.*)$", line)
        if m:
            label, entry = m[1] or "", m[2]
            continue
        m = re.match(r"(?:(\w+):)? +(\S.*?) *; \$([0-9a-f]{6}) (.*)$", line)
        if m:
            found.append(dict(a=int(m[3], 16), label=m[1] or label, entry=entry, text=m[2], says=m[4],
                              folded=m[2][:3] in ("add", "sub")))
            label = entry = ""
    return found, count


def c26():
    c = Check("C26")
    tool = c.b.driver("quick_disassemble", PARTS, main=f"{REPO}/util/quick_disassemble.cc")
    more = c.b.driver("disassemble_more", ASM_PARTS + PARTS, main=f"{REPO}/util/disassemble_more.cc")
    g = Web(c.rng)
    carts = [g.web(links=g.r.randrange(101, 112) if i % 3000 == 7 else 0) for i in range(c.pick(2500, 18000))]
    ways = [{}] * len(carts)
    for i, (cart, src) in enumerate(carts):
        if not src:
            cart, ways[i] = g.pointed(cart)
            carts[i] = cart, src
    small = list(small_calls(c, c.pick(1200, 7000),
                             [(1, "TRUE"), (2, "FALSE")] + ([(2, "TRUE")] if c.thorough else [])))
    c.notes["small_cartridges"] = len(small)
    carts += small
    ways += [{}] * len(small)

    def listing(i):
        cart, src = carts[i]
        path = os.path.join(c.work, f"{i}.sfc")
        g.write(cart, path)
        if src:
            with open(path + ".asm", "w") as f:
                f.write("\n".join(src[0]) + "\n")
            r = run_prog([more, path, path + ".asm"], timeout=60)
            os.unlink(path + ".asm")
        else:
            args = [w for q, m in cart[4] for w in (f"@{ways[i][q]:x}" if q in ways[i] else f"{q:06x}", m)]
            r = run_prog([tool, path] + args, timeout=60)
        os.unlink(path)
        return r
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(listing, range(len(carts))))
    events = []
    for (cart, src), via, (rc, text, err) in zip(carts, ways, out):
        mode, size, fill, patch, reqs = cart
        _, convs, owned = src or ([], {}, [])
        found, count = rows(text)
        events.append(dict(op="list", mode=mode, size=size, fill=fill, patch=patch, rc=rc if isinstance(rc, int) else -1,
                           reqs=[dict(a=via.get(q, q), by=q in via, f=flags_of(m)) for q, m in reqs],
                           convs=[dict(a=q, r=dict.fromkeys("emxc", "noreturn") if m == "noreturn" else flags_of(m))
                                  for q, m in convs.items()], owned=owned, rows=found, count=count))
    parts = [range(i, len(events), 8) for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda i: c.judge("TraceListing", [{"op": "begin"}] + [events[k] for k in parts[i]], TRACE,
                                            f"TraceListing{i}"), range(8)))
    verdicts, bads = [], []
    for part, t in zip(parts, res):
        vs = t.printed("VERDICT")
        if len(vs) != len(part):
            raise CheckError("a verdict is missing")
        verdicts += zip(part, vs)
        bads += [(part[m["l"] - 2], m["want"]) for m in t.printed("MISMATCH")]
    c.traces += len(events) - 8
    for k, want in sorted(bads, key=lambda b: len(events[b[0]]["rows"]))[:4]:
        cart, src = carts[k]
        c.violation(f"C26: {', '.join(want['problems'])}: requests {cart[4]}, sources {src and src[0]}: {out[k][1][:600]!r}",
                    json.dumps([cart, src, ways[k]]) + "\n\n" + out[k][1] + out[k][2] + "\nspecification: " + json.dumps(want)[:6000])
    c.notes["listings"] = len(events)
    c.notes["determined"] = sum(v["clean"] for _, v in verdicts)
    c.notes["rows"] = sum(len(events[k]["rows"]) for k, v in verdicts if v["clean"])
    c.notes["requests_by_pointer"] = sum(len(ways[k]) for k, v in verdicts if v["clean"])
    c.notes["reached_by_calls_only"] = sum(v["called"] for _, v in verdicts)
    c.notes["left_to_the_sources"] = sum(v["left"] for _, v in verdicts)
    if not all(c.notes[k] for k in ("determined", "requests_by_pointer", "reached_by_calls_only", "left_to_the_sources")):
        raise CheckError("the generated programs are one-sided")
    c.sample(next(out[k][1] for k, v in verdicts if v["clean"] and v["called"] and v["code"] > 12))
    return c.finish()
