"""C24, C25 (Tools.tla): runs of the command line tools."""
import re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from asm import CORE
from assemble import Programs, TRACE, PARTS as ASM_PARTS, MODES
from disassemble import Carts, PARTS as DIS_PARTS, flags_of, wrap
from rom import mapaddr, checksum_patch

ALL = tuple(dict.fromkeys(ASM_PARTS + DIS_PARTS))
TOOLS = "quick_assemble quick_disassemble disassemble_more dumb_disassemble print_opcode_map".split()
NOP = 0xea


class Sources(Programs):
    """Sources for a cartridge."""
    mode, size = "lo", 0x10000

    def place(self):
        r = self.r
        if r.random() < .06:
            return super().place()
        for _ in range(40):
            a = r.choice([0, 0, 1, 0x80, 0x81, 0x12, 0xc0, 0x40]) << 16 | r.choice(
                [0x8000, 0x8000, 0x8004, 0x8008, 0x8010, 0xfff8, 0x9000, 0xa000, 0xfffe, 0, 2])
            if 0 <= mapaddr(self.mode, a) < self.size:
                return a
        return 0x8000

    def sources(self):
        r = self.r
        k = r.random()
        if k < .45:
            return [self.layout()]
        if k < .60:
            return [self.jumping(i) for i in range(r.choice([1, 1, 2]))]
        if k < .75:
            return self.linked(r.choice([1, 2, 2]))
        if k < .9:
            return self.files(r.choice([1, 2]))
        return [self.flow()]


def rom_file(r, mode=None, sizes=(0x10000, 0x10000, 0x20000, 0xa0000, 0x130000), faults=.12):
    """A description of a ROM file."""
    mode = mode or r.choice(["lo", "hi"])
    size = r.choice(sizes)
    rom = dict(kind="file", fsize=size + r.choice([0, 0, 512]), fill=r.choice([0x60, 0, 0xdb, 0x6b, 0xff]), patch=[])
    base = 0x7fb0 if mode == "lo" else 0xffb0
    rom["patch"] = checksum_patch(r, base, "valid")
    k = r.random()
    if k > faults:
        return mode, rom
    k = r.randrange(7)
    if k < 2:
        rom.update(kind=["missing", "dir"][k], fsize=0, patch=[])
    elif k == 2:
        rom["fsize"] += r.choice([1, 511, 256, -1])
    elif k == 3:
        rom["patch"] = checksum_patch(r, base, r.choice(["none", "half"]))
    elif k == 4:
        rom["patch"] = checksum_patch(r, 0x7fb0, "valid") + checksum_patch(r, 0xffb0, "valid")
    elif k == 5:
        rom["fsize"] = r.choice([0, 512, 0x8000, 0xf000, 100])
        rom["patch"] = []
    return mode, rom


def header_of(rom):
    n = rom["fsize"] % 4096 == 512 and 512 or 0
    return bytes((i * 7 + 3) % 256 for i in range(n))


def contents(rom):
    h = header_of(rom)
    d = bytearray([rom["fill"]]) * max(0, rom["fsize"] - len(h))
    for o, v in rom["patch"]:
        if o < len(d):
            d[o] = v
    return h + bytes(d)


def put(path, rom):
    if rom["kind"] == "dir":
        os.makedirs(path)
    elif rom["kind"] == "file":
        with open(path, "wb") as f:
            f.write(contents(rom))


def look(path):
    """A file's contents; /dev/full never ends."""
    if not os.path.isfile(path):
        return None
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def differs(old, new, skip):
    """Pairs of offset behind the header and new byte."""
    out = []
    for p in range(0, min(len(old), len(new)), 4096):
        if old[p:p + 4096] != new[p:p + 4096]:
            out += [[p + i - skip, b] for i, (a, b) in enumerate(zip(old[p:p + 4096], new[p:p + 4096])) if a != b]
    return out


def seen(rc, out, err):
    return dict(rc=rc if isinstance(rc, int) else -1, said=bool(out.strip()) or bool(err.strip()))


def listing(out):
    m = re.search(r"^; Disassembled (\d+) instructions", out, re.M)
    at, entries, entry = [], [], False
    for line in out.split("\n"):
        if re.match(r"\S*\s+\.entry ", line):
            entry = True
            continue
        m2 = re.search(r"; \$([0-9a-f]{6}) ", line)
        if m2 and not line.startswith(";"):
            at.append(int(m2[1], 16))
            if entry:
                entries.append(at[-1])
            entry = False
    return dict(listed=int(m[1]) if m else 0, at=at, entries=entries)


class Bench:
    """Runs tools in scratch directories and records what they did."""

    def __init__(self, c):
        self.c = c
        self.exe = {t: c.b.driver(t, ALL, main=f"{REPO}/util/{t}.cc") for t in TOOLS}

    def dir(self, name):
        d = os.path.join(self.c.work, name)
        os.makedirs(d)
        return d

    def sources(self, d, texts, r):
        """Source files; now and then one that cannot be read."""
        paths, shown = [], []
        for i, t in enumerate(texts):
            p = os.path.join(d, f"s{i}.asm")
            k = r.random()
            if k < .02:
                os.makedirs(p)
            elif k < .04:
                p = os.path.join(d, "absent.asm")
            else:
                with open(p, "w") as f:
                    f.write(t + ("\n" if r.random() < .7 else ""))
            paths.append(p)
            shown.append(dict(ok=k >= .04, text=(t.split("\n") if t else []) if k >= .04 else []))
        return paths, shown

    def run(self, tool, args, limit=None, timeout=60, cwd=None):
        argv = [self.exe[tool]] + args
        if limit is not None:
            argv = ["bash", "-c", 'trap "" XFSZ; exec prlimit --fsize="$0" "$@"', str(limit)] + argv
        elif tool != "quick_assemble":      # one that never ends prints without end
            argv = ["bash", "-c", '"$@" | head -c 16000000; exit ${PIPESTATUS[0]}', "sh"] + argv
        return run_prog(argv, timeout=timeout, cwd=cwd)

    def assemble(self, d, rom, rompath, paths, shown, out, r, fixed=None):
        """One run of quick_assemble; out: what kind of output to name."""
        limit = None
        target = os.path.join(d, "out.sfc")
        kind = "path"
        if out == "path" and r.random() < .4:
            target = os.path.join(d, r.choice(["-out.sfc", "--", "-o", "out", "x y.sfc", "out.asm.sfc", "out.asmx", "asm",
                                               "out.sfc-", "-.sfc", "out.ASM_", "oasm", "1"]))
        if out == "-":
            target, kind = "-", "-"
        elif out == "asm":
            target, kind = os.path.join(d, r.choice(["out.asm", "-.asm", ".asm", "a b.asm", "out.sfc.asm"])), "asm"
        elif out == "inplace":
            target = rompath
        elif out == "full":
            target, kind = "/dev/full", "shut"
        elif out == "nodir":
            target, kind = os.path.join(d, "no", "out.sfc"), "shut"
        elif out == "isdir":
            target, kind = os.path.join(d, "is"), "shut"
            os.makedirs(target, exist_ok=True)
        elif out == "limit":
            n = max(1, rom["fsize"])
            limit, kind = r.choice([0, 1, 511, 512, 4096, n - 1, n - 1, n - 100, n - 4096, n // 2]), "shut"
            limit = max(0, min(limit, n - 1))
        if out in ("path", "asm") and r.random() < .3:
            with open(target, "wb") as f:
                f.write(b"already here")
        # by a name in the current directory
        named = os.path.basename(target) if os.path.dirname(target) == d and r.random() < .6 else target
        args = [rompath, named] + paths
        good = True
        if fixed is None and r.random() < .03:
            args = args[:r.randrange(3)]
            good = False
        before = look(target) if kind != "-" else look(rompath)
        original = look(rompath)
        rc, text, err = self.run("quick_assemble", args, limit, cwd=d)
        after = (look(target) if kind != "-" else look(rompath)) if out != "full" else before
        left = dict(file=after is not None, same=after == before, size=-1, head=False, diff=[])
        if after is not None and original is not None and rc == 0:
            h = len(header_of(rom))
            left.update(size=len(after), head=after[:h] == original[:h], diff=differs(original, after, h))
            if len(left["diff"]) > 3000:
                left.update(size=-1, diff=[])
        e = dict(op="assemble", args=good, rom=rom, sources=shown, out=kind, left=left,
                 targets=[int(x, 16) for x in re.findall(r"^  \$([0-9a-f]{6}) ", text, re.M)], **seen(rc, text, err))
        return e, ([self.exe["quick_assemble"]] + args, rc, text, err, left, limit)


def tell(e, how):
    argv, rc, out, err = how[:4]
    srcs = "\n---\n".join("\n".join(s["text"]) for s in e.get("sources", []))
    return (f"{argv}\nexit {rc}\nstdout:\n{out[:3000]}\nstderr:\n{err[:2500]}\nROM {json.dumps(e.get('rom'))}\n{srcs}\n" +
            json.dumps({k: v for k, v in e.items() if k not in ("rom", "sources")})[:6000] + repr(how[4:])[:600])


def judged(c, runs, label):
    """runs: pairs of event and how it came about."""
    n = min(8, len(runs) // 20 or 1)
    parts = [runs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda i: c.judge("TraceTools", [{"op": "begin"}] + [e for e, _ in parts[i]], TRACE,
                                            f"{label}{i}"), range(n)))
    bads, verdicts = [], []
    for part, t in zip(parts, res):
        vs = t.printed("VERDICT")
        if len(vs) != len(part):
            raise CheckError("a verdict is missing")
        verdicts += [(e, v) for (e, _), v in zip(part, vs)]
        bads += [part[m["l"] - 2] + (m["want"],) for m in t.printed("MISMATCH")]
    c.traces += len(runs)
    for e, how, want in sorted(bads, key=lambda b: len(json.dumps(b[0])))[:4]:
        text = tell(e, how)
        if how[1] not in (0, 1):
            first = [x for x in how[3].split("\n") if "ERROR" in x or "ssert" in x][:1]
        else:
            first = [how[2][:160]]
        c.violation(f"{c.id}: {os.path.basename(how[0][0])} {' '.join(map(os.path.basename, how[0][1:]))[:200]}: "
                    f"{', '.join(want['problems'])} (exit {how[1]}) {first}; specification {want['spec'][:200]}",
                    text + "\nspecification: " + json.dumps(want)[:4000])
    return verdicts


def assembling(c, bench, n):
    r = c.rng
    seeds = [r.randrange(1 << 60) for _ in range(n)]

    def one(i):
        q = random.Random(seeds[i])
        d = bench.dir(f"a{i}")
        g = Sources(q)
        mode, rom = rom_file(q)
        g.mode, g.size = mode, rom["fsize"]
        rompath = os.path.join(d, "rom.sfc")
        put(rompath, rom)
        paths, shown = bench.sources(d, g.sources(), q)
        out = q.choice(["path", "path", "path", "path", "path", "-", "asm", "full", "nodir", "isdir", "limit", "limit",
                        "inplace"])
        runs = [bench.assemble(d, rom, rompath, paths, shown, out, q)]
        e = runs[0][0]
        if out == "path" and e["rc"] == 0 and e["left"]["size"] == rom["fsize"]:
            # the output is a ROM that the same sources leave alone
            new = dict(rom)
            over = dict(map(tuple, e["left"]["diff"]))
            new["patch"] = [p for p in rom["patch"] if p[0] not in over] + sorted(over.items())
            p2 = os.path.join(d, runs[0][1][0][2])
            runs.append(bench.assemble(d, new, p2, paths, shown, "-", q, fixed=True))
            if over and q.random() < .7:
                o = q.choice(sorted(over))
                bent = dict(new, patch=[p if p[0] != o else (o, (p[1] ^ (1 << q.randrange(8)))) for p in new["patch"]])
                p3 = os.path.join(d, "bent.sfc")
                put(p3, bent)
                runs.append(bench.assemble(d, bent, p3, paths, shown, "-", q, fixed=True))
        sh(["rm", "-rf", os.path.join(c.work, f"a{i}")])
        return runs
    with ThreadPoolExecutor(8) as ex:
        return [x for runs in ex.map(one, range(n)) for x in runs]


BAD_ADDRESS = ["", "zz", "1000000", "-1", "$8000", "ffffffff", "@", "@zz"]
BAD_MODE = ["", "m9", "m8x", "foo", "x16m8", "m8 "]


def cart_rom(g, cart, q, faults):
    """A ROM file for a generated cartridge."""
    mode, size, fill, patch, reqs = cart
    rom = dict(kind="file", fsize=size + q.choice([0, 0, 512]), fill=fill, patch=[list(p) for p in patch])
    if q.random() < faults:
        _, bad = rom_file(q, faults=1)
        rom.update(bad, fill=fill)
    return rom


def disassembling(c, bench, n, share):
    seeds = [c.rng.randrange(1 << 60) for _ in range(n)]

    def one(i):
        q = random.Random(seeds[i])
        d = bench.dir(f"d{i}")
        g = Carts(q)
        cart = g.cart(q.choice([0, .1, .4]))
        if i % 97 == 5:         # a bank without an exit
            cart = ("hi", 0x10000, NOP, [p for p in cart[3] if 0xffdc <= p[0] <= 0xffdf] if cart[0] == "hi" else
                    [(0xffdc, 1), (0xffdd, 1), (0xffde, 254), (0xffdf, 254)], [(0xc00000 | q.randrange(65536), "m8x8")])
        rom = cart_rom(g, cart, q, .06)
        whole = cart[2] != NOP
        path = os.path.join(d, "rom.sfc")
        reqs = [[a, False, m] for a, m in cart[4]]
        for x in reqs:
            if q.random() < .1:
                x[2] = q.choice(MODES)
            if q.random() < .08:
                x[0] = q.choice([0x7e8000, 0x1fff, 0, 0xffffff, x[0] ^ 0x800000, x[0] | 0xffff, 0x7dffff, 0x3fffff])
            if q.random() < .12 and x[0] < 0x10000:
                p = q.choice([0x8100, 0xfffc, 0xffea, 0xffff])
                o = mapaddr(cart[0], p)
                at = dict(map(tuple, rom["patch"]))
                if rom["kind"] == "file" and o + 1 < rom["fsize"]:
                    at.setdefault(o, x[0] & 255)
                    at.setdefault(mapaddr(cart[0], wrap(p, 1)), x[0] >> 8)
                rom["patch"] = sorted(at.items())
                x[0], x[1] = p, True
        dumb = q.random() < share
        if dumb:
            reqs = [[reqs[0][0], False, reqs[0][2]]]
        args = [w for a, ind, m in reqs for w in (("@" if ind else "") + q.choice(["%06x", "%x", "%X"]) % a,
                                                 m if q.random() < .9 else m.upper())]
        good = True
        k = q.random()
        if k < .05:
            args[2 * q.randrange(len(reqs))] = q.choice(BAD_ADDRESS)
        elif k < .08:
            args[2 * q.randrange(len(reqs)) + 1] = q.choice(BAD_MODE)
        elif k < .1:
            args = args[:q.randrange(2)]
        good = k >= .1
        put(path, rom)
        if dumb:
            rc, out, err = bench.run("dumb_disassemble", [path] + args, timeout=90)
            lines = []
            for m in re.finditer(r"^\$([0-9a-f]{6}) - +(.*?) ; (.*?)(?: to \$([0-9a-f]{6}) \(.*\))?$", out, re.M):
                lines.append(dict(a=int(m[1], 16), text=m[2], says=m[3], to=int(m[4], 16) if m[4] else -1))
            e = dict(op="straight", good=good, rom=rom, reqs=[dict(a=reqs[0][0], ind=False, f=flags_of(reqs[0][2]))],
                     whole=whole, lines=lines if whole else [], **seen(rc, out, err))
        else:
            rc, out, err = bench.run("quick_disassemble", [path] + args, timeout=90)
            e = dict(op="disassemble", good=good, rom=rom, whole=whole,
                     reqs=[dict(a=a, ind=ind, f=flags_of(m)) for a, ind, m in reqs], **seen(rc, out, err),
                     **listing(out))
            if not whole:
                e["at"] = []
        sh(["rm", "-rf", os.path.join(c.work, f"d{i}")])
        return e, ([bench.exe["dumb_disassemble" if dumb else "quick_disassemble"], path] + args, rc, out, err)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(n)))


def comparing(c, bench, n):
    """disassemble_more: sources that agree with the ROM, or nearly."""
    seeds = [c.rng.randrange(1 << 60) for _ in range(n)]

    def one(i):
        q = random.Random(seeds[i])
        d = bench.dir(f"m{i}")
        g = Carts(q)
        mode, size, fill, patch, reqs = g.cart(q.choice([0, .1]))
        rom = cart_rom(g, (mode, size, fill, patch, reqs), q, .06)
        at = dict(map(tuple, rom["patch"]))
        lines = []
        for a, m in reqs:
            if q.random() < .8:
                lines.append(f".remote ${a:06x} {m}" + q.choice(["", "", "", " noreturn", " yields m8x8"]))
        o = q.choice([0x0, 0x40, 0x3000])
        a = 0x8000 + o if mode == "lo" else 0xc00000 + o
        if q.random() < .6:
            n = q.randrange(1, 6)
            by = [at.get(o + j, fill) for j in range(n)]
            if q.random() < .15:
                by[q.randrange(n)] ^= 1
            lines += [f".org ${a:06x}", ".db " + ",".join(map(str, by))]
        if q.random() < .5 and reqs:
            t = reqs[0][0]
            at2 = {0x4000: 0x22, 0x4001: t & 255, 0x4002: t >> 8 & 255, 0x4003: t >> 16, 0x4004: 0x6b}
            if rom["kind"] == "file" and q.random() < .9:
                at.update(at2)
                rom["patch"] = sorted(at.items())
            b = 0xc000 if mode == "lo" else 0xc04000
            lines += [f".org ${b:06x}", f".entry {q.choice(MODES)}", f"jsl ${t:06x}", "rtl"]
        if q.random() < .05:
            lines.append(q.choice(["lda", "nosuch 1", ".org", "jmp undefined"]))
        path = os.path.join(d, "rom.sfc")
        put(path, rom)
        paths, shown = bench.sources(d, ["\n".join(lines)], q)
        args, good = [path] + paths, True
        if q.random() < .04:
            args, good = args[:q.randrange(2)], False
        rc, out, err = bench.run("disassemble_more", args, timeout=90)
        e = dict(op="more", args=good, rom=rom, sources=shown, **seen(rc, out, err), **listing(out))
        sh(["rm", "-rf", os.path.join(c.work, f"m{i}")])
        return e, ([bench.exe["disassemble_more"]] + args, rc, out, err)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(n)))


def counted(c, verdicts, wants):
    count = {}
    for e, v in verdicts:
        k = f"{e['op']}: {v['want']}"
        count[k] = count.get(k, 0) + 1
    c.notes["runs"] = count
    if not c.violations:
        missing = [w for w in wants if w not in count]
        if missing:
            raise CheckError(f"the generated runs never met {missing}")


def c24():
    c = Check("C24")
    bench = Bench(c)
    runs = assembling(c, bench, c.pick(700, 6000)) + comparing(c, bench, c.pick(300, 3000)) + \
        disassembling(c, bench, c.pick(500, 5000), 0)
    verdicts = judged(c, runs, "C24")
    counted(c, verdicts, ["assemble: write", "assemble: fail", "assemble: any", "disassemble: fail", "disassemble: list",
                          "more: fail", "more: list"])
    for e, how in runs:
        if e["op"] == "assemble" and e["rc"] == 0 and e["left"]["diff"]:
            c.sample({k: e[k] for k in ("sources", "out", "rc", "left")})
            break
    return c.finish()


def c25():
    c = Check("C25")
    bench = Bench(c)
    runs = disassembling(c, bench, c.pick(1000, 10000), 1)
    rc, out, err = bench.run("print_opcode_map", [])
    lines = [dict(op=int(m[1], 16), text=m[2].rstrip()) for m in re.finditer(r"^([0-9A-F]{2})  (.*)$", out, re.M)]
    if rc != 0:
        c.violation(f"C25: print_opcode_map exits {rc}", out + err)
    runs.append((dict(op="map", lines=lines, v=str(0x654321), w=str(0x43)), ([bench.exe["print_opcode_map"]], rc, out, err)))
    verdicts = judged(c, runs, "C25")
    counted(c, verdicts, ["straight: list", "straight: fail", "map: map"])
    c.notes["lines"] = sum(len(e["lines"]) for e, _ in runs)
    c.sample(next(h[2] for e, h in runs if len(e["lines"]) in (7, 8, 9)))
    return c.finish()
