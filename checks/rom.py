"""C03..C07 and C11: spec/Rom.tla against nsasm/rom.*, memory.*, quick_dump."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

STEMS = ("rom", "memory", "error")
BANKS = [0x00, 0x01, 0x3f, 0x40, 0x41, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0,
         0xc1, 0xfd, 0xfe, 0xff]
OFFS = [0, 1, 2, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffd, 0xfffe, 0xffff]
MAPLAWS = ("CONSTANT Probe = {0, 1, 2, 255, 256, 4095, 16384, 32766, 32767}\n"
           "SPECIFICATION Spec\nINVARIANT Affine InCapacity Mirror Onto Injective\n"
           "CHECK_DEADLOCK FALSE\n")
MCROM = ("CONSTANTS Mode = \"{}\" Starts = {{{}}} MaxWrites = {} MaxLen = {} RomSize = {}\n"
         "SPECIFICATION MSpec\nINVARIANT LastWriteWins OkIsComplete InImage\n"
         "CHECK_DEADLOCK FALSE\n")


def pattern(k, i):
    return ((i % 256) * 37 + ((i // 256) % 256) * 101 + (i // 65536) * 59 + k * 17
            + (i % 251)) % 256


def mapaddr(mode, a):      # input generation only; the oracle is MapAddr in Rom.tla
    b, o = a >> 16, a & 0xffff
    if b in (0x7e, 0x7f) or (o < 0x8000 and (b & 0x7f) < 0x40):
        return -1
    if mode == "lo":
        return -1 if o < 0x8000 else (b & 0x7f) * 0x8000 + o - 0x8000
    return (b & 0x3f) * 0x10000 + o + (0x400000 if mode == "exhi" and b < 0x80 else 0)


def advance(a, i):
    return (a & 0xff0000) | ((a + i) & 0xffff)


def inverse(mode, off, rng):
    """Some address behind which ROM offset off lies, or None."""
    for _ in range(40):
        if mode == "lo":
            a = ((off >> 15) << 16) | 0x8000 | (off & 0x7fff)
        else:
            a = off & 0x3fffff
        a = (a & 0x7fffff) | rng.choice([0, 0x400000, 0x800000, 0xc00000])
        if mapaddr(mode, a) == off:
            return a
    return None


def some_addr(rng, mode, size):
    r = rng.random()
    if r < 0.35:       # around the end of the image
        a = inverse(mode, max(0, size - 1 - rng.choice([0, 0, 1, 2, 3, 5, 40])), rng)
        if a is not None:
            return a
    if r < 0.5:        # around a bank end
        off = rng.randrange(max(1, size))
        a = inverse(mode, off, rng)
        if a is not None:
            return (a & 0xff0000) | rng.choice([0xffff, 0xfffe, 0xfffc, 0xfff0, 0x8000, 0x7fff])
    if r < 0.75:
        a = inverse(mode, rng.randrange(max(1, size)), rng)
        if a is not None:
            return a
    if r < 0.93:
        return rng.choice(BANKS) << 16 | rng.choice(OFFS)
    return rng.randrange(1 << 24)


SIZES = {"lo": [0x10000, 0x18000, 0x1000, 0x8001, 0x12345, 0x80000, 0x200000, 0x3f8000, 0x400000, 1, 0],
         "hi": [0x10000, 0x20000, 0x12345, 0x80000, 0x200000, 0x3f0000, 0x400000, 0x8000, 1],
         "exhi": [0x10000, 0x410000, 0x408000, 0x600000, 0x7f0000, 0x800000]}


def report(c, ans, cmds, bad, crash):
    if crash:
        k = len(ans)
        i = min(k, len(cmds) - 1)
        while i > 0 and not cmds[i].startswith(("begin", "file")):
            i -= 1
        c.violation(f"{c.id}: no answer to '{cmds[min(k, len(cmds) - 1)][:200]}': {crash.why}",
                    "\n".join(x[:400] for x in cmds[i:k + 1]) + "\n" + crash.stderr)
    for m in bad[:4]:
        i = m["l"] - 1
        while i > 0 and ans[i]["op"] not in ("begin", "file"):
            i -= 1
        h = ans[i:m["l"]]
        c.violation(f"{c.id}: {json.dumps(h[-1])[:260]} -- specification: "
                    f"{json.dumps(m['want'])[:260]} (ROM {json.dumps(h[0])[:160]})",
                    "history, last call rejected:\n" + show(h) +
                    "\nspecification wants " + json.dumps(m["want"])[:4000])


def drive(c, exe, cmds, label, timeout=300):
    ans, crash = run_driver(exe, cmds, timeout, cwd=c.work)
    bad = c.validate("TraceRom", ans, label=label)
    report(c, ans, cmds, bad, crash)
    return ans


def begin(mode, hdr, size, k, patch=()):
    return f"begin {mode} {hdr} {size} {k} {len(patch)} " + \
        " ".join(f"{o} {b}" for o, b in patch)


def c03():
    c = Check("C03")
    c.model("MCRomMap", MAPLAWS)
    exe = c.b.driver("rom_drv", STEMS)
    cmds = [f"half {m} {hb}" for m in ("lo", "hi", "exhi") for hb in range(512)]
    parts = [cmds[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: run_driver(
            exe, [begin("lo", 0, 16, 1)] + p, 400), parts))
    ans = []
    for p, (a, crash) in zip(parts, res):
        if crash:
            c.violation(f"C03: no answer to '{([begin('lo', 0, 16, 1)] + p)[len(a)]}': {crash.why}",
                        crash.stderr)
        ans += a
    bad = c.validate("TraceRom", ans, label="C03-sweep")
    report(c, ans, cmds, bad, None)
    c.traces += sum(1 for a in ans if a["op"] == "half")
    c.notes["addresses_swept"] = 32768 * sum(1 for a in ans if a["op"] == "half")
    c.sample(ans[100])
    # the same map, seen through reads of the ROM
    rng, cmds = c.rng, []
    for mode in ("lo", "hi", "exhi"):
        size = {"lo": 0x400000, "hi": 0x400000, "exhi": 0x800000}[mode]
        cmds.append(begin(mode, 0, size, 3))
        for b in range(256):
            for o in ([0, 0x7fff, 0x8000, 0xffff] if not c.thorough else OFFS):
                cmds.append(f"read {b << 16 | o} 1")
    ans = drive(c, exe, cmds, "C03-reads")
    c.assumptions.append("addresses below 2^24; the maps are affine per half bank in the "
                         "specification (checked by TLC) and compared run by run in the code")
    return c.finish()


def c04():
    c = Check("C04")
    c.model("MCRomMap", MAPLAWS)
    exe = c.b.driver("rom_drv", STEMS)
    rng, cmds = c.rng, []
    for case in range(c.pick(36, 200)):
        mode = rng.choice(["lo", "hi", "exhi"])
        size = rng.choice(SIZES[mode])
        if not c.thorough and size > 0x410000 and case % 4:
            size = 0x410000
        cmds.append(begin(mode, rng.choice([0, 512]), size, rng.randrange(50)))
        for _ in range(c.pick(60, 100)):
            a = some_addr(rng, mode, size)
            n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 17, rng.randrange(1, 200), 0, -1, 64,
                            0x10000 - (a & 0xffff), 0x10001 - (a & 0xffff)])
            if n > 300 and rng.random() < 0.97:
                n = rng.randrange(1, 300)
            cmds.append(f"read {a} {n}")
            cmds.append(f"value {rng.choice([1, 2, 3])} {a}")
    # long reads: a whole bank and more
    for mode, size, addr in [("hi", 0x200000, 0xc00000), ("hi", 0x200000, 0xc10005),
                             ("lo", 0x200000, 0x808000), ("exhi", 0x600000, 0x410000),
                             ("hi", 0x20000, 0xc10000), ("hi", 0x10000, 0x408000)]:
        cmds.append(begin(mode, 0, size, 7))
        lens = [0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, 0x10002, 0x10003,
                0x18000, 0x20001, -0x80000000, -5]
        if not c.thorough:
            lens = rng.sample(lens, 4) if size != 0x20000 else lens[3:8] + lens[-2:]
        for n in lens:
            cmds.append(f"read {addr} {n}")
    ans = drive(c, exe, cmds, "C04")
    c.sample(ans[1])
    c.sample(ans[2])
    c.notes["reads"] = sum(a["op"] in ("read", "value") for a in ans)
    c.notes["failed_reads"] = sum(a["op"] in ("read", "value") and not a["ok"] for a in ans)
    c.assumptions.append("ROM images follow a fixed position-dependent byte pattern")
    return c.finish()


def checksum_patch(rng, base, valid):
    a, b = rng.randrange(256), rng.randrange(256)
    if valid == "none":
        return []
    p = [(base + 44, a), (base + 46, a ^ 255), (base + 45, b), (base + 47, b ^ 255)]
    if valid == "half":        # only one of the two byte pairs complements
        i = rng.choice([1, 3])
        p[i] = (p[i][0], p[i][1] ^ (1 << rng.randrange(8)))
    return p


PROBES = [0x008000, 0x00ffff, 0x808000, 0xc00000, 0xc0ffff, 0x400000, 0x40fffe, 0x410000,
          0x018000, 0x3f8000, 0xbfffff, 0x7dfff0, 0xffffff, 0x7e0000, 0x000000, 0x7d8000]


def c05():
    c = Check("C05")
    c.model("MCRomMap", MAPLAWS)
    exe = c.b.driver("rom_drv", STEMS)
    rng, cmds = c.rng, []
    sizes = [0x10000, 0x11000, 0x18000, 0x20000, 0x80000, 0xf000, 0x1000, 0x100,
             0x10800, 0x10100, 0x10200 + 0x100, 0x10fff, 0x10001, 1, 0, 0x200, 0x1200]
    big = [0x400000, 0x3ff000, 0x401000, 0x410000, 0x600000]
    n = 0
    path = os.path.join(c.work, "f.sfc")

    def file_case(size, lo, hi, probes):
        nonlocal n
        n += 1
        patch = checksum_patch(rng, 0x7fb0, lo) + checksum_patch(rng, 0xffb0, hi)
        data = size - (512 if size % 4096 == 512 else 0)
        patch = [p for p in patch if p[0] < data]
        for _ in range(rng.choice([0, 0, 3])):   # arbitrary extra bytes elsewhere
            if data > 0x10100:
                patch.append((rng.randrange(0x10000, data), rng.randrange(256)))
        cmds.append(f"file {path} {size} {rng.randrange(40)} {len(patch)} " +
                    " ".join(f"{o} {b}" for o, b in patch))
        cmds.append("load")
        for a in probes:
            cmds.append(f"read {a} {rng.choice([1, 4, 16])}")
        for a in (0x00ffd8, 0xc0ffd8, 0x807fd8, 0x00ffdc):
            cmds.append(f"read {a} 10")
        cmds.append(f"save {path}.out")

    kinds = ["none", "valid", "half"]
    for size in sizes:
        for h in (0, 0x200):
            combos = [(x, y) for x in kinds for y in kinds]
            if not (c.thorough or (size in (0x10000, 0x20000) and h == 0)):
                combos = rng.sample(combos[:], 2) + [("valid", "none"), ("none", "valid")]
            for lo, hi in combos:
                file_case(size + h, lo, hi, rng.sample(PROBES, 5))
    for size in big:
        for h in (0, 0x200):
            file_case(size + h, "none", "valid", PROBES)
            if c.thorough or (size == 0x400000 and h):
                file_case(size + h, "valid", "none", PROBES)
    cmds.append(f"file {path} {0x10000} 1 0")
    cmds.append(f"loadbad {c.work}/does-not-exist")
    cmds.append(f"loadbad {c.work}")
    cmds.append("loadbad /dev/null")
    patch = checksum_patch(rng, 0xffb0, "valid")
    cmds.append(f"file {path} {0x20000} 2 4 " + " ".join(f"{o} {b}" for o, b in patch))
    cmds.append("load")
    cmds.append(f"savebad {c.work}/no-such-dir/x.sfc")
    cmds.append(f"savebad {c.work}")
    cmds.append("savebad /dev/full")
    cmds.append(f"save {path}.out")
    ans = drive(c, exe, cmds, "C05")
    if os.path.exists(path):
        os.unlink(path)
    c.notes["files"] = n
    c.notes["accepted"] = sum(a["op"] == "load" and a["ok"] for a in ans)
    c.sample([a for a in ans if a["op"] == "load"][0])
    c.sample([a for a in ans if a["op"] == "file"][3])
    c.assumptions.append("files below 8 MiB; which mapping a file got is observed through reads")
    return c.finish()


def c06():
    c = Check("C06")
    # 0x008000/0x808000 and 0x00ffff/0x80ffff mirror each other in LoROM; the
    # last two lie at the end of a 64 KiB image and past it / in unmapped space
    lo = "32768, 8421376, 65535, 98303, 131071, 131072"
    hi = "12582912, 4194304, 12648447, 12648446, 8421376, 8454143"
    t1 = c.model("MCRom", MCROM.format("lo", lo, 3, 1, 65536), label="MCRom-lo")
    c.model("MCRom", MCROM.format("hi", hi, 2, 3 if c.thorough else 2, 65536), label="MCRom-hi")
    exe = c.b.driver("rom_drv", STEMS)
    # behaviours of the model replayed on the real sink, saved and compared
    cmds, plan = [], []
    for mode, starts, nw, ml in (("lo", lo, 2, 2), ("hi", hi, 2, 1), ("exhi", hi, 2, 1)):
        t = tlc("MCRom", MCROM.format(mode, starts, nw, ml, 65536) +
                "ACTION_CONSTRAINT Emit\n", label=f"MCRom-emit-{mode}")
        bs = t.printed("TR")
        if t.rc or not bs:
            raise CheckError(t.out[-3000:])
        c.rng.shuffle(bs)
        for b in bs[:c.pick(250, 4000)]:
            cmds.append(begin(mode, 0, 65536, 1))
            for w in b["h"]:
                cmds.append(f"write {w['a']} {len(w['d'])} " + " ".join(map(str, w["d"])))
            cmds.append(f"save {c.work}/out.bin")
            plan.append((b, len(cmds)))
    ans, crash = run_driver(exe, cmds, 400, cwd=c.work)
    report(c, ans, cmds, [], crash)
    for b, end in plan:
        if end > len(ans):
            break
        got = ans[end - 1 - len(b["h"]):end]
        if [g["ok"] for g in got[:-1]] != [w["ok"] for w in b["h"]] or \
                sorted(map(tuple, got[-1]["diff"])) != sorted(map(tuple, b["diff"])) or \
                got[-1]["size"] != 65536 or not got[-1]["ok"]:
            c.violation(f"C06: model behaviour {json.dumps(b)[:300]} gave {json.dumps(got)[:300]}",
                        show(got))
            if len(c.violations) > 3:
                break
    c.traces += len(plan)
    c.log(f"replayed {len(plan)} model behaviours")
    c.sample(plan[0][0])
    # random histories
    rng, cmds = c.rng, []
    path = os.path.join(c.work, "f.sfc")
    for case in range(c.pick(45, 300)):
        mode = rng.choice(["lo", "hi", "exhi"])
        size = rng.choice([s for s in SIZES[mode] if s >= 0x8000])
        if not c.thorough and size > 0x100000 and rng.random() < 0.7:
            size = rng.choice([0x10000, 0x18000, 0x20000, 0x12345])
        if case % 4 == 0:        # through a file with or without header
            fsize = rng.choice([0x10000, 0x20000, 0x30000]) + rng.choice([0, 512])
            which = rng.choice(["lo", "hi"])
            patch = checksum_patch(rng, 0x7fb0 if which == "lo" else 0xffb0, "valid")
            cmds.append(f"file {path} {fsize} {rng.randrange(40)} 4 " +
                        " ".join(f"{o} {b}" for o, b in patch))
            cmds.append("load")
            mode, size = which, fsize & ~0xfff
        else:
            cmds.append(begin(mode, rng.choice([0, 512]), size, rng.randrange(50)))
        hot = [some_addr(rng, mode, size) for _ in range(6)]
        for i in range(rng.choice([1, 5, 20, 40])):
            a = rng.choice(hot) if rng.random() < 0.6 else some_addr(rng, mode, size)
            if rng.random() < 0.3:
                a ^= 0x800000            # a mirror in LoROM and HiROM
            a = advance(a, rng.choice([0, 0, 0, 1, 2, -1, -2]))
            n = rng.choice([1, 1, 2, 3, 4, 5, 8, 0, rng.randrange(1, 60)])
            cmds.append(f"write {a} {n} " + " ".join(
                str(rng.choice([0, 255, rng.randrange(256)])) for _ in range(n)))
            if rng.random() < 0.1:
                cmds.append(f"save {c.work}/out.bin")
        cmds.append(f"save {c.work}/out.bin")
        # the loaded ROM itself is not affected by the patching
        cmds.append(f"read {a} 3")
    ans = drive(c, exe, cmds, "C06-random")
    c.sample([a for a in ans if a["op"] == "write"][3])
    c.notes["writes"] = sum(a["op"] == "write" for a in ans)
    c.notes["failed_writes"] = sum(a["op"] == "write" and not a["ok"] for a in ans)
    return c.finish()


def c07():
    c = Check("C07")
    c.model("MCRomMap", MAPLAWS)
    exe = c.b.driver("rom_drv", STEMS)
    rng, cmds = c.rng, []
    for case in range(c.pick(60, 400)):
        mode = rng.choice(["lo", "hi", "exhi"])
        size = rng.choice(SIZES[mode])
        if not c.thorough and size > 0x100000 and rng.random() < 0.7:
            size = rng.choice([0x10000, 0x18000, 0x20000, 0x12345])
        k = rng.randrange(50)
        cmds.append(begin(mode, rng.choice([0, 512]), size, k))
        for i in range(c.pick(30, 60)):
            a = some_addr(rng, mode, size)
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 16, rng.randrange(1, 120)])
            d = [pattern(k, mapaddr(mode, advance(a, j)) if mapaddr(mode, advance(a, j)) >= 0
                         else 0) for j in range(n)]
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                if n:
                    j = rng.choice([0, n - 1, rng.randrange(n)])
                    d[j] ^= rng.choice([1, 0x80, 0x10, 0xff])
            cmds.append(f"compare {a} {n} " + " ".join(map(str, d)))
    # a whole bank, wrapped
    for mode, size, a in (("hi", 0x20000, 0xc10003), ("lo", 0x20000, 0x818000)):
        cmds.append(begin(mode, 0, size, 9))
        for n, flip in ((0x8000, None), (0x8000, 0x7fff), (0xffff, 0xfffe), (0x10000, None)):
            d = [pattern(9, max(0, mapaddr(mode, advance(a, j)))) for j in range(n)]
            if flip is not None:
                d[flip] ^= 4
            cmds.append(f"compare {a} {n} " + " ".join(map(str, d)))
    ans = drive(c, exe, cmds, "C07")
    cs = [a for a in ans if a["op"] == "compare"]
    c.notes["writes"] = len(cs)
    c.notes["accepted"] = sum(a["ok"] for a in cs)
    c.notes["refused_naming_a_byte"] = sum(bool(a["at"]) for a in cs)
    c.sample(next(a for a in cs if a["at"] and len(a["bytes"]) < 20))
    return c.finish()


LINE = re.compile(r"^\.(db|dw|dl)\s+(\S.*)$")


def parse_dump(out):
    """stdout -> origin, lines, leftover text.  Purely lexical."""
    org, lines, rest = -1, [], []
    for t in out.split("\n"):
        if not t.strip():
            continue
        m = re.match(r"^\.org\s+\$([0-9a-f]{6,})$", t)
        g = LINE.match(t)
        if m and org == -1 and not lines:
            org = int(m[1], 16)
        elif g:
            w = {"db": 1, "dw": 2, "dl": 3}[g[1]]
            vals = [v.strip() for v in g[2].split(",")]
            if all(re.fullmatch(r"\$[0-9a-f]{%d}" % (2 * w), v) for v in vals):
                lines.append([w, [int(v[1:], 16) for v in vals]])
            else:
                rest.append(t)
        else:
            rest.append(t)
    return org, lines, "\n".join(rest)


def c11():
    c = Check("C11")
    c.model("MCRomMap", MAPLAWS)
    exe = c.b.driver("rom_drv", STEMS)
    dump = c.b.driver("quick_dump", STEMS, main=f"{REPO}/util/quick_dump.cc")
    rng = c.rng
    cmds, runs = [], []
    for case in range(c.pick(14, 80)):
        which = "none" if case == 3 else rng.choice(["lo", "hi", "hi"])
        fsize = rng.choice([0x10000, 0x20000, 0x30000]) + rng.choice([0, 0, 512])
        if case == 5:
            fsize, which = 0x401000, "hi"
        if case == 7:
            fsize = 0x10300
        k = rng.randrange(40)
        patch = checksum_patch(rng, 0x7fb0, "valid" if which == "lo" else "none") + \
            checksum_patch(rng, 0xffb0, "valid" if which == "hi" else "none")
        path = os.path.join(c.work, f"d{case}.sfc")
        cmds.append(f"file {path} {fsize} {k} {len(patch)} " +
                    " ".join(f"{o} {b}" for o, b in patch))
        cmds.append("load")
        mode = "exhi" if fsize > 0x400200 else which if which != "none" else "lo"
        args = []
        for i in range(c.pick(22, 60)):
            a = some_addr(rng, mode, fsize & ~0xfff)
            stride = rng.choice([1, 2, 3, 2, 3, 0, 4, -1, None])
            per = rng.choice([None, 1, 2, 3, 4, 7, 8, 16, 0, -3, 100]) if stride is not None else None
            count = rng.choice([1, 2, 3, 7, 8, 9, 16, 17, 24, 40, 0, -2, 5, 64])
            if i == 0 and case < 3:
                count = 3000
            args.append((a, count, stride, per, rng.choice(["%x", "%06X", "0x%x"])))
        runs.append((path, args))
    ans, crash = run_driver(exe, cmds, 300, cwd=c.work)
    if crash:
        raise CheckError("rom_drv: " + crash.why + crash.stderr)
    jobs = [(p, a) for p, args in runs for a in args]

    def one(job):
        p, (a, n, s, per, fmt) = job
        argv = [dump, p, fmt % a, str(n)]
        if s is not None:
            argv.append(str(s))
        if per is not None:
            argv.append(str(per))
        return argv, run_prog(argv, timeout=60)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    events, origin = [], {}
    it = iter(res)
    for i, (p, args) in enumerate(runs):
        events += ans[2 * i:2 * i + 2]
        for (a, n, s, per, fmt) in args:
            argv, (rc, out, err) = next(it)
            org, lines, rest = parse_dump(out)
            # events of one ROM are judged independently of each other
            events.append(dict(ans[2 * i]))
            events.append({"op": "dump", "addr": a, "count": n,
                           "stride": 1 if s is None else s, "per": 8 if per is None else per,
                           "rc": rc if isinstance(rc, int) else -1, "org": org,
                           "lines": lines if not (rest and rc == 0) else [[0, []]],
                           "said": bool(rest.strip()) or bool(err.strip())})
            events[-2]["op"] = "file"
            events.insert(len(events) - 1, dict(ans[2 * i + 1]))
            origin[len(events)] = (argv, rc, out, err)
    bad = c.validate("TraceRom", events, label="C11")
    for m in bad[:4]:
        argv, rc, out, err = origin[m["l"]]
        c.violation(f"C11: {' '.join(argv[1:])} exits {rc} printing {out[:200]!r}; "
                    f"specification: {json.dumps(m['want'])[:200]}",
                    f"{argv}\nexit {rc}\nstdout:\n{out[:3000]}\nstderr:\n{err[:2000]}\n"
                    f"specification wants {json.dumps(m['want'])[:3000]}\n"
                    f"ROM: {json.dumps(events[m['l'] - 3])}")
    # no ROM, directory, missing arguments
    for argv, want in (([dump, f"{c.work}/none.sfc", "8000", "4"], 1),
                       ([dump, c.work, "8000", "4"], 1), ([dump], 1), ([dump, runs[0][0]], 1),
                       ([dump, runs[0][0], "8000"], 1), ([dump, runs[0][0], "", "4"], 1),
                       ([dump, runs[0][0], "zz", "4"], 1), ([dump, runs[0][0], "1008000", "4"], 1),
                       ([dump, runs[0][0], "8000", "x"], 1), ([dump, runs[0][0], "8000", ""], 1),
                       ([dump, runs[0][0], "8000", "4", "x"], 1), ([dump, runs[0][0], "8000", "4", "1", ""], 1)):
        rc, out, err = run_prog(argv)
        org, lines, rest = parse_dump(out)
        if rc != want or lines or org != -1 or not (rest.strip() or err.strip()):
            c.violation(f"C11: {argv[1:]} exits {rc} printing {out[:200]!r}", out + err)
    for p, _ in runs:
        os.unlink(p)
    ds = [e for e in events if e["op"] == "dump"]
    c.traces += len(ds)
    c.notes["dumps"] = len(ds)
    c.notes["failing_dumps"] = sum(e["rc"] == 1 for e in ds)
    c.sample({k: v for k, v in next(e for e in ds if len(e["lines"]) in (2, 3)).items()})
    c.assumptions.append("start addresses are below 2^24; counts up to 3000")
    return c.finish()
