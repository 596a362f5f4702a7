"""C01 and C02: spec/Ranges.tla, spec/RangeMap.tla against nsasm/ranges.*"""
from vlib import *

BANK = 0x10000
TOP = 256 * BANK


def run_and_validate(c, exe, cmds, label, ops_of):
    """Drives cmds, validates the trace, reports mismatches and crashes."""
    ans, crash = run_driver(exe, cmds)
    if crash:
        again, crash2 = run_driver(exe, cmds)
        if crash2:
            k = len(ans)
            i = k
            while i > 0 and cmds[i] != "begin":
                i -= 1
            c.violation(f"{c.id}: the code did not answer '{cmds[k]}': {crash.why}",
                        "\n".join(cmds[i:k + 1]) + "\n" + crash.stderr)
    bad = c.validate("TraceRanges", ans, cfg=CFG, label=label)
    for m in bad[:3]:
        h = history(ans, m["l"])
        c.violation(f"{c.id}: {json.dumps(h[-1])[:300]} -- specification: "
                    f"{json.dumps(m['want'])[:300]}",
                    "history, last call rejected:\n" + show(h) +
                    "\nspecification wants " + json.dumps(m["want"]))
    return ans


CFG = ("CONSTANTS BankSize = 65536 NumBanks = 256\nSPECIFICATION TraceSpec\n"
       "POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n")


def cells(bank_size, num_banks, first_bank, cuts):
    """Address of each model cell boundary: cell boundaries `cuts` per bank."""
    pos = []
    for b in range(num_banks):
        for i in range(bank_size):
            pos.append((first_bank + b) * BANK + cuts[i])
    pos.append((first_bank + num_banks) * BANK)
    return pos


def real_len(loc, n, bs, pos):
    """Length in bytes of a model claim of n cells at cell loc."""
    bank, off = divmod(loc, bs)
    total = 0
    for i in range(n):
        cell = bank * bs + (off + i) % bs
        nxt = pos[cell + 1] if (cell + 1) % bs else (pos[bank * bs] & ~0xffff) + BANK
        total += nxt - pos[cell]
    return total


LAYOUTS = [(0x00, [0, 0x4000, 0x8000, 0xC000]), (0x7E, [0, 1, 0x8000, 0xFFFF]),
           (0xFE, [0, 0x7FFF, 0x8000, 0xFFFE])]


def c01():
    c = Check("C01")
    cfg = ("CONSTANTS BankSize = {} NumBanks = {}\nSPECIFICATION MSpec\nVIEW MView\n"
           "INVARIANT Refines\nPROPERTY StepRight\nPROPERTY Monotone\n"
           "CHECK_DEADLOCK FALSE\n")
    if c.thorough:
        c.model("MCRanges", cfg.format(4, 3), label="MCRanges-4x3")
        c.model("MCRanges", cfg.format(3, 4), label="MCRanges-3x4")
    t = c.model("MCRanges", cfg.format(4, 2) + "ACTION_CONSTRAINT Emit\n",
                workers=1, label="MCRanges-4x2")
    behaviours = t.printed("TR")
    exe = c.b.driver("ranges_drv", ("ranges", "error"))
    # 1. every transition of the model, replayed on the real class
    bs, nb = 4, 2
    for first_bank, cuts in LAYOUTS:
        pos = cells(bs, nb, first_bank, cuts)
        cmds, plan = [], []
        q = [a for i in range(bs * nb) for a in (pos[i], pos[i + 1] - 1)]
        for b in behaviours:
            cmds.append("begin")
            for s in b["h"]:
                if s["op"] == "claim":
                    cmds.append(f"claim {pos[s['a']]} {real_len(s['a'], s['b'], bs, pos)}")
                else:
                    cmds.append(f"chunk {pos[s['a']]} {pos[s['b']]}")
            cmds.append("has " + " ".join(map(str, q)))
            plan.append(len(cmds))
        ans, crash = run_driver(exe, cmds, timeout=200)
        if crash:
            i = len(ans)
            j = i
            while cmds[j] != "begin":
                j -= 1
            c.violation(f"C01: no answer to '{cmds[i]}': {crash.why}",
                        "\n".join(cmds[j:i + 1]) + "\n" + crash.stderr)
        n = 0
        for b, end in zip(behaviours, plan):
            if end > len(ans):
                break
            n += 1
            last, has = ans[end - 2], ans[end - 1]
            want_iv = [[pos[x], pos[y]] for x, y in b["iv"]]
            want_has = [any(x <= a < y for x, y in want_iv) for a in q]
            if last["ret"] != b["r"] or last["chunks"] != want_iv or \
                    [h[1] for h in has["q"]] != want_has:
                k = end - len(b["h"]) - 2
                c.violation(
                    f"C01: after model behaviour {b['h']} the class answers "
                    f"{json.dumps(last)[:300]}; specification: ret {b['r']} chunks {want_iv}",
                    "commands:\n" + "\n".join(cmds[k:end]) + "\nanswers:\n" +
                    show(ans[k:end]))
                if len(c.violations) > 3:
                    break
        c.traces += n
        c.log(f"replayed {n} model behaviours at bank ${first_bank:02x}")
    c.sample({"replayed behaviour": behaviours[len(behaviours) // 2]})
    # 2. random histories at full size, recorded and validated
    rng, cmds = c.rng, []

    def edge(known):
        r = rng.random()
        if known and r < 0.65:
            a = rng.choice(known) + rng.choice([-2, -1, 0, 0, 0, 1, 2])
        elif r < 0.8:
            a = rng.choice([0, 0x7e, 0x7f, 0x80, 0xff, 0xfe, 1, 0x40]) * BANK + \
                rng.choice([0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff])
        else:
            a = rng.randrange(TOP)
        return min(max(a, 0), TOP - 1)

    for case in range(c.pick(70, 500)):
        cmds.append("begin")
        known = []
        dense = rng.random() < 0.5
        base = rng.randrange(256) * BANK + rng.randrange(BANK)
        steps = c.pick(140, 400) if case % 10 == 0 else c.pick(30, 60)
        for _ in range(steps):
            if dense and rng.random() < 0.7:
                loc = min(TOP - 1, base + rng.randrange(0, 400))
                ln = rng.choice([1, 1, 2, 3, 4, 5, 8, rng.randrange(1, 40)])
            else:
                loc = edge(known)
                ln = rng.choice([0, -1, 1, 1, 2, 3, 3, rng.randrange(1, 300),
                                 rng.randrange(1, BANK), 0x10000 - loc % BANK,
                                 0x10001 - loc % BANK, 0xffff - loc % BANK or 1,
                                 0xffff, 0x10000, 0x10001, 0x20000, 0x8000])
                if known and rng.random() < 0.5:   # aim the end at an edge
                    d = (edge(known) - loc)
                    if 0 < d < BANK:
                        ln = d
            if rng.random() < 0.2:
                hi = min(TOP, loc + rng.choice([1, 2, max(1, ln), rng.randrange(1, 3 * BANK)]))
                cmds.append(f"chunk {loc} {hi}")
                known += [loc, hi]
            else:
                cmds.append(f"claim {loc} {ln}")
                known += [loc, (loc // BANK) * BANK + (loc + max(ln, 0)) % BANK]
            if rng.random() < 0.4:
                qs = {edge(known) for _ in range(12)} | \
                     {min(max(k + d, 0), TOP - 1) for k in known[-4:] for d in (-1, 0, 1)}
                cmds.append("has " + " ".join(map(str, sorted(qs))))
        qs = {min(max(k + d, 0), TOP - 1) for k in known for d in (-1, 0)}
        cmds.append("has " + " ".join(map(str, sorted(qs))))
    ans = run_and_validate(c, exe, cmds, "C01-random", None)
    c.sample({"recorded event": ans[len(ans) // 2]})
    c.assumptions.append("replayed and recorded histories start from an empty range set; "
                         "lengths are below 2^31")
    return c.finish()


def c02():
    c = Check("C02")
    cfg = ("CONSTANTS BankSize = {} NumBanks = 2 MaxInserts = {}\nSPECIFICATION MSpec\n"
           "INVARIANT OwnRefines\nINVARIANT Exclusive\nPROPERTY AllOrNothing\n"
           "CHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n")
    sizes = [(2, 3), (3, 2)] + ([(3, 3)] if c.thorough else [])
    exe = c.b.driver("ranges_drv", ("ranges", "error"))
    for bs, n in sizes:
        t = c.model("MCRangeMap", cfg.format(bs, n), workers=1, label=f"MCRangeMap-{bs}-{n}")
        behaviours = t.printed("TR")
        c.sample({"replayed behaviour": behaviours[len(behaviours) // 3]})
        for first_bank, cuts in LAYOUTS[:c.pick(2, 3)]:
            pos = cells(bs, 2, first_bank, cuts)
            q = sorted({a for i in range(bs * 2) for a in
                        (pos[i], pos[i + 1] - 1, (pos[i] + pos[i + 1]) // 2)})
            cmds, plan = [], []
            for b in behaviours:
                cmds.append("begin")
                for i, s in enumerate(b["h"]):
                    parts = []
                    for lo, hi in s["c"]:
                        # build the inserted set out of in-bank claims
                        lo, hi = pos[lo], pos[hi]
                        while lo < hi:
                            e = min(hi, (lo // BANK + 1) * BANK)
                            parts.append((lo, e - lo))
                            lo = e
                    cmds.append(f"insert {i + 1} {len(parts)} " +
                                " ".join(f"{x} {y}" for x, y in parts))
                cmds.append("look " + " ".join(map(str, q)))
                plan.append(len(cmds))
            ans, crash = run_driver(exe, cmds, timeout=200)
            if crash:
                i = len(ans)
                c.violation(f"C02: no answer to '{cmds[i]}': {crash.why}",
                            "\n".join(cmds[max(0, i - 6):i + 1]) + crash.stderr)
            done = 0
            for b, end in zip(behaviours, plan):
                if end > len(ans):
                    break
                done += 1
                k = end - 1 - len(b["h"])
                rets = [a["ret"] for a in ans[k:end - 1]]
                cell = lambda a: max(i for i in range(bs * 2) if pos[i] <= a)
                want = [b["own"][cell(a)] for a in q]
                got = [x[1] for x in ans[end - 1]["q"]]
                con = [x[2] for x in ans[end - 1]["q"]]
                if rets != [s["r"] for s in b["h"]] or got != want or \
                        con != [w != -1 for w in want]:
                    c.violation(f"C02: behaviour {json.dumps(b)[:400]} answered "
                                f"{rets} {got}", "\n".join(cmds[k - 1:end]) + "\n" +
                                show(ans[k:end]))
                    if len(c.violations) > 3:
                        break
            c.traces += done
            c.log(f"replayed {done} model behaviours at bank ${first_bank:02x}")
    rng, cmds = c.rng, []
    for case in range(c.pick(60, 400)):
        cmds.append("begin")
        known, val = [], 0
        base = rng.randrange(255) * BANK + rng.randrange(BANK)
        local = rng.random() < 0.6
        span = rng.choice([60, 300, 3000])
        for _ in range(c.pick(30, 80)):
            parts = []
            for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 0])):
                if local or (known and rng.random() < 0.5):
                    loc = base + rng.randrange(span) if local else \
                        rng.choice(known) + rng.choice([-3, -1, 0, 1])
                    ln = rng.choice([1, 1, 2, 3, 4, rng.randrange(1, 20)])
                else:
                    loc = rng.randrange(TOP)
                    ln = rng.choice([1, 2, 100, 0x8000, 0xffff, 0x10000, 1, 3,
                                     0x10000 - loc % BANK, 0x10002 - loc % BANK])
                loc = min(max(loc, 0), TOP - 1)
                parts.append((loc, ln))
                known += [loc, (loc // BANK) * BANK + (loc + ln) % BANK]
            val += 1
            cmds.append(f"insert {val} {len(parts)} " + " ".join(f"{x} {y}" for x, y in parts))
            if rng.random() < 0.5:
                qs = {min(max(k + d, 0), TOP - 1) for k in known[-6:] + rng.sample(known, min(8, len(known)))
                      for d in (-1, 0, 1)} | {0, TOP - 1, rng.randrange(TOP)}
                cmds.append("look " + " ".join(map(str, sorted(qs))))
        qs = {min(max(k + d, 0), TOP - 1) for k in known for d in (-1, 0)}
        cmds.append("look " + " ".join(map(str, sorted(qs))))
    ans = run_and_validate(c, exe, cmds, "C02-random", None)
    c.sample({"recorded event": ans[1]})
    c.assumptions.append("inserted sets are built by claims on a fresh range set (C01)")
    return c.finish()
