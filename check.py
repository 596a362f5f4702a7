#!/usr/bin/env python3
"""check.py <property id>: runs one check.  VERIF_TIER, VERIF_SEED as usual."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
WHERE = {
    "C01": "ranges", "C02": "ranges",
    "C03": "rom", "C04": "rom", "C05": "rom", "C06": "rom", "C07": "rom", "C11": "rom",
    "C12": "flow", "C13": "flow", "C14": "flow",
    "C20": "asm", "C23": "asm", "C21": "disassemble", "C22": "disassemble", "C26": "disassemble",
    "C24": "tools", "C25": "tools", "C15": "assemble", "C16": "assemble", "C17": "assemble", "C18": "assemble", "C19": "assemble",
    "C08": "basics", "C09": "basics", "C10": "basics",
}


def main():
    pid = sys.argv[1]
    if pid == "setup":
        import vlib
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        for tool in (["g++", "--version"], ["ninja", "--version"], ["java", "-version"]):
            if vlib.sh(tool).returncode:
                print("missing tool:", tool[0])
                return 2
        vlib.Build()          # patched abseil headers
        return 0
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        mod = importlib.import_module(WHERE[pid])
        return getattr(mod, pid.lower())()
    except Exception:
        import vlib
        c = vlib.Check.current
        if c is not None and c.violations:
            # what was found stands, whatever went wrong afterwards
            return c.finish()
        traceback.print_exc()
        print(f"{pid}: the check could not run (error exit, not a verdict)")
        return 2


sys.exit(main())
