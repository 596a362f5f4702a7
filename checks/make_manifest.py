#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after a change)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CHECKS = {
 "C01": ("TLC state graph of Ranges.tla replayed transition by transition on the class, and recorded random histories validated by TraceRanges.tla",
         "Exhaustive for two model banks of four cells (replayed at three address layouts); random full-size histories beyond. Trusts TLC and the driver's projection (return value, chunk list, membership)."),
 "C02": ("TLC-enumerated insertion histories replayed on the class, and recorded histories validated by TraceRanges.tla",
         "Exhaustive for all histories of 2-3 insertions of arbitrary sets over 4-6 cells; random full-size histories beyond."),
 "C03": ("map laws model-checked per half bank; the code swept over all 2^24 addresses x 3 modes, each run validated by TraceRom.tla",
         "Exhaustive over all addresses and modes on the code side."),
 "C04": ("recorded reads validated by TraceRom.tla against Rom.tla",
         "Sampled ROM sizes, addresses and lengths, biased to bank ends, image ends and lengths around a bank; images follow one position-dependent pattern."),
 "C05": ("generated ROM files loaded, probed and saved by the code; traces validated by TraceRom.tla",
         "All header x checksum placements at two sizes, sampled others; unreadable inputs and unwritable outputs included."),
 "C06": ("TLC-enumerated write histories replayed, random histories validated by TraceRom.tla against the overlay model",
         "Model histories exhaustive for 2-3 short writes over edge addresses; random histories up to 40 writes; run under AddressSanitizer."),
 "C07": ("recorded comparing writes validated by TraceRom.tla",
         "Sampled contents, with zero, one or several altered bytes at edges and wraps."),
 "C11": ("runs of the real tool on generated ROMs validated by TraceRom.tla (TDump)",
         "Sampled ROMs and arguments incl. failing reads; stdout is parsed lexically, the oracle is the specification."),
 "C08": ("print/parse/enumerate calls of the code validated by TraceNames.tla against Names.tla, whose round-trip laws TLC checks for every item",
         "Every item in every letter case, plus near misses and random strings (thorough: every 3-letter string)."),
 "C09": ("recorded address and coercion calls validated by TraceNumbers.tla at full width; the laws model-checked exhaustively on small words",
         "Laws exhaustive for small word sizes; calls of the code sampled with emphasis on width and bank boundaries."),
 "C10": ("TLC-enumerated histories of attaching and passing on errors replayed, random ones validated by TraceErrors.tla",
         "All histories of 2-3 steps over seven locations; random histories beyond."),
 "C12": ("every merge, setter, exchange, name and convention call of the code on every knowledge state validated by TraceFlags.tla against Flags.tla, whose lattice laws TLC checks for all pairs of states",
         "Exhaustive over the flag states on both sides; texts near every mode name plus random ones."),
 "C13": ("the designed analysis is model-checked against all executions of the modelled processor (MCAnalysis.tla); recorded analyses of the code on instruction sequences are validated by TraceCpu.tla, which runs every described execution beside them",
         "Model: all sequences of 3 (thorough 4) steps. Code: every instruction after every entry state and around saved flags, every 3-step (thorough 4-step) sequence of 18 key instructions, random sequences with joins. The processor model covers mode, widths, carry and the routine's own stack; a jump through BRA/JMP with yields is followed as a call."),
 "C14": ("the designed abstract stack is model-checked against concrete stacks; the explored behaviours are replayed on the class and all recorded answers validated by TraceStack.tla",
         "Model histories of 4 (thorough 5) operations; replayed transition by transition at 3, random histories of up to 25 operations with 4 kept stacks beyond. Register contents are taken as given at the push."),
 "C20": ("the whole opcode table stated independently and model-checked (every opcode, every mode, decode of encode); recorded encodings and decodings of the code validated by TraceIsa.tla",
         "All 256 opcodes under all width knowledge, every mnemonic with every mode, all 8-bit displacements at bank edges; operand values sampled."),
 "C21": ("an executable specification of disassembly (least states over falling through and branching, and every concrete run of the processor over the same bytes), model-checked over all small images with requests and addresses taken in any order (MCDisasm); those and generated memory images with several requests are disassembled by the code in several orders and TraceDisasm.tla validates every result, state, suffix, label, far target and refusal",
         "Up to three requests per image, images of up to about sixty instructions; processor runs are explored up to 1200 states and four stack bytes."),
 "C22": ("listings the real tool prints for generated cartridges are assembled by the code; TraceBack.tla derives from the cartridge alone which listings must be accepted and which cells they must produce, and assembles the listing in the model beside the code",
         "Up to three requests per cartridge of up to about sixty instructions, LoROM and HiROM. Two kinds of listing are known to be refused (known findings)."),
 "C23": ("the grammar is written as an executable specification (tokens, expressions, operand forms, statements); its read-back laws are model-checked, the instruction lines TLC enumerates and generated text are parsed by the code, and TraceSource.tla validates every parse, evaluation and printed form",
         "Every mnemonic x operand form x argument kind; statements, programs lines, damaged lines and token soup sampled. Numbers beyond 31 bits are skipped."),
 "C24": ("the tools as stages over ROM, sources and output are specified in Tools.tla on top of the assembler's and the disassembler's specification; runs of the real tools on generated files, with inputs that cannot be read and outputs that cannot be written or only in part, are validated by TraceTools.tla",
         "Sampled runs; output faults by missing directory, directory, full device and a file size limit at chosen points. Of overlapping mirrors any of the written values is accepted."),
 "C25": ("the straight-line listing is specified as a machine over Disasm.tla and Analysis.tla; every line of the real tool's listings, and of the printed opcode map, is validated by TraceTools.tla",
         "Sampled ROMs and start addresses; banks without an exit are only checked for ending. Whether the last three bytes of readable memory are listed is left open."),
 "C26": ("a listing's rows, entries, labels and states are specified over the reachable code of Disasm.tla, calls followed to closure, owned code left out; following calls is model-checked in every order over small cartridges (MCCalls), which are replayed; every listing of the two real tools for these and generated cartridges and sources is validated by TraceListing.tla",
         "Up to three requests and routines per cartridge; only listings whose code the specification can decode everywhere, without shared bytes, are judged. Names of labels are free."),
 "C15": ("the designed flow analysis (least fixed point over program lines) is model-checked against all executions of small programs and as a work list taken in any order (MCFlow), these programs are replayed; generated programs are assembled by the code and every success, failure, size and byte validated by TraceAsm.tla, which parses, explores and lays out the same source",
         "Executions followed with up to 4 bytes of own stack and 1200 per program; a program the specification can neither show wrong nor accept may fail. Jumps and calls to absolute addresses arrive at declared entry points."),
 "C16": ("laying out is model-checked as a process that writes one byte at a time in every interleaving of the files (MCLayout), its files and generated programs are assembled by the code; labels, layout, bytes and owned ranges validated by TraceAsm.tla, which lays out and encodes the same source",
         "Files of MCLayout: all up to two statements each; beyond them sampled programs over origins at bank ends, overlaps and origin-less ones, with sinks that refuse addresses. Values beyond 31 bits are skipped."),
 "C17": ("looking names up is model-checked as a reader with a stack of open scopes (MCScope), its modules and generated ones of nested scopes are assembled by the code; every resolved value or error validated by TraceAsm.tla",
         "All modules of MCScope up to three statements; sampled nestings to depth 4 over four names in up to three modules, in every file order."),
 "C18": ("linking is model-checked as a process that takes up modules in any order (MCLink), its sets of files and generated sets of up to four dependent modules are assembled by the code in every order; agreement of the orders and of the result with Asm.tla validated by TraceAsm.tla",
         "Sampled dependency graphs, all orders of each."),
 "C19": ("jumps out of the assembled code are model-checked as processors that run from every entry (MCTargets), its files and generated programs are assembled by the code; reported targets, states and conventions validated by TraceAsm.tla against all executions reaching the jumps",
         "All pairs of files of MCTargets; beyond them sampled programs of one or two modules; targets are literal expressions or names declared remote."),
}
NA = {}


def main():
    props = [json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl")]
    checks = []
    for p in props:
        if p in CHECKS:
            t, note = CHECKS[p]
            checks.append({
                "property": p,
                "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                "technique": T + t, "level": "model_checking", "level_note": note})
    na = [{"property": p, "reason": NA.get(p, "check under construction")}
          for p in props if p not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks in /repo: every observation goes through public interfaces, "
                  "program output or files. Headers of the installed abseil are patched in "
                  "a copy under build/ so that all of /repo compiles unmodified."}
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
