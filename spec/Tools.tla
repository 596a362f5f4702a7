------------------------------- MODULE Tools -------------------------------
(* The command line tools (properties C24, C25; util/*.cc).  A run takes its
   arguments through stages - arguments, ROM, sources, assembling or
   disassembling, output - and ends at the first that cannot be done. *)
EXTENDS Asm, Disasm
Range(q) == { q[i] : i \in DOMAIN q }

\* a ROM file: its size with a header, and its contents behind that
HeaderOf(rom) == Cart!HeaderLen(rom.fsize)
MapOf(rom) == IF rom.kind # "file" THEN "none"
              ELSE LET B(o) == IF o \in DOMAIN rom.at THEN rom.at[o] ELSE rom.fill
                   IN Cart!ClassifyBytes(rom.fsize, B)
Memory(rom) == [kind |-> "rom", mode |-> MapOf(rom), size |-> rom.fsize - HeaderOf(rom),
                fill |-> rom.fill, at |-> rom.at]

----------------------------------------------------------------------------
(* Assembling.  What a run must come to: "fail" before it writes anything,
   "write" (or fail if that cannot be done), or "any" when assembling itself
   is not determined. *)
\* what may be at each ROM offset the cells are put at
Values(mem, cells) ==
  TLCEval([o \in { Cell(mem, c[1]) : c \in cells } |-> { c[2] : c \in { d \in cells : Cell(mem, d[1]) = o } }])
Original(mem, o) == IF o \in DOMAIN mem.at THEN mem.at[o] ELSE mem.fill
Fit(mem, cells) == \A c \in cells : Mapped(mem, c[1])
Unchanged(mem, cells) == \A c \in cells : Mapped(mem, c[1]) /\ c[2] = ByteAt(mem, c[1])
\* diff: the pairs of offset and byte by which the file differs from the ROM
Patched(mem, cells, diff) ==
  LET v == Values(mem, cells)
      d == TLCEval([o \in { p[1] : p \in diff } |-> { p[2] : p \in { q \in diff : q[1] = o } }])
  IN /\ DOMAIN d \subseteq DOMAIN v
     /\ \A o \in DOMAIN d : d[o] \subseteq v[o]
     /\ \A o \in DOMAIN v \ DOMAIN d : Original(mem, o) \in v[o]

Sound(args, rom, sources) ==
  args /\ MapOf(rom) # "none" /\ \A s \in Range(sources) : s.ok
Texts(sources) == [i \in DOMAIN sources |-> sources[i].text]
\* r: Assembly of the sources; identity: whether nothing may be changed
Outcome(sound, rom, r, identity) ==
  LET mem == Memory(rom)
      cells == Range(r.cells)
  IN IF ~sound \/ r.must # {} THEN "fail"
     ELSE IF r.exact /\ ~(IF identity THEN Unchanged(mem, cells) ELSE Fit(mem, cells)) THEN "fail"
     ELSE IF ~r.exact \/ r.may # {} THEN "any"
     ELSE "write"

----------------------------------------------------------------------------
(* Disassembling from requests.  A run that lists nothing has failed. *)
Hopeless(mem, ents) == \A e \in ents : ~InsAt(mem, e[1], e[2].m, e[2].x).ok

(* The straight-line disassembler: one instruction after the other under the
   state the one before leaves; after an exit it goes on only at a place some
   listed branch leads to, with the state the last such branch had. *)
Row(a, ins, s, t) == [a |-> a, ins |-> ins, says |-> Show(s.f), to |-> t]
Ended(rc, open, lines) == [rc |-> rc, open |-> open, lines |-> lines]
RECURSIVE Straight(_, _, _, _, _, _)
Straight(mem, a, s, jumps, seen, lines) ==
  LET bytes == Fetch(mem, a)
      ins == Decode(bytes, s.f.m, s.f.x)
      op == OpOf(ins, a, <<>>)
      t == NearOf(ins, a)
      after == TLCEval(Ana!Exec(s, op))
      known == TLCEval(IF t < 0 THEN jumps ELSE (t :> Ana!ExecTaken(s, op)) @@ jumps)
      next == Past(ins, a)
      more == TLCEval(Append(lines, Row(a, ins, after, t)))
  IN IF a \in seen THEN Ended(0, FALSE, lines)
     ELSE IF ~ins.ok THEN Ended(1, FALSE, lines)
     \* whether the last few bytes of memory are looked at is left open
     ELSE IF Len(bytes) < 4 THEN Ended(1, TRUE, lines)
     ELSE IF ~Leaves(op) THEN Straight(mem, next, after, known, seen \union {a}, more)
     ELSE IF next \in DOMAIN known THEN Straight(mem, next, known[next], known, seen \union {a}, more)
     ELSE Ended(0, FALSE, more)
StraightFrom(mem, a, f) == Straight(mem, a, Ana!Enter(f), <<>>, {}, <<>>)

\* what a line of text says is the instruction
Reads(text, ins) ==
  LET p == ParseLine(text)
      e == p.es[1]
  IN IF ins.mode \in {"rel8", "rel16"} THEN text = ins.mn \o " " \o ToString(ins.a) ELSE
     /\ p.ok /\ Len(p.es) = 1 /\ e.k = "ins" /\ e.name = ins.mn
     /\ e.mode = ins.mode \/ (ins.mode \in {"immb", "immw"} /\ e.mode \in {"immm", "immx"})
     /\ Bytes(ins.mode) = 0 \/ (Eval(e.a, NoLook).st = "ok" /\ Eval(e.a, NoLook).v = ins.a)
     /\ ins.mode # "mov" \/ Eval(e.b, NoLook).v = ins.b

----------------------------------------------------------------------------
(* The opcode map: each opcode with its operand form *)
Shape(m, v, w) ==
  CASE m \in {"imp", "acc"} -> ""
    [] m \in {"immb", "immw", "immm", "immx"} -> " #" \o v
    [] m \in {"dirb", "dirw", "dirl", "rel8", "rel16"} -> " " \o v
    [] m \in {"dirbx", "dirwx", "dirlx"} -> " " \o v \o ", X"
    [] m \in {"dirby", "dirwy"} -> " " \o v \o ", Y"
    [] m \in {"indb", "indw"} -> " (" \o v \o ")"
    [] m \in {"indbx", "indwx"} -> " (" \o v \o ", X)"
    [] m = "indby" -> " (" \o v \o "), Y"
    [] m \in {"lngb", "lngw"} -> " [" \o v \o "]"
    [] m = "lngby" -> " [" \o v \o "], Y"
    [] m = "stk" -> " " \o v \o ", S"
    [] m = "stky" -> " (" \o v \o ", S), Y"
    [] m = "mov" -> " #" \o v \o ", #" \o w
MapLine(op, v, w) ==
  LET t == ByCode[op]
  IN t[1] \o (IF t[2] \in {"immm", "immx"} THEN ".b" ELSE "") \o Shape(t[2], v, w)
=============================================================================
