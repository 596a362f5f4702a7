------------------------------- MODULE Disasm -------------------------------
(* Disassembling (property C21; nsasm/disassemble.cc).  Memory holds bytes; a
   request names an address and what is known of the status there.  Code is
   whatever falling through and branching reaches from the requests granted so
   far, decoded under the widths that hold there.  A request is granted if all
   of it can be decoded; otherwise nothing changes. *)
EXTENDS Isa, Cpu
Ana == INSTANCE Analysis

\* memory: either some banks from an offset on, with one byte everywhere but
\* where at says otherwise, or a cartridge, where at goes by ROM offset
Cart == INSTANCE Mapping
Mapped(mem, a) == IF mem.kind = "rom" THEN LET o == Cart!MapAddr(mem.mode, a) IN o # Cart!NoRom /\ o < mem.size
               ELSE BankOf(a) \in mem.banks /\ OffOf(a) >= mem.low
Cell(mem, a) == IF mem.kind = "rom" THEN Cart!MapAddr(mem.mode, a) ELSE a
ByteAt(mem, a) == IF Cell(mem, a) \in DOMAIN mem.at THEN mem.at[Cell(mem, a)] ELSE mem.fill
\* as many of the next four bytes as can be read
Fetch(mem, a) == LET have == { n \in 0 .. 4 : \A i \in 1 .. n : Mapped(mem, Wrap(a, i - 1)) }
                     most == CHOOSE n \in have : \A k \in have : k <= n
                 IN [i \in 1 .. most |-> ByteAt(mem, Wrap(a, i - 1))]
\* the instruction at a when the widths are as given
InsAt(mem, a, mbit, xbit) == Decode(Fetch(mem, a), mbit, xbit)
Bit01(n) == IF n = 1 THEN "on" ELSE "off"

\* absolute destination of a jump or call, or -1
FarOf(ins, a) == CASE ins.mode = "dirw" /\ ins.mn \in {"jmp", "jsr"} -> BankOf(a) * 65536 + ins.a
                   [] ins.mode = "dirl" /\ ins.mn \in {"jmp", "jsl"} -> ins.a
                   [] OTHER -> -1
\* destination of a relative branch, or -1
NearOf(ins, a) == IF ins.mode \in {"rel8", "rel16"} /\ ins.mn # "per"
                  THEN Wrap(a, Length(ins.mode) + ins.a) ELSE -1
\* the instruction as the processor model and the analysis see it; conv gives
\* the return conventions of known subroutines
OpOf(ins, a, conv) ==
  LET t == FarOf(ins, a)
  IN [mn |-> ins.mn, arg |-> IF ins.mn \in {"rep", "sep"} THEN ins.a ELSE -1,
      ret |-> IF ins.mn \in {"jsr", "jsl"} /\ t \in DOMAIN conv THEN conv[t] ELSE Default]
Past(ins, a) == Wrap(a, Length(ins.mode))

----------------------------------------------------------------------------
(* The designed analysis: the least states at each address *)
Here(mem, st, a) == InsAt(mem, a, st[a].f.m, st[a].f.x)
Edges(mem, conv, a, s) ==
  LET ins == InsAt(mem, a, s.f.m, s.f.x)
      op == OpOf(ins, a, conv)
      t == NearOf(ins, a)
  IN IF ~ins.ok THEN {}
     ELSE (IF Leaves(op) THEN {} ELSE {<<Past(ins, a), Ana!Exec(s, op)>>})
          \union (IF t < 0 THEN {} ELSE {<<t, Ana!ExecTaken(s, op)>>})
RECURSIVE Fix(_, _, _, _), Absorb(_, _, _)
\* st with the contributions of todo; also which addresses changed
Absorb(st, set, changed) ==
  IF set = {} THEN [st |-> st, changed |-> changed]
  ELSE LET c == CHOOSE c \in set : TRUE
           new == IF c[1] \in DOMAIN st THEN Ana!AMerge(st[c[1]], c[2]) ELSE c[2]
       IN IF c[1] \in DOMAIN st /\ new = st[c[1]] THEN Absorb(st, set \ {c}, changed)
          ELSE Absorb(TLCEval([x \in DOMAIN st \union {c[1]} |-> IF x = c[1] THEN new ELSE st[x]]),
                      set \ {c}, changed \union {c[1]})
Fix(mem, conv, st, todo) ==
  IF todo = {} THEN st
  ELSE LET r == Absorb(st, UNION { Edges(mem, conv, a, st[a]) : a \in todo }, {})
       IN Fix(mem, conv, r.st, r.changed)
\* the states when all of these requests are granted
Wanted(mem, conv, ents) ==
  LET r == Absorb(<<>>, { <<e[1], Ana!Enter(e[2])>> : e \in ents }, {}) IN Fix(mem, conv, r.st, r.changed)
Decodable(mem, st) == \A a \in DOMAIN st : Here(mem, st, a).ok

\* the same when far targets that can be read are requests in their turn, made
\* with what is known where they are called from: the least that may be known.
\* (What is not known may have been different earlier, when the target was first
\* called: it counts as different on different ways, not as unchanged.)
Changing(f) == LET u(b) == IF b = "orig" THEN "unk" ELSE b IN [e |-> u(f.e), m |-> u(f.m), x |-> u(f.x), c |-> "unk"]
Calls1(mem, a, s) ==
  LET ins == InsAt(mem, a, s.f.m, s.f.x)
      t == FarOf(ins, a)
  IN IF ~ins.ok \/ t < 0 \/ ~Mapped(mem, t) THEN {} ELSE {<<t, Ana!Abs(Changing(s.f), <<>>, FALSE)>>}
RECURSIVE FixAll(_, _, _, _)
FixAll(mem, conv, st, todo) ==
  IF todo = {} THEN st
  ELSE LET r == Absorb(st, UNION { Edges(mem, conv, a, st[a]) \union Calls1(mem, a, st[a]) : a \in todo }, {})
       IN FixAll(mem, conv, r.st, r.changed)
Program(mem, conv, ents) ==
  LET r == Absorb(<<>>, { <<e[1], Ana!Enter(e[2])>> : e \in ents }, {}) IN FixAll(mem, conv, r.st, r.changed)
\* the bytes of the instructions found
Extent(ins, a) == { Wrap(a, i) : i \in 0 .. Length(ins[a].mode) - 1 }
\* no instruction shares bytes with another or runs on at the start of its bank
Linear(ins) ==
  /\ \A a \in DOMAIN ins : \A i \in 1 .. Length(ins[a].mode) - 1 : Wrap(a, i) > a /\ Wrap(a, i) \notin DOMAIN ins
  /\ \A a \in DOMAIN ins : Past(ins[a], a) < a => Leaves(OpOf(ins[a], a, <<>>))

----------------------------------------------------------------------------
(* All executions from the requests, as pairs of address and run *)
DeepRuns == 4
Steps(mem, conv, a, r) ==
  LET ins == InsAt(mem, a, Bit01(r.now.m), Bit01(r.now.x))
      op == OpOf(ins, a, conv)
      t == NearOf(ins, a)
  IN IF ~ins.ok THEN {}
     ELSE { q \in (IF Leaves(op) THEN {} ELSE { <<Past(ins, a), x>> : x \in Succ(r, op) })
                  \union (IF t < 0 THEN {} ELSE { <<t, x>> : x \in Taken(r, op) }) :
              Len(q[2].stack) <= DeepRuns }
RECURSIVE Roam(_, _, _, _, _)
Roam(mem, conv, many, seen, front) ==
  IF front = {} \/ Cardinality(seen) > many THEN seen
  ELSE LET next == TLCEval(UNION { Steps(mem, conv, p[1], p[2]) : p \in front } \ seen)
       IN Roam(mem, conv, many, TLCEval(seen \union next), next)
Begin(ents) == UNION { { <<e[1], r>> : r \in Starts(e[2]) } : e \in ents }
RunsOf(mem, conv, many, ents) == LET b == Begin(ents) IN Roam(mem, conv, many, b, b)
\* executions that cannot be told apart by one decoding, or leave memory
Clashes(mem, runs) ==
  \/ \E p \in runs : ~Mapped(mem, p[1])
  \/ \E p, q \in runs : p[1] = q[1] /\ Length(InsAt(mem, p[1], Bit01(p[2].now.m), Bit01(p[2].now.x)).mode)
                                       # Length(InsAt(mem, q[1], Bit01(q[2].now.m), Bit01(q[2].now.x)).mode)

----------------------------------------------------------------------------
(* What holds of the code found: ins, the instructions; ents, the requests *)
Labelled(ins, ents) ==
  { e[1] : e \in ents } \union ({ NearOf(ins[a], a) : a \in DOMAIN ins } \ {-1})
FarCalls(ins) == { <<FarOf(ins[a], a), a>> : a \in { b \in DOMAIN ins : FarOf(ins[b], b) >= 0 } }
=============================================================================
