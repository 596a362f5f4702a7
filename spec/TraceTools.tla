---------------------------- MODULE TraceTools -----------------------------
(* Recorded runs of the command line tools *)
EXTENDS Tools, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
RomOf(e) == [kind |-> e.rom.kind, fsize |-> e.rom.fsize, fill |-> e.rom.fill,
             at |-> TLCEval([o \in { p[1] : p \in Range(e.rom.patch) } |->
                               (CHOOSE p \in Range(e.rom.patch) : p[1] = o)[2]])]
Verdict(v) == PrintT("VERDICT " \o ToJson(v))
Report(p, want) ==
  p # {} => PrintT("MISMATCH " \o ToJson([l |-> l, want |-> [problems |-> p, spec |-> ToString(want)]]))

\* quick_assemble.  e.out: "-", "path", "asm" (a name not taken) or "shut"
\* (cannot be written in full); e.left: what is at the path afterwards
JudgeAssemble(e) ==
  LET rom == RomOf(e)
      identity == e.out = "-"
      sound == Sound(e.args, rom, e.sources) /\ e.out # "asm"
      r == IF sound THEN Assembly(Texts(e.sources)) ELSE Reasons({"arguments"}, {})
      o == Outcome(sound, rom, r, identity)
      want == IF o = "write" /\ e.out = "shut" THEN "fail" ELSE o
      p == (IF want = "fail" /\ e.rc = 0 THEN {"success"} ELSE {})
           \union (IF want = "write" /\ e.rc # 0 THEN {"failure"} ELSE {})
           \union (IF e.rc \notin {0, 1} THEN {"status"} ELSE {})
           \union (IF e.rc # 0 /\ ~e.said THEN {"no reason"} ELSE {})
           \* nothing is touched before the assembly is known to be good
           \union (IF o = "fail" /\ ~e.left.same THEN {"touched"} ELSE {})
           \union (IF identity /\ ~e.left.same THEN {"touched"} ELSE {})
           \union (IF e.rc = 0 /\ ~identity /\ ~(e.left.file /\ e.left.head /\ e.left.size = rom.fsize)
                   THEN {"output"} ELSE {})
           \union (IF e.rc = 0 /\ ~identity /\ e.left.file /\ r.exact
                      /\ ~Patched(Memory(rom), Range(r.cells), Range(e.left.diff))
                   THEN {"contents"} ELSE {})
           \union (IF e.rc = 0 /\ identity /\ r.exact /\ Range(e.targets) # Targets(r) THEN {"targets"} ELSE {})
  IN Verdict([want |-> want, must |-> r.must]) /\ Report(p, [want |-> want, must |-> r.must, may |-> r.may, cells |-> r.cells])

\* quick_disassemble.  e.good: the arguments are addresses and modes.  e.whole:
\* all there is to find is small enough to be looked at here
JudgeDisassemble(e) ==
  LET rom == RomOf(e)
      mem == Memory(rom)
      sound == e.good /\ MapOf(rom) # "none" /\ \A q \in Range(e.reqs) : q.ind => Mapped(mem, q.a) /\ Mapped(mem, Wrap(q.a, 1))
      at(q) == IF q.ind THEN ByteAt(mem, q.a) + 256 * ByteAt(mem, Wrap(q.a, 1)) ELSE q.a
      first == { i \in DOMAIN e.reqs : ~\E j \in 1 .. i - 1 : at(e.reqs[j]) = at(e.reqs[i]) }
      ents == { <<at(e.reqs[i]), e.reqs[i].f>> : i \in first }
      st == IF e.whole THEN TLCEval(Program(mem, <<>>, ents)) ELSE <<>>
      want == IF ~sound THEN "fail"
              ELSE IF Hopeless(mem, ents) THEN "fail"
              ELSE IF e.whole /\ \A a \in DOMAIN st : Here(mem, st, a).ok THEN "list"
              ELSE "any"
      p == (IF want = "fail" /\ e.rc = 0 THEN {"success"} ELSE {})
           \union (IF want = "list" /\ e.rc # 0 THEN {"failure"} ELSE {})
           \union (IF e.rc \notin {0, 1} THEN {"status"} ELSE {})
           \union (IF e.rc # 0 /\ ~e.said THEN {"no reason"} ELSE {})
           \union (IF (e.rc = 0) # (e.listed > 0) THEN {"nothing listed"} ELSE {})
           \* every listed address is one found, and the entries are entries
           \union (IF want = "list" /\ ~Range(e.at) \subseteq DOMAIN st THEN {"addresses"} ELSE {})
  IN Verdict([want |-> want, must |-> {}]) /\ Report(p, [want |-> want, ents |-> ents])

\* disassemble_more: assembles, compares, disassembles from the jump targets
JudgeMore(e) ==
  LET rom == RomOf(e)
      mem == Memory(rom)
      sound == Sound(e.args, rom, e.sources)
      r == IF sound THEN Assembly(Texts(e.sources)) ELSE Reasons({"arguments"}, {})
      o == Outcome(sound, rom, r, TRUE)
      \* opcodes whose length no mode changes
      plain(a) == Mapped(mem, a) /\ InsAt(mem, a, "unk", "unk").ok
      want == IF o = "fail" THEN "fail"
              ELSE IF r.exact /\ \A t \in Targets(r) : ~InsAt(mem, t, "on", "on").ok THEN "fail"
              ELSE "any"
      p == (IF want = "fail" /\ e.rc = 0 THEN {"success"} ELSE {})
           \union (IF e.rc \notin {0, 1} THEN {"status"} ELSE {})
           \union (IF e.rc # 0 /\ ~e.said THEN {"no reason"} ELSE {})
           \union (IF (e.rc = 0) # (e.listed > 0) THEN {"nothing listed"} ELSE {})
           \* what the sources assembled is not where a listing starts
           \union (IF e.rc = 0 /\ r.exact /\ Targets(r) \intersect Range(e.entries) = {} THEN {"entries"} ELSE {})
  IN Verdict([want |-> IF want = "any" /\ e.rc = 0 THEN "list" ELSE want, must |-> r.must])
     /\ Report(p, [want |-> want, must |-> r.must, may |-> r.may])

JudgeStraight(e) ==
  LET rom == RomOf(e)
      mem == Memory(rom)
      q == e.reqs[1]
      sound == e.good /\ MapOf(rom) # "none"
      w == IF ~sound THEN Ended(1, FALSE, <<>>)
           ELSE IF e.whole THEN TLCEval(StraightFrom(mem, q.a, q.f)) ELSE Ended(e.rc, TRUE, <<>>)
      n == Len(w.lines)
      p == (IF ~w.open /\ (e.rc # w.rc \/ Len(e.lines) # n) THEN {"end"} ELSE {})
           \union (IF e.rc \notin {0, 1} THEN {"status"} ELSE {})
           \union (IF e.rc # 0 /\ ~e.said THEN {"no reason"} ELSE {})
           \union (IF Len(e.lines) < n THEN {"missing"}
                   ELSE UNION { (IF e.lines[i].a # w.lines[i].a THEN {"address"} ELSE {})
                                \union (IF ~Reads(e.lines[i].text, w.lines[i].ins) THEN {"instruction"} ELSE {})
                                \union (IF e.lines[i].says # w.lines[i].says THEN {"state"} ELSE {})
                                \union (IF e.lines[i].to # w.lines[i].to THEN {"branch target"} ELSE {})
                                : i \in 1 .. n })
  IN Verdict([want |-> IF sound /\ n > 0 THEN "list" ELSE "fail", must |-> {}]) /\ Report(p, w)

JudgeMap(e) ==
  LET p == { i \in 0 .. 255 : Len(e.lines) # 256 \/ e.lines[i + 1] # [op |-> i, text |-> MapLine(i, e.v, e.w)] }
  IN Verdict([want |-> "map", must |-> {}]) /\ Report(p, IF p = {} THEN "" ELSE MapLine(CHOOSE i \in p : TRUE, e.v, e.w))

Judge == CASE E.op = "assemble" -> JudgeAssemble(E)
           [] E.op = "disassemble" -> JudgeDisassemble(E)
           [] E.op = "more" -> JudgeMore(E)
           [] E.op = "straight" -> JudgeStraight(E)
           [] E.op = "map" -> JudgeMap(E)
Judged == l > Len(Trace) \/ E.op = "begin" \/ Judge
TraceInit == l = 1
TraceSpec == TraceInit /\ [][l <= Len(Trace) /\ l' = l + 1]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
