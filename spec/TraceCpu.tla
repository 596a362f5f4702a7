------------------------------ MODULE TraceCpu ------------------------------
(* Recorded runs of the code's analysis against the processor: E.s is what the
   code claims after each instruction, E.w the size it gives an immediate
   operand ("b", "w"; "" when none). *)
EXTENDS Cpu, Json, IOUtils
VARIABLES l, bad, runs, slots
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Slots == 0 .. 7
F(t) == [e |-> t[1], m |-> t[2], x |-> t[3], c |-> t[4]]
Ins == [mn |-> E.mn, arg |-> E.arg, ret |-> F(E.ret)]
TraceInit == l = 1 /\ bad = FALSE /\ runs = {} /\ slots = [i \in Slots |-> {}]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Exec1(r) == [entry |-> r.entry, now |-> r.now]
Judge(ok, rs) ==
  IF bad THEN bad' = TRUE
  ELSE IF ok THEN bad' = FALSE
  ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |-> { Exec1(r) : r \in
                   { r \in rs : ~Describes(F(E.s), r.entry, r.now) } }]))
       /\ bad' = TRUE
Begin == /\ Is("begin") /\ runs' = Starts(FromName(E.name)) /\ UNCHANGED slots
         /\ bad' = FALSE
\* an instruction the code accepts here
WidthOk == CASE E.w = "b" -> IF E.x THEN \A r \in runs : r.now.x = 1 ELSE \A r \in runs : r.now.m = 1
             [] E.w = "w" -> IF E.x THEN \A r \in runs : r.now.x = 0 ELSE \A r \in runs : r.now.m = 0
             [] OTHER -> TRUE
Exec == /\ Is("exec") /\ UNCHANGED slots
        /\ runs' = IF ~E.ok THEN runs
                   ELSE IF E.taken THEN UNION { Taken(r, Ins) : r \in runs }
                   ELSE UNION { Succ(r, Ins) : r \in runs }
        /\ Judge(~E.ok \/ (WidthOk /\ All(F(E.s), runs')), runs')
Save == Is("save") /\ slots' = [slots EXCEPT ![E.k] = runs] /\ UNCHANGED <<runs, bad>>
Load == Is("load") /\ runs' = slots[E.k] /\ UNCHANGED slots /\ bad' = FALSE
Join == /\ Is("join") /\ runs' = runs \union slots[E.k] /\ UNCHANGED slots
        /\ Judge(All(F(E.s), runs'), runs')
TraceNext == Begin \/ Exec \/ Save \/ Load \/ Join
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, runs, slots>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
