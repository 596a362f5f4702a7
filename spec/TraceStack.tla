----------------------------- MODULE TraceStack -----------------------------
(* Recorded calls of the code's abstract stack: every claim must be true in
   every execution of the recorded history.  A stack given up by the caller
   ("abandon") must answer unknown. *)
EXTENDS Stack, Json, IOUtils
VARIABLES l, bad, cur, slots
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
F(t) == [e |-> t[1], m |-> t[2], x |-> t[3], c |-> t[4]]
New == [runs |-> Fresh, gone |-> FALSE]
TraceInit == l = 1 /\ bad = FALSE /\ cur = New /\ slots = [i \in 0 .. 3 |-> New]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
R == cur.runs
Keep(rs) == cur' = [cur EXCEPT !.runs = rs] /\ UNCHANGED <<slots, bad>>
Judge(ok, rs) ==
  /\ cur' = [cur EXCEPT !.runs = rs] /\ UNCHANGED slots
  /\ IF bad THEN bad' = TRUE
     ELSE IF ok THEN bad' = FALSE
     ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |-> [gone |-> cur.gone, really |->
                { [entry |-> r.entry, top |-> At(r, 0), next |-> At(r, 1)] : r \in R }]]))
          /\ bad' = TRUE
Gone(c) == cur.gone => c.k = "unk"
Rv(p) == [k |-> p[1], v |-> p[2]]
Claim == [k |-> E.k, v |-> E.v, f |-> F(E.f)]
RClaim == [k |-> E.k, v |-> E.v]
Step ==
  \/ Is("begin") /\ cur' = New /\ slots' = [i \in 0 .. 3 |-> New] /\ bad' = FALSE
  \/ Is("pushreg") /\ Keep(PutReg(R, E.reg, Rv(E.rv), E.bit))
  \/ Is("pushbyte") /\ Keep(PutAll(R, <<IF E.n < 0 THEN AnyByte ELSE E.n>>))
  \/ Is("pushword") /\ Keep(PutAll(R, IF E.n < 0 THEN <<AnyByte, AnyByte>>
                                      ELSE <<E.n \div 256, E.n % 256>>))
  \/ Is("pushbank") /\ Keep(PutAll(R, <<CASE E.rv[1] = "val" -> E.rv[2] [] E.rv[1] = "orig" -> BankByte
                                          [] OTHER -> AnyByte>>))
  \/ Is("pushflags") /\ Keep(PutFlags(R, F(E.f)))
  \/ Is("pullreg") /\ Judge(Gone(RClaim) /\ RegClaim(R, E.reg, E.bit, RClaim), CutReg(R, E.reg, E.bit))
  \/ Is("pullbank") /\ Judge(Gone(RClaim) /\ BankClaim(R, RClaim), CutAll(R, 1))
  \/ Is("pullbyte") /\ Judge(Gone(Claim) /\ ByteClaim(R, Claim), CutAll(R, 1))
  \/ Is("abandon") /\ cur' = [runs |-> { [r EXCEPT !.stack = <<>>] : r \in R }, gone |-> TRUE]
                   /\ UNCHANGED <<slots, bad>>
  \/ Is("save") /\ slots' = [slots EXCEPT ![E.i] = cur] /\ UNCHANGED <<cur, bad>>
  \/ Is("load") /\ cur' = slots[E.i] /\ UNCHANGED <<slots, bad>>
  \/ Is("swap") /\ cur' = slots[1] /\ slots' = [slots EXCEPT ![1] = cur] /\ UNCHANGED bad
  \/ Is("join") /\ cur' = [runs |-> R \union slots[E.i].runs, gone |-> cur.gone \/ slots[E.i].gone]
                /\ UNCHANGED <<slots, bad>>
  \* equal stacks are equal: the claim may not depend on which one is asked
  \/ /\ Is("copies") /\ UNCHANGED <<cur, slots>>
     /\ IF E.same \/ bad THEN UNCHANGED bad
        ELSE PrintT("MISMATCH " \o ToJson([l |-> l, want |-> "equal copies"])) /\ bad' = TRUE
TraceSpec == TraceInit /\ [][Step]_<<l, bad, cur, slots>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
