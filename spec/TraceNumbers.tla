---------------------------- MODULE TraceNumbers ----------------------------
(* Each event carries a batch E.q of calls; the first wrong one is reported *)
EXTENDS Numbers, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TraceInit == /\ l = 1 /\ bad = FALSE
             /\ t = "byte" /\ u = "byte" /\ v = 0 /\ a = 0 /\ b = 0
Right(op, q) ==
  CASE op = "cast" -> q[3] = Cast(q[1], q[2])
    [] op = "combine" -> q[3] = Combine(q[1], q[2])
    [] op = "type" -> q[2] = Unsigned(q[1]) /\ q[3] = Signed(q[1]) /\ q[4] = IsSigned(q[1])
    [] op = "advance" -> q[3] = Advance(q[1], q[2])
    [] op = "plus" -> q[3] = q[1] + q[2]
    [] op = "diff" -> q[3] = (Bank(q[1]) = Bank(q[2]))
                      /\ (q[3] => q[4] = Diff(q[1], q[2]))
    \* an address, its bank, its offset, its text, and itself rebuilt from both
    [] op = "parts" -> q[2] = Bank(q[1]) /\ q[3] = Off(q[1])
                       /\ q[4] = "$" \o Hex(q[1], 6) /\ q[5] = q[1]
    \* the six comparisons of two addresses, and of the two as label values
    [] op = "order" -> \A k \in {2, 8} :
                       /\ q[k + 1] = (q[1] = q[2]) /\ q[k + 2] = (q[1] # q[2])
                       /\ q[k + 3] = (q[1] < q[2]) /\ q[k + 4] = (q[1] <= q[2])
                       /\ q[k + 5] = (q[1] > q[2]) /\ q[k + 6] = (q[1] >= q[2])
    \* label value of an address: as number, as each type, and back
    [] op = "label" -> q[2] = q[1] /\ q[4] = Cast(q[3], q[1]) /\ q[5] = q[1]
Wrong == { i \in DOMAIN E.q : ~Right(E.op, E.q[i]) }
Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED nvars
        /\ IF E.op = "begin" THEN bad' = FALSE
           ELSE IF Wrong = {} THEN bad' = FALSE
           ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |->
                      [wrong |-> E.q[CHOOSE i \in Wrong : TRUE], count |-> Cardinality(Wrong)]]))
                /\ bad' = TRUE
TraceSpec == TraceInit /\ [][Step]_<<l, bad, t, u, v, a, b>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
