----------------------------- MODULE TraceFlags -----------------------------
(* Calls of the code against Flags.tla.  Each event carries a batch E.q *)
EXTENDS Flags, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
F(t) == [e |-> t[1], m |-> t[2], x |-> t[3], c |-> t[4]]
Conv(t) == IF t[1] \in {"default", "noreturn"} THEN Tag(t[1]) ELSE F(t)
Want(op, q) ==
  CASE op = "make" -> Flags(q[1][1], q[1][2], q[1][3], q[1][4])
    [] op = "merge" -> Merge(F(q[1]), F(q[2]))
    [] op = "setm" -> SetM(F(q[1]), q[2])
    [] op = "setx" -> SetX(F(q[1]), q[2])
    [] op = "setc" -> SetC(F(q[1]), q[2])
    [] op = "incoming" -> Incoming(F(q[1]))
    [] op = "xce" -> ExchangeCE(F(q[1]))
    [] op = "name" -> FromName(q[1])
    [] op = "show" -> ToName(F(q[1]))
    [] op = "suffix" -> Suffix(Conv(q[1]))
    \* convention, state before
    [] op = "apply" -> Apply(Conv(q[1]), F(q[2]))
    \* unequal, equal
    [] op = "same" -> F(q[1]) = F(q[2])
Got(op, q) ==
  LET r == q[Len(q)]
  IN IF op \in {"show", "suffix", "same"} THEN r ELSE F(r)
Right(op, q) == /\ Got(op, q) = Want(op, q)
                /\ op = "same" => q[3] = ~q[4]
Wrong == { i \in DOMAIN E.q : ~Right(E.op, E.q[i]) }
TraceInit == l = 1 /\ bad = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op = "begin" THEN bad' = FALSE
           ELSE IF Wrong = {} THEN bad' = FALSE
           ELSE /\ LET w == CHOOSE i \in Wrong : TRUE
                   IN PrintT("MISMATCH " \o ToJson([l |-> l, want |->
                        [call |-> E.q[w], spec |-> Want(E.op, E.q[w]),
                         count |-> Cardinality(Wrong)]]))
                /\ bad' = TRUE
TraceSpec == TraceInit /\ [][Step]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
