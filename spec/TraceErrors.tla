---------------------------- MODULE TraceErrors ----------------------------
EXTENDS Errors, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TraceInit == msg = "" /\ path = "" /\ kind = "none" /\ pos = 0 /\ l = 1 /\ bad = FALSE
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Judge(match, want) ==
  IF bad THEN bad' = TRUE
  ELSE IF match THEN bad' = FALSE
  ELSE PrintT("MISMATCH " \o ToJson([l |-> l, want |-> want])) /\ bad' = TRUE
Begin == Is("begin") /\ New(E.msg) /\ bad' = FALSE
\* after each call: the text, and that comparison sees only the message
Seen == Judge(E.text = Shown' /\ E.same, Shown')
TAttach == Is("attach") /\ Attach(E.l1) /\ Seen
TAttach2 == Is("attach2") /\ Attach2(E.l1, E.l2) /\ Seen
\* copies, moves, wrapping in and unwrapping from results of several types
TPass == \E o \in {"copy", "move", "or", "void", "chain"} :
           Is(o) /\ Pass
           /\ Judge(E.text = Shown' /\ E.same /\ E.ok = FALSE, Shown')
\* propagation with a location attached on the way
TRethrow == Is("rethrow") /\ Attach(E.l1) /\ Judge(E.text = Shown' /\ E.ok = FALSE, Shown')
\* a result holding a value stays a success with that value
TValue == Is("value") /\ Pass /\ Judge(E.ok /\ E.val = E.want, [ok |-> TRUE, val |-> E.want])
TraceNext == Begin \/ TAttach \/ TAttach2 \/ TPass \/ TRethrow \/ TValue
TraceSpec == TraceInit /\ [][TraceNext]_<<evars, l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
