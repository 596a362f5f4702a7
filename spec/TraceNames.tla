----------------------------- MODULE TraceNames -----------------------------
EXTENDS Names, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TraceInit == l = 1 /\ bad = FALSE /\ kind = "mnemonic" /\ item = "M_adc"
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED <<kind, item>>
Judge(match, want) ==
  IF match THEN bad' = FALSE
  ELSE PrintT("MISMATCH " \o ToJson([l |-> l, want |-> want])) /\ bad' = TRUE
Begin == Is("begin") /\ bad' = FALSE
TPrint == Is("print") /\ Judge(E.name = PrintName(E.kind, E.item), PrintName(E.kind, E.item))
TParse == Is("parse") /\ Judge(E.item = ParseName(E.kind, E.text), ParseName(E.kind, E.text))
\* the enumeration lists every item exactly once
TAll == Is("all") /\ Judge(/\ Range(E.items) = Items(E.kind)
                           /\ Len(E.items) = Cardinality(Items(E.kind)),
                           Items(E.kind))
TraceNext == Begin \/ TPrint \/ TParse \/ TAll
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, kind, item>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
