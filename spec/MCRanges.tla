------------------------------ MODULE MCRanges ------------------------------
(* Bounded instance of Ranges for TLC.  hist is a history variable kept out
   of the fingerprint by VIEW; Emit prints one behaviour per transition, which
   the conformance driver replays against the real class. *)
EXTENDS Ranges, TLC, Json
VARIABLE hist
mvars == <<claimed, iv, reply, hist>>

MInit == CInit /\ hist = <<>>
MNext ==
  \/ \E loc \in Addr, len \in 0 .. 2 * BankSize + 1 :
       /\ Claim(loc, len)
       /\ hist' = Append(hist, [op |-> "claim", a |-> loc, b |-> len])
  \/ \E lo \in Addr : \E hi \in lo + 1 .. Top :
       /\ ClaimChunk(lo, hi)
       /\ hist' = Append(hist, [op |-> "chunk", a |-> lo, b |-> hi])
MSpec == MInit /\ [][MNext]_mvars
MView == claimed
Emit == PrintT("TR " \o ToJson([h |-> hist', r |-> reply', iv |-> iv']))
\* the reply of a claim, stated on the sets
StepRight ==
  [][ LET e == hist'[Len(hist')]
          S == IF e.op = "claim" THEN ClaimSet(e.a, e.b) ELSE e.a .. e.b - 1
      IN /\ reply' = (S \cap claimed = {} /\ (e.op = "claim" => e.b <= BankSize))
         /\ claimed' = claimed \union S ]_mvars
=============================================================================
