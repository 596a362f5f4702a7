------------------------------ MODULE MCErrors ------------------------------
EXTENDS Errors, Json
CONSTANTS MaxSteps
VARIABLE hist
Locs == { Loc("", "none", 0), Loc("a.asm", "none", 0), Loc("dir/b", "none", 0),
          Loc("", "line", 7), Loc("", "addr", 32768), Loc("a.asm", "line", 120),
          Loc("c", "line", 0) }
MInit == /\ msg = "bad thing" /\ path = "" /\ kind = "none" /\ pos = 0 /\ hist = <<>>
Step(op, l1, l2) == hist' = Append(hist, [op |-> op, l1 |-> l1, l2 |-> l2, text |-> Shown'])
None == Loc("", "none", 0)
MNext == /\ Len(hist) < MaxSteps
         /\ \/ \E l1 \in Locs : Attach(l1) /\ Step("attach", l1, None)
            \/ \E l1, l2 \in Locs : Attach2(l1, l2) /\ Step("attach2", l1, l2)
            \/ \E o \in {"copy", "move", "or", "void", "chain"} : Pass /\ Step(o, None, None)
MSpec == MInit /\ [][MNext]_<<evars, hist>>
\* what an error shows depends only on the last path and the last position
LastPart(field, none) ==
  LET parts == [i \in DOMAIN hist |->
                  IF hist[i].l2[field] # none THEN hist[i].l2[field] ELSE hist[i].l1[field]]
      I == { i \in DOMAIN hist : parts[i] # none }
  IN IF I = {} THEN none ELSE parts[CHOOSE i \in I : \A j \in I : j <= i]
LastWins == path = LastPart("p", "") /\ kind = LastPart("k", "none")
MessageKept == msg = "bad thing"
Emit == Len(hist') < MaxSteps \/ PrintT("TR " \o ToJson(hist'))
=============================================================================
