----------------------------- MODULE MCRangeMap -----------------------------
(* Bounded instance of RangeMap: every history of insertions of arbitrary
   address sets, checked against a set-level partial map. *)
EXTENDS RangeMap, TLC, Json
CONSTANT MaxInserts
VARIABLES omap, hist         \* omap: the meaning, a function Addr -> value or -1
mvars == <<claimed, iv, reply, own, oreply, omap, hist>>

MInit == CInit /\ OInit /\ omap = [a \in Addr |-> -1] /\ hist = <<>>
Insert(S) ==
  LET v == Len(hist) + 1
      free == \A a \in S : omap[a] = -1
  IN /\ Len(hist) < MaxInserts
     /\ InsertIv(ChunksOf(S), v)
     /\ omap' = IF free THEN [a \in Addr |-> IF a \in S THEN v ELSE omap[a]] ELSE omap
     /\ hist' = Append(hist, [c |-> ChunksOf(S), r |-> oreply'])
     /\ UNCHANGED <<claimed, iv, reply>>
MNext == \E S \in SUBSET Addr : Insert(S)
MSpec == MInit /\ [][MNext]_mvars

OwnRefines == \A a \in Addr : OwnerOf(a) = omap[a]
Exclusive == \A i, j \in DOMAIN own : i # j => own[i][2] <= own[j][1] \/ own[j][2] <= own[i][1]
\* a failed insertion changes nothing; a successful one only adds its own set
AllOrNothing ==
  [][ LET e == hist'[Len(hist')] IN
      /\ ~oreply' => omap' = omap /\ own' = own
      /\ oreply' => \A a \in Addr : omap[a] # -1 => omap'[a] = omap[a] ]_mvars
Emit == Len(hist') < MaxInserts \/
        PrintT("TR " \o ToJson([h |-> hist', own |-> [a \in 1 .. Top |-> omap'[a - 1]]]))
=============================================================================
