------------------------------ MODULE RangeMap ------------------------------
(* Exclusive ownership of addresses (property C02): a partial map from
   addresses to owners, grown by all-or-nothing insertions. *)
EXTENDS Ranges

VARIABLES own, oreply      \* own: sequence of <<lo, hi, value>>
ovars == <<own, oreply>>

OInit == own = <<>> /\ oreply = TRUE

OwnHits(cs) == \E i \in DOMAIN cs, j \in DOMAIN own :
                 cs[i][1] < own[j][2] /\ own[j][1] < cs[i][2]

\* cs: the canonical chunk list of the inserted set
InsertIv(cs, v) ==
  /\ oreply' = ~OwnHits(cs)
  /\ own' = IF OwnHits(cs) THEN own
            ELSE own \o [i \in DOMAIN cs |-> <<cs[i][1], cs[i][2], v>>]

\* -1: nobody
OwnerOf(a) ==
  IF \E i \in DOMAIN own : own[i][1] <= a /\ a < own[i][2]
  THEN own[CHOOSE i \in DOMAIN own : own[i][1] <= a /\ a < own[i][2]][3]
  ELSE -1
=============================================================================
