------------------------------ MODULE MCFlags ------------------------------
(* The laws of merging and naming, for all pairs of knowledge states *)
EXTENDS Flags
VARIABLES f, g
Init == f \in FlagStates /\ g \in FlagStates
Spec == Init /\ [][UNCHANGED <<f, g>>]_<<f, g>>
Commutes == Merge(f, g) = Merge(g, f)
Idempotent == Merge(f, f) = f
Associates == \A h \in FlagStates : Merge(Merge(f, g), h) = Merge(f, Merge(g, h))
\* never claims more than either side
Covers == Meaning(f) \union Meaning(g) \subseteq Meaning(Merge(f, g))
\* and keeps what both say, except an entry width under differing modes
Keeps == LET h == Merge(f, g)
         IN /\ f.e = g.e => h.e = f.e
            /\ f.c = g.c => h.c = f.c
            /\ f.m = g.m /\ (f.e = g.e \/ Known(f.m)) => h.m = f.m
            /\ f.x = g.x /\ (f.e = g.e \/ Known(f.x)) => h.x = f.x
EmulationIs8Bit == f.e = "on" => f.m = "on" /\ f.x = "on"
\* a name reads back to the same definite knowledge
Definite(b) == IF Known(b) THEN b ELSE "unk"
NameReadsBack ==
  LET h == FromName(ToName(f))
  IN /\ h # Tag("none")
     /\ Known(f.e) => h.e = f.e /\ h.m = Definite(f.m) /\ h.x = Definite(f.x)
     /\ ~Known(f.e) => h = Unknown
ExchangeSound ==
  \A p \in Meaning(f) :
       LET n == [e |-> p[2].c, c |-> p[2].e, m |-> IF p[2].c = 1 THEN 1 ELSE p[2].m,
                 x |-> IF p[2].c = 1 THEN 1 ELSE p[2].x]
       IN Describes(ExchangeCE(f), p[1], n)
\* reading everything unknown as "as on entry" is right on entry
IncomingSound == \A p \in Meaning(f) : p[1] = p[2] => Describes(Incoming(f), p[1], p[2])
=============================================================================
