----------------------------- MODULE MCAbsStack -----------------------------
(* Every bounded history of the abstract stack, with all real executions
   beside it: what is claimed on a pull must be true in each of them.  Two
   paths from one entry can be merged.  Explored transitions are printed as
   histories for replay into the code (the history is not part of a state). *)
EXTENDS AbsStack, Json
CONSTANTS MaxOps
VARIABLES abs, runs, kept, keptRuns, sound, hist
vars == <<abs, runs, kept, keptRuns, sound, hist>>
View == <<abs, runs, kept, keptRuns, sound, Len(hist)>>
F1 == Flags("off", "on", "off", "unk")
F2 == Flags("orig", "orig", "orig", "orig")
Vals == {RegUnk, RegOrig, RegVal(4660)}
Init == abs = Empty /\ runs = Fresh /\ kept = Empty /\ keptRuns = Fresh /\ sound = TRUE
        /\ hist = <<>>
Do(cmd, a, rs, ok) == /\ Len(hist) < MaxOps
                      /\ abs' = a /\ runs' = rs /\ sound' = ok /\ hist' = Append(hist, cmd)
                      /\ UNCHANGED <<kept, keptRuns>>
Word(rv) == rv.k \o ":" \o ToString(rv.v)
AsReg(e) == [k |-> e.k, v |-> e.v, f |-> e.f]
Next ==
  \/ \E reg \in {"a", "x"}, rv \in Vals, bit \in Bits :
       Do("pushreg " \o reg \o " " \o Word(rv) \o " " \o bit,
          DPushReg(abs, reg, rv, bit), PutReg(runs, reg, rv, bit), TRUE)
  \/ \E reg \in {"a", "x", "y"}, bit \in Bits :
       LET p == DPullReg(abs, reg, bit)
       IN Do("pullreg " \o reg \o " " \o bit, p[1], CutReg(runs, reg, bit),
             RegClaim(runs, reg, bit, p[2]))
  \/ \E n \in {18, 52} : Do("pushbyte " \o ToString(n), DPush(abs, <<EByte(n)>>), PutAll(runs, <<n>>), TRUE)
  \/ Do("pushbyte -1", DPush(abs, <<EUnk>>), PutAll(runs, <<AnyByte>>), TRUE)
  \/ Do("pushword 4660", DPush(abs, <<EByte(18), EByte(52)>>), PutAll(runs, <<18, 52>>), TRUE)
  \/ Do("pushbank orig:0", DPush(abs, <<ERaw(BankByte)>>), PutAll(runs, <<BankByte>>), TRUE)
  \/ LET p == DPullBank(abs) IN Do("pullbank", p[1], CutAll(runs, 1), BankClaim(runs, p[2]))
  \/ \E x \in {<<F1, "fnfu">>, <<F2, "oooo">>} :
       Do("pushflags " \o x[2], DPush(abs, <<EFlags(x[1])>>), PutFlags(runs, x[1]), TRUE)
  \/ LET p == DPullByte(abs) IN Do("pullbyte", p[1], CutAll(runs, 1), ByteClaim(runs, p[2]))
  \/ Do("abandon", Lost, { [r EXCEPT !.stack = <<>>] : r \in runs }, TRUE)
  \/ /\ Len(hist) < MaxOps
     /\ kept' = abs /\ keptRuns' = runs /\ abs' = kept /\ runs' = keptRuns /\ UNCHANGED sound
     /\ hist' = Append(hist, "swap")
  \/ Do("join 1", DMerge(abs, kept), runs \union keptRuns, TRUE)
Spec == Init /\ [][Next]_vars
Sound == sound
Deep == \A r \in runs : Len(r.stack) <= 4
Emit == PrintT("TR " \o ToJson(hist'))
=============================================================================
