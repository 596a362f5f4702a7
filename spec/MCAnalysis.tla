----------------------------- MODULE MCAnalysis -----------------------------
(* Soundness of the designed analysis: alongside every instruction sequence
   run all executions of the processor; what the analysis knows must describe
   each of them.  A second path from the same entry can be merged in. *)
EXTENDS Analysis, Json
CONSTANTS MaxSteps, Depth     \* sequence length, largest own stack
VARIABLES abs, runs, kept, keptRuns, n
vars == <<abs, runs, kept, keptRuns, n>>

I(mn) == [mn |-> mn, arg |-> -1, ret |-> Default]
IA(mn, a) == [I(mn) EXCEPT !.arg = a]
IR(mn, r) == [I(mn) EXCEPT !.ret = r]
Alphabet == { I(mn) : mn \in {"sec", "clc", "xce", "php", "plp", "pha", "pla", "phx", "plx",
                              "phy", "ply", "phb", "plb", "phd", "pld", "txs", "adc",
                              "bcc", "bcs", "bne", "rep", "jsr", "nop"} }
   \union { IA(mn, a) : mn \in {"rep", "sep"}, a \in {16, 32, 33, 48} }
   \union { IR("jsr", Named["m8x16"]), IR("jsr", Named["emu"]), IR(".mode", Named["m8"]) }
Init == \E nm \in {"unk", "emu", "native", "m8", "m16x8"} :
          /\ abs = Enter(Named[nm]) /\ runs = Starts(Named[nm])
          /\ kept = abs /\ keptRuns = runs /\ n = 0
Step(a, rs) == /\ abs' = a /\ runs' = rs /\ n' = n + 1
Next == /\ n < MaxSteps
        /\ \/ \E i \in Alphabet :
                /\ Step(Exec(abs, i), UNION { Succ(r, i) : r \in runs })
                /\ UNCHANGED <<kept, keptRuns>>
           \/ \E i \in { j \in Alphabet : j.mn \in {"bcc", "bcs"} } :
                /\ Step(ExecTaken(abs, i), UNION { Taken(r, i) : r \in runs })
                /\ UNCHANGED <<kept, keptRuns>>
           \* remember this path and go back to the entry of the other
           \/ kept' = abs /\ keptRuns' = runs /\ abs' = kept /\ runs' = keptRuns /\ n' = n + 1
           \/ /\ Step(AMerge(abs, kept), runs \union keptRuns)
              /\ UNCHANGED <<kept, keptRuns>>
Spec == Init /\ [][Next]_vars
Small == \A r \in runs : Len(r.stack) <= Depth
Sound == All(abs.f, runs)
\* saved states still on the abstract stack describe the bytes in their place
Size(nd, r) == CASE nd.k \in {"byte", "flags"} -> 1
                 [] nd.k = "a" -> WidthM(r.entry) [] OTHER -> WidthX(r.entry)
StackFits == \A r \in runs :
               abs.lost \/ Len(r.stack) =
                 LET F[i \in 0 .. Len(abs.s)] == IF i = 0 THEN 0 ELSE F[i - 1] + Size(abs.s[i], r)
                 IN F[Len(abs.s)]
=============================================================================
