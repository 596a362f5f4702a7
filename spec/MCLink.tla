------------------------------- MODULE MCLink -------------------------------
(* Linking as a process: modules whose needs are met are taken up in any order,
   and their constants worked out one statement after another from what has a
   value by then.  For every small set of modules: whatever the order, the same
   modules can be taken up (Asm!Ordered), and when all can, the constants have
   the values their definitions say (Asm!ValueAt).  The sets are printed for the
   code to assemble in every order of files. *)
EXTENDS Asm, Json
CONSTANTS Files0, Rich        \* how many files; whether each has a second constant
VARIABLES files, ms, pcs, order, vals
vars == <<files, ms, pcs, order, vals>>

Mod(n) == <<"mm", "nn", "pp">>[n]
Exprs == {"7", "here", "mm::k+1", "nn::k", "pp::k*2", "mm::here+nn::k", "pp::v"}
Seconds == IF Rich THEN {"", "v: .equ k+1", "v: .equ mm::v+1", "v: .equ pp::v", "k: .equ 3"} ELSE {"", "v: .equ nn::v"}
\* file i, of the module named n: a label and up to two constants
File(i, n, e, x) ==
  <<".module " \o Mod(n), ".org $00" \o <<"80", "81", "82">>[i] \o "00",
    IF n = i THEN "here: .dw k" ELSE "there: .dw 1",
    (IF n = i THEN "k: " ELSE "w: ") \o ".equ " \o e>> \o (IF x = "" THEN <<>> ELSE <<x>>)
\* the last file may belong to the first one's module
Init == /\ \E e \in [1 .. Files0 -> Exprs], x \in [1 .. Files0 -> Seconds], last \in {1, Files0} :
             files = [i \in 1 .. Files0 |-> File(i, IF i = Files0 THEN last ELSE i, e[i], x[i])]
        /\ ms = <<>> /\ pcs = <<>> /\ order = <<>> /\ vals = <<>>
Read1 == /\ ms = <<>>
         /\ ms' = TLCEval([k \in DOMAIN files |-> Load(files[k])])
         /\ pcs' = TLCEval([k \in DOMAIN files |-> Layout(ms'[k], [mode |-> <<>>], 1, -1)])
         /\ UNCHANGED <<files, order, vals>>
Done == { order[j] : j \in DOMAIN order }
Have == { <<x[1], x[2]>> : x \in { y \in Exports(ms) : y[3] \in Done } }
\* the value of statement i of module k as far as it is known
KnownNow(vs, k, i) == IF IsDir(ms[k].s[i].e, "equ")
                   THEN IF <<k, i>> \in DOMAIN vs THEN vs[<<k, i>>] ELSE Bad
                   ELSE IF pcs[k][i] >= 0 THEN Good(pcs[k][i]) ELSE Bad
RECURSIVE WorkOut(_, _, _)
WorkOut(vs, k, i) ==
  IF i > Len(ms[k].s) THEN vs
  ELSE IF ~IsDir(ms[k].s[i].e, "equ") THEN WorkOut(vs, k, i + 1)
  ELSE LET e == ms[k].s[i].e.a
           v == Eval(e, [id \in Names(e) |-> LET r == Refers(ms, k, i, id)
                                             IN IF r = <<>> THEN Bad ELSE KnownNow(vs, r[1], r[2])])
       IN WorkOut(vs @@ (<<k, i>> :> v), k, i + 1)
TakeUp(k) == /\ k \notin Done /\ Needs(ms, k) \subseteq Have
             /\ order' = Append(order, k)
             /\ vals' = TLCEval(WorkOut(vals, k, 1))
             /\ UNCHANGED <<files, ms, pcs>>
Next == Read1 \/ (ms # <<>> /\ \E k \in DOMAIN ms : TakeUp(k))
Spec == Init /\ [][Next]_vars

Stuck == ms # <<>> /\ \A k \in DOMAIN ms : k \in Done \/ ~(Needs(ms, k) \subseteq Have)
SameModules == Stuck => Done = Ordered(ms, {})
Sane == (\A k \in DOMAIN ms : ms[k].bad = {}) /\ ~Clash(ms) /\ ~Undefined(ms) /\ ~Forward(ms)
SameValues == (Stuck /\ Done = DOMAIN ms /\ Sane) =>
                \A x \in DOMAIN vals : vals[x] = ValueAt(ms, pcs, x[1], x[2], {})
Emit == ms = <<>> => PrintT("LINE " \o ToJson([files |-> files]))
=============================================================================
