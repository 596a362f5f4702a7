------------------------------- MODULE MCFlow -------------------------------
(* The flow analysis as a process: pending statements are taken up in any
   order, each adding what it passes on to what is known elsewhere.  For every
   small program: whatever the order, it ends, with the least fixed point
   (Asm!Fixpoint), which describes every execution.  The programs are printed
   for the code to assemble. *)
EXTENDS Asm, Json
CONSTANTS Length0, Rich       \* statements between entry and exit; how many kinds
VARIABLES text, g, first, at, work
vars == <<text, g, first, at, work>>

Small == {"sec", "xce", "rep #$30", "sep #$20", "php", "plp", "pha", "pla", "bcc aa", "bne zz",
          "lda #1", "zz: nop", "ldx.w #2"}
Large == Small \union {"clc", "sep #$31", "rep #1", "phx", "plx", "bcs zz", "bra aa", "jsr $9000 yields m8x16",
                       "jmp $9000", ".mode m16x16", "txs", "cmp $10", "phb", "jsr $9000 noreturn", "ldy.b #2"}
Alphabet == IF Rich THEN Large ELSE Small
Modes0 == {"m8x8", "native", "emu", "m16"}
\* zz is the exit unless a statement has the name
Lines(md, c) ==
  LET own == { i \in DOMAIN c : c[i] = "zz: nop" }
  IN <<".org $8000", ".entry " \o md, "aa: nop">> \o c \o <<IF own = {} THEN "zz: rts" ELSE "rts">>
Legal(c) == Cardinality({ i \in DOMAIN c : c[i] = "zz: nop" }) <= 1
\* the text and what it means are worked out in a step of their own, once
Init == /\ \E md \in Modes0, c \in [1 .. Length0 -> Alphabet] : Legal(c) /\ text = Lines(md, c)
        /\ g = <<>> /\ first = <<>> /\ at = <<>> /\ work = <<>>
Begin1 == /\ g = <<>>
          /\ LET m == Load(text)
             IN /\ m.bad = {} /\ g' = Graph(m) /\ first' = Known0(m) /\ work' = Known0(m)
          /\ UNCHANGED <<text, at>>
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
TakeUp(i) ==
  LET s == IF i \in DOMAIN at THEN An!AMerge(at[i], work[i]) ELSE work[i]
      rest == Without(work, i)
  IN IF i \in DOMAIN at /\ s = at[i]
     THEN at' = at /\ work' = rest
     ELSE /\ at' = [j \in DOMAIN at \union {i} |-> IF j = i THEN s ELSE at[j]]
          /\ work' = IF i \notin DOMAIN g \/ ~g[i].run THEN rest
                     ELSE JoinAll(rest, Flows([j \in {i} |-> g[i]], [j \in {i} |-> s]))
Next == \/ Begin1
        \/ g # <<>> /\ (\E i \in DOMAIN work : TakeUp(i)) /\ UNCHANGED <<text, g, first>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == g # <<>> /\ work = <<>>
Confluent == Done => at = Settled(g, first)
\* what an order has found so far never says less than the result
Below == g # <<>> => LET fix == Settled(g, first)
                     IN \A i \in DOMAIN at : i \in DOMAIN fix /\ An!AMerge(fix[i], at[i]) = fix[i]
\* what is known describes every execution that gets there
Describing ==
  Done => LET start == UNION { { <<i, r>> : r \in Starts(first[i].f) } : i \in DOMAIN first }
              all == Explore(g, start, start)
          IN \A p \in all : p[1] \in DOMAIN at /\ Describes(at[p[1]].f, p[2].entry, p[2].now)
Ends == <>[]Done
Emit == g = <<>> => PrintT("LINE " \o ToJson([text |-> text]))
=============================================================================
