-------------------------------- MODULE Cpu --------------------------------
(* The parts of a 65816 that the analysis talks about: mode, widths, carry and
   the bytes on the stack of one routine.  Data is abstracted: a stack byte is
   a saved status (8 + 4m + 2x + c) or any other byte (0).  What an instruction
   leaves open (results of arithmetic, callees, bytes from below the routine's
   own stack) is a choice.  Instructions are records
     [mn |-> mnemonic, arg |-> literal argument or -1 when not a literal,
      ret |-> return convention]                                             *)
EXTENDS Flags

Bit == {0, 1}
\* one execution: status on entry, status now, own stack (top at the end)
Run(entry, now, stack) == [entry |-> entry, now |-> now, stack |-> stack]
Starts(f) == { Run(v, v, <<>>) : v \in { w \in Modes : Describes(f, w, w) } }

Saved(v) == 8 + 4 * v.m + 2 * v.x + v.c
Normal(v) == IF v.e = 1 THEN [v EXCEPT !.m = 1, !.x = 1] ELSE v
Status(v, m, x, c) == Normal([v EXCEPT !.m = m, !.x = x, !.c = c])

Push(r, bytes) == [r EXCEPT !.stack = @ \o bytes]
\* the stack after pulling n bytes
Drop(s, n) == IF Len(s) <= n THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)
Pull(r, n) == [r EXCEPT !.stack = Drop(@, n)]
\* possible statuses pulled as one byte from the top
Pulled(r) ==
  IF r.stack # <<>> /\ r.stack[Len(r.stack)] >= 8
  THEN LET b == r.stack[Len(r.stack)] - 8
       IN { Status(r.now, b \div 4, (b \div 2) % 2, b % 2) }
  ELSE { Status(r.now, m, x, c) : m \in Bit, x \in Bit, c \in Bit }
Other(n) == [i \in 1 .. n |-> 0]
WidthM(v) == IF v.m = 1 THEN 1 ELSE 2
WidthX(v) == IF v.x = 1 THEN 1 ELSE 2

\* statuses that a state promised by the programmer allows
Promised(f, entry) == { v \in Modes : Describes(f, entry, v) }
Carries(r) == { [r EXCEPT !.now.c = c] : c \in Bit }

ClobbersCarry == {"adc", "sbc", "add", "sub", "asl", "lsr", "rol", "ror", "cmp", "cpx", "cpy",
                  "jsr", "jsl", "brk", "cop"}
Calls == {"jsr", "jsl", "brk", "cop", "jmp"}
\* instructions after which execution does not go on to the next one
Leaves(i) == i.mn \in {"jmp", "rtl", "rts", "rti", "stp", "bra", "brl"} \/ i.ret = NoReturn

MaskBit(n, w) == (n \div w) % 2 = 1
SetBits(v, n, b) ==
  Normal([v EXCEPT !.c = IF MaskBit(n, 1) THEN b ELSE @,
                   !.x = IF MaskBit(n, 16) THEN b ELSE @,
                   !.m = IF MaskBit(n, 32) THEN b ELSE @])
Masks == {0, 1, 16, 17, 32, 33, 48, 49}

\* all executions one instruction later, falling through
Succ(r, i) ==
  LET v == r.now IN
  CASE i.mn = "sec" -> { [r EXCEPT !.now.c = 1] }
    [] i.mn = "clc" -> { [r EXCEPT !.now.c = 0] }
    [] i.mn \in {"rep", "sep"} ->
         LET b == IF i.mn = "sep" THEN 1 ELSE 0
         IN { [r EXCEPT !.now = SetBits(v, n, b)] :
                n \in IF i.arg >= 0 THEN {i.arg} ELSE Masks }
    [] i.mn = "xce" -> { [r EXCEPT !.now = Normal([v EXCEPT !.c = v.e, !.e = v.c])] }
    [] i.mn = "php" -> { Push(r, <<Saved(v)>>) }
    [] i.mn = "plp" -> { [Pull(r, 1) EXCEPT !.now = w] : w \in Pulled(r) }
    [] i.mn = "pha" -> { Push(r, Other(WidthM(v))) }
    [] i.mn \in {"phx", "phy"} -> { Push(r, Other(WidthX(v))) }
    [] i.mn \in {"phb", "phk"} -> { Push(r, Other(1)) }
    [] i.mn \in {"phd", "pea", "pei", "per"} -> { Push(r, Other(2)) }
    [] i.mn = "pla" -> { Pull(r, WidthM(v)) }
    [] i.mn \in {"plx", "ply"} -> { Pull(r, WidthX(v)) }
    [] i.mn = "plb" -> { Pull(r, 1) }
    [] i.mn = "pld" -> { Pull(r, 2) }
    \* another stack: anything may be on it
    [] i.mn \in {"tcs", "txs"} -> { [r EXCEPT !.stack = <<>>] }
    [] i.mn \in Calls /\ i.ret # Default /\ i.ret # NoReturn ->
         { [r EXCEPT !.now = w] : w \in Promised([i.ret EXCEPT !.c = "unk"], r.entry) }
    [] i.mn \in ClobbersCarry -> Carries(r)
    [] i.mn = "bcc" -> IF v.c = 1 THEN {r} ELSE {}
    [] i.mn = "bcs" -> IF v.c = 0 THEN {r} ELSE {}
    \* the .mode directive promises a state
    [] i.mn = ".mode" -> IF Describes(i.ret, r.entry, v) THEN {r} ELSE {}
    [] OTHER -> {r}
\* and when a conditional or unconditional branch is taken
Taken(r, i) ==
  CASE i.mn = "bcc" -> IF r.now.c = 0 THEN {r} ELSE {}
    [] i.mn = "bcs" -> IF r.now.c = 1 THEN {r} ELSE {}
    [] OTHER -> {r}

All(f, runs) == \A r \in runs : Describes(f, r.entry, r.now)
=============================================================================
