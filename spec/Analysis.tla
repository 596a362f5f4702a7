----------------------------- MODULE Analysis -----------------------------
(* The static analysis as designed (properties C13, C15; nsasm/instruction.cc,
   execution_state.h): knowledge of the status plus an abstract stack, one
   step per instruction.  A stack entry is a saved knowledge state, a byte, or
   a register whose size is the size it had on entry. *)
EXTENDS Cpu

Abs(f, s, lost) == [f |-> f, s |-> s, lost |-> lost]
Enter(f) == Abs(Incoming(f), <<>>, FALSE)

Entry(k, f) == [k |-> k, f |-> f]
AByte == Entry("byte", Unknown)
AFlags(f) == Entry("flags", f)
AReg(r) == Entry(r, Unknown)          \* "a", "x", "y": size as on entry
IsReg(n) == n.k \in {"a", "x", "y"}

Abandon(a) == [a EXCEPT !.s = <<>>, !.lost = TRUE]
APush(a, ns) == IF a.lost THEN a ELSE [a EXCEPT !.s = @ \o ns]
Bytes(n) == [i \in 1 .. n |-> AByte]
Top(a) == a.s[Len(a.s)]
\* pulling a byte: the state after, and what was pulled
PullByte(a) == IF a.lost \/ a.s = <<>> THEN <<Abandon(a), AByte>>
               ELSE IF IsReg(Top(a)) THEN <<Abandon(a), AByte>>
               ELSE <<[a EXCEPT !.s = SubSeq(@, 1, Len(@) - 1)], Top(a)>>
PullBytes(a, n) == LET F[i \in 0 .. n] == IF i = 0 THEN a ELSE PullByte(F[i - 1])[1] IN F[n]
PushReg(a, reg, w) ==
  IF a.lost THEN a
  ELSE CASE w = "orig" -> APush(a, <<AReg(reg)>>) [] w = "unk" -> Abandon(a)
         [] w = "on" -> APush(a, Bytes(1)) [] w = "off" -> APush(a, Bytes(2))
PullReg(a, reg, w) ==
  IF a.lost THEN a
  ELSE CASE w = "orig" -> IF a.s = <<>> THEN Abandon(a)
                          ELSE IF Top(a).k = reg THEN [a EXCEPT !.s = SubSeq(@, 1, Len(@) - 1)]
                          ELSE Abandon(a)
         [] w = "unk" -> Abandon(a)
         [] w = "on" -> PullBytes(a, 1) [] w = "off" -> PullBytes(a, 2)

AMerge(a, b) ==
  LET f == Merge(a.f, b.f)
      n == Len(a.s)
  IN IF a.lost \/ b.lost \/ n # Len(b.s) THEN Abs(f, <<>>, TRUE)
     ELSE IF \E i \in 1 .. n : a.s[i].k # b.s[i].k /\ (IsReg(a.s[i]) \/ IsReg(b.s[i]))
     THEN Abs(f, <<>>, TRUE)
     ELSE Abs(f, TLCEval([i \in 1 .. n |->
                   IF a.s[i].k # b.s[i].k THEN AByte
                   ELSE IF a.s[i].k = "flags" THEN AFlags(Merge(a.s[i].f, b.s[i].f))
                   ELSE a.s[i]]), FALSE)

\* an instruction whose widths must be known; "none" when it does not matter
ImmM == {"adc", "and", "bit", "cmp", "eor", "lda", "ora", "sbc", "add", "sub"}
ImmX == {"cpx", "cpy", "ldx", "ldy"}

SetBit(f, n, w, b, Set(_, _)) == IF MaskBit(n, w) THEN Set(f, b) ELSE f
Blur(f, b) == LET g == IF f.c # b THEN SetC(f, "unk") ELSE f
                  h == IF g.x # b THEN SetX(g, "unk") ELSE g
              IN IF h.m # b THEN SetM(h, "unk") ELSE h
Exec(a, i) ==
  LET f == a.f
      With(g) == [a EXCEPT !.f = g]
  IN
  CASE i.mn \in {"sec", "bcc"} -> With(SetC(f, "on"))
    [] i.mn \in {"clc", "bcs"} -> With(SetC(f, "off"))
    [] i.mn \in {"rep", "sep"} ->
         LET b == IF i.mn = "sep" THEN "on" ELSE "off"
         IN IF i.arg < 0 THEN With(Blur(f, b))
            ELSE With(SetBit(SetBit(SetBit(f, i.arg, 1, b, SetC), i.arg, 16, b, SetX),
                             i.arg, 32, b, SetM))
    [] i.mn = "xce" -> With(ExchangeCE(f))
    [] i.mn = "php" -> APush(a, <<AFlags(f)>>)
    [] i.mn = "plp" -> LET p == PullByte(a)
                           g == p[2].f
                       IN [p[1] EXCEPT !.f = IF p[2].k = "flags" THEN Flags(f.e, g.m, g.x, g.c)
                                             ELSE Flags(f.e, "unk", "unk", "unk")]
    [] i.mn = "pha" -> PushReg(a, "a", f.m)
    [] i.mn = "phx" -> PushReg(a, "x", f.x)
    [] i.mn = "phy" -> PushReg(a, "y", f.x)
    [] i.mn = "pla" -> PullReg(a, "a", f.m)
    [] i.mn = "plx" -> PullReg(a, "x", f.x)
    [] i.mn = "ply" -> PullReg(a, "y", f.x)
    [] i.mn \in {"phb", "phk"} -> APush(a, Bytes(1))
    [] i.mn \in {"phd", "pea", "pei", "per"} -> APush(a, Bytes(2))
    [] i.mn = "plb" -> PullBytes(a, 1)
    [] i.mn = "pld" -> PullBytes(a, 2)
    [] i.mn \in {"tcs", "txs"} -> Abandon(a)
    [] i.mn \in Calls -> With(SetC(IF i.ret \in {Default, NoReturn} THEN f ELSE i.ret, "unk"))
    [] i.mn \in ClobbersCarry -> With(SetC(f, "unk"))
    [] i.mn = ".mode" -> With(i.ret)
    [] OTHER -> a
ExecTaken(a, i) == CASE i.mn = "bcc" -> [Exec(a, i) EXCEPT !.f.c = "off"]
                     [] i.mn = "bcs" -> [Exec(a, i) EXCEPT !.f.c = "on"]
                     [] OTHER -> Exec(a, i)
=============================================================================
