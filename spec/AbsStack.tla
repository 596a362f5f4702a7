------------------------------ MODULE AbsStack ------------------------------
(* The abstract stack as designed (nsasm/execution_state.h): what the analysis
   remembers of each byte, with one entry for a register whose size is the
   one it had on entry, and giving up ("lost") when positions are unclear. *)
EXTENDS Stack

Ent(k, v, f) == [k |-> k, v |-> v, f |-> f]
EUnk == Ent("unk", 0, Unknown)
EByte(n) == Ent("byte", n, Unknown)
ERaw(tok) == Ent("raw", tok, Unknown)           \* a byte of a register on entry
EFlags(f) == Ent("flags", 0, f)
EVar(reg, orig) == Ent("var", IF orig THEN LowOf(reg) ELSE -LowOf(reg), Unknown)
IsVar(n) == n.k = "var"
Ab(s, lost) == [s |-> s, lost |-> lost]
Empty == Ab(<<>>, FALSE)
Lost == Ab(<<>>, TRUE)
Last(a) == a.s[Len(a.s)]
DPush(a, ns) == IF a.lost THEN a ELSE Ab(a.s \o ns, FALSE)
DPop(a) == Ab(SubSeq(a.s, 1, Len(a.s) - 1), FALSE)
\* results: <<stack afterwards, entry>>
DPullByte(a) == IF a.lost \/ a.s = <<>> THEN <<Lost, EUnk>>
                ELSE IF IsVar(Last(a)) THEN <<Lost, EUnk>> ELSE <<DPop(a), Last(a)>>

Of(b) == CASE b < 256 -> EByte(b) [] b < 2000 -> ERaw(b) [] OTHER -> EUnk
DPushReg(a, reg, rv, bit) ==
  IF a.lost THEN a
  ELSE CASE bit = "orig" -> DPush(a, <<EVar(reg, rv.k = "orig")>>)
         [] bit = "unk" -> Lost
         [] bit = "on" -> DPush(a, <<Of(LowByte(reg, rv))>>)
         [] bit = "off" -> DPush(a, <<Of(HighByte(reg, rv)), Of(LowByte(reg, rv))>>)
DPullReg(a, reg, bit) ==
  IF a.lost \/ bit = "unk" THEN <<Lost, RegUnk>>
  ELSE IF bit = "orig" THEN
    IF a.s = <<>> THEN <<Lost, RegUnk>>
    ELSE IF ~IsVar(Last(a)) \/ Last(a).v \notin {LowOf(reg), -LowOf(reg)} THEN <<Lost, RegUnk>>
    ELSE <<DPop(a), IF Last(a).v > 0 THEN RegOrig ELSE RegUnk>>
  ELSE LET p == DPullByte(a)
           q == DPullByte(p[1])
           lo == p[2]
           hi == q[2]
       IN IF bit = "on"
          THEN <<p[1], IF lo = ERaw(LowOf(reg)) THEN RegOrig
                       ELSE IF lo.k = "byte" THEN RegVal(lo.v) ELSE RegUnk>>
          ELSE <<q[1], IF lo = ERaw(LowOf(reg)) /\ hi = ERaw(LowOf(reg) + 1) THEN RegOrig
                       ELSE IF lo.k = "byte" /\ hi.k = "byte" THEN RegVal(256 * hi.v + lo.v)
                       ELSE RegUnk>>
DPullBank(a) == LET p == DPullByte(a)
                IN <<p[1], IF p[2] = ERaw(BankByte) THEN RegOrig
                           ELSE IF p[2].k = "byte" THEN RegVal(p[2].v) ELSE RegUnk>>
MergeEnt(x, y) ==
  IF x.k # y.k THEN EUnk
  ELSE IF x.k = "flags" THEN EFlags(Merge(x.f, y.f))
  ELSE IF x = y THEN x
  ELSE IF x.k = "var" THEN (IF x.v < 0 THEN x ELSE y)
  ELSE EUnk
Mergeable(x, y) == IF IsVar(x) \/ IsVar(y) THEN x.k = y.k /\ (x.v = y.v \/ x.v = -y.v) ELSE TRUE
DMerge(a, b) ==
  IF a.lost \/ b.lost \/ Len(a.s) # Len(b.s) THEN Lost
  ELSE IF \E i \in DOMAIN a.s : ~Mergeable(a.s[i], b.s[i]) THEN Lost
  ELSE Ab([i \in DOMAIN a.s |-> MergeEnt(a.s[i], b.s[i])], FALSE)
=============================================================================
