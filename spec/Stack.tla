------------------------------- MODULE Stack -------------------------------
(* What is really on the stack of a routine (property C14).  One execution is
   a status on entry and the bytes pushed since, top at the end.  A byte is
     0..255      that value
     1000 + 2r   the low, 1001 + 2r the high byte register r had on entry
                 (r = 0, 1, 2 for A, X, Y; 1006 the data bank)
     2000        any value
     3000 + s    a saved status s = 8e + 4m + 2x + c
   Histories are followed for every execution at once.                       *)
EXTENDS Cpu

RegNo == [a |-> 0, x |-> 1, y |-> 2]
AnyByte == 2000
LowOf(reg) == 1000 + 2 * RegNo[reg]
BankByte == 1006
StatusByte(v) == 3000 + 8 * v.e + 4 * v.m + 2 * v.x + v.c
StatusOf(b) == LET s == b - 3000
               IN [e |-> s \div 8, m |-> (s \div 4) % 2, x |-> (s \div 2) % 2, c |-> s % 2]

\* knowledge about a register: [k |-> "val", v |-> n], or k = "orig", "unk"
RegUnk == [k |-> "unk", v |-> 0]
RegOrig == [k |-> "orig", v |-> 0]
RegVal(n) == [k |-> "val", v |-> n]
LowByte(reg, rv) == CASE rv.k = "val" -> rv.v % 256 [] rv.k = "orig" -> LowOf(reg)
                      [] OTHER -> AnyByte
HighByte(reg, rv) == CASE rv.k = "val" -> rv.v \div 256 [] rv.k = "orig" -> LowOf(reg) + 1
                       [] OTHER -> AnyByte

Exe(v, bytes) == [entry |-> v, stack |-> bytes]
Fresh == { Exe(v, <<>>) : v \in Modes }
\* widths in bytes a register may have in one execution
Widths(r, reg, bit) ==
  CASE bit = "on" -> {1} [] bit = "off" -> {2} [] bit = "unk" -> {1, 2}
    [] bit = "orig" -> {IF reg = "a" THEN WidthM(r.entry) ELSE WidthX(r.entry)}
Put(r, bytes) == [r EXCEPT !.stack = @ \o bytes]
PutReg(rs, reg, rv, bit) ==
  UNION { { Put(r, IF w = 1 THEN <<LowByte(reg, rv)>> ELSE <<HighByte(reg, rv), LowByte(reg, rv)>>) :
              w \in Widths(r, reg, bit) } : r \in rs }
PutAll(rs, bytes) == { Put(r, bytes) : r \in rs }
PutFlags(rs, f) ==
  UNION { { Put(r, <<StatusByte(v)>>) : v \in { w \in Modes : Describes(f, r.entry, w) } } : r \in rs }
\* the byte d below the top
At(r, d) == IF d < Len(r.stack) THEN r.stack[Len(r.stack) - d] ELSE AnyByte
Cut(r, n) == [r EXCEPT !.stack = Drop(@, n)]
CutAll(rs, n) == { Cut(r, n) : r \in rs }
CutReg(rs, reg, bit) == UNION { { Cut(r, w) : w \in Widths(r, reg, bit) } : r \in rs }

----------------------------------------------------------------------------
(* Is a claim about pulled data true in every execution? *)
RegClaim(rs, reg, bit, c) ==
  c.k = "unk" \/
  \A r \in rs : \A w \in Widths(r, reg, bit) :
    /\ At(r, 0) = LowByte(reg, c)
    /\ w = 2 => At(r, 1) = HighByte(reg, c)
    /\ w = 1 /\ c.k = "val" => c.v < 256
BankClaim(rs, c) ==
  CASE c.k = "unk" -> TRUE
    [] c.k = "orig" -> \A r \in rs : At(r, 0) = BankByte
    [] c.k = "val" -> \A r \in rs : At(r, 0) = c.v
\* c.k = "unk", "byte" (value c.v), "raw" (token c.v), "flags" (c.f)
ByteClaim(rs, c) ==
  CASE c.k = "unk" -> TRUE
    [] c.k = "flags" -> \A r \in rs : At(r, 0) >= 3000 /\ Describes(c.f, r.entry, StatusOf(At(r, 0)))
    [] OTHER -> \A r \in rs : At(r, 0) = c.v
=============================================================================
