------------------------------ MODULE Numbers ------------------------------
(* 24-bit addresses and sized integers (property C09; nsasm/address.h,
   numeric_type.h).  Word sizes are constants, so that the laws can be checked
   exhaustively on tiny words and the operators used at full size. *)
EXTENDS Text, FiniteSets

CONSTANTS ByteMod, WordMod, LongMod     \* 256, 65536, 16777216

Types == {"unknown", "byte", "word", "long", "signed byte", "signed word", "signed long"}
ModOf(t) == CASE t \in {"byte", "signed byte"} -> ByteMod
              [] t \in {"word", "signed word"} -> WordMod
              [] t \in {"long", "signed long"} -> LongMod
IsSigned(t) == t \in {"signed byte", "signed word", "signed long"}
Unsigned(t) == CASE t = "signed byte" -> "byte" [] t = "signed word" -> "word"
                 [] t = "signed long" -> "long" [] OTHER -> t
Signed(t) == CASE t = "byte" -> "signed byte" [] t = "word" -> "signed word"
               [] t = "long" -> "signed long" [] OTHER -> t
Rank(t) == CASE Unsigned(t) = "byte" -> 1 [] Unsigned(t) = "word" -> 2
             [] Unsigned(t) = "long" -> 3 [] OTHER -> 0

\* keep the low bits, read them with the sign of the type
Cast(t, v) ==
  IF t = "unknown" THEN v
  ELSE LET m == ModOf(t)
           u == v % m
       IN IF IsSigned(t) /\ u >= m \div 2 THEN u - m ELSE u

Combine(t, u) ==
  IF t = "unknown" THEN u ELSE IF u = "unknown" THEN t
  ELSE LET w == IF Rank(t) >= Rank(u) THEN Unsigned(t) ELSE Unsigned(u)
       IN IF IsSigned(t) \/ IsSigned(u) THEN Signed(w) ELSE w

\* addresses: banks of WordMod bytes
Bank(a) == a \div WordMod
Off(a) == a % WordMod
Advance(a, n) == Bank(a) * WordMod + ((Off(a) + n) % WordMod)
Diff(a, b) == LET d == (Off(a) - Off(b)) % WordMod
              IN IF d >= WordMod \div 2 THEN d - WordMod ELSE d

----------------------------------------------------------------------------
(* Laws, one state per combination *)
CONSTANTS MaxValue, MaxOffset
Values == -MaxValue .. MaxValue
Offsets == -MaxOffset .. MaxOffset
VARIABLES t, u, v, a, b
nvars == <<t, u, v, a, b>>
LawTypes == t \in Types /\ u \in Types /\ v \in Values /\ a = 0 /\ b = 0
LawAddrs == t = "byte" /\ u = "byte" /\ v \in Offsets /\ a \in 0 .. LongMod - 1
            /\ b \in 0 .. LongMod - 1
NInit == LawTypes \/ LawAddrs
NSpec == NInit /\ [][UNCHANGED nvars]_nvars

CastFits == t # "unknown" => /\ Cast(t, v) % ModOf(t) = v % ModOf(t)
                             /\ IF IsSigned(t)
                                THEN Cast(t, v) >= -(ModOf(t) \div 2) /\ Cast(t, v) < ModOf(t) \div 2
                                ELSE Cast(t, v) >= 0 /\ Cast(t, v) < ModOf(t)
CastIdempotent == Cast(t, Cast(t, v)) = Cast(t, v)
CombineLaws == /\ Combine(t, u) = Combine(u, t)
               /\ Combine(t, t) = t
               /\ t # "unknown" /\ u # "unknown" =>
                    /\ Rank(Combine(t, u)) = (IF Rank(t) > Rank(u) THEN Rank(t) ELSE Rank(u))
                    /\ IsSigned(Combine(t, u)) = (IsSigned(t) \/ IsSigned(u))
               /\ \A w \in Types : Combine(Combine(t, u), w) = Combine(t, Combine(u, w))
AdvanceInBank == Bank(Advance(a, v)) = Bank(a)
AdvanceAdds == \A n \in Offsets : Advance(Advance(a, v), n) = Advance(a, v + n)
DiffUndone == Bank(a) = Bank(b) =>
                /\ Advance(b, Diff(a, b)) = a
                /\ Diff(a, b) >= -(WordMod \div 2) /\ Diff(a, b) < WordMod \div 2
=============================================================================
