-------------------------------- MODULE Text --------------------------------
(* String helpers.  TLC treats strings as sequences for Len, SubSeq and \o. *)
EXTENDS Integers, Sequences, TLC

UpperChars == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
               "Q","R","S","T","U","V","W","X","Y","Z">>
LowerChars == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
               "q","r","s","t","u","v","w","x","y","z">>
UpperSet == { UpperChars[i] : i \in 1 .. 26 }
LowerOf == [c \in UpperSet |-> LowerChars[CHOOSE i \in 1 .. 26 : UpperChars[i] = c]]

Char(s, i) == SubSeq(s, i, i)

RECURSIVE FoldFrom(_, _)
FoldFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Char(s, i)
       IN (IF c \in UpperSet THEN LowerOf[c] ELSE c) \o FoldFrom(s, i + 1)
\* ASCII lower case
Fold(s) == FoldFrom(s, 1)

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Hex(_, _)
\* at least w hexadecimal digits of n >= 0
Hex(n, w) == IF n < 16 /\ w <= 1 THEN HexDigits[n + 1]
             ELSE Hex(n \div 16, w - 1) \o HexDigits[(n % 16) + 1]
=============================================================================
