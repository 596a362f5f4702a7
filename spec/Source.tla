------------------------------- MODULE Source -------------------------------
(* The source language: a line of text is cut into tokens, parsed into labels
   and statements, and its expressions have a value and a width
   (property C23; nsasm/token.cc, parse.cc, expression.h, addressing_mode.cc). *)
EXTENDS Isa, Flags

DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
HexSet == DigitSet \union {"a","b","c","d","e","f","A","B","C","D","E","F"}
BinSet == {"0","1"}
LowerSet == { LowerChars[i] : i \in 1 .. 26 }
FirstSet == UpperSet \union LowerSet \union {"_"}
NameSet == FirstSet \union DigitSet
Space == {" ", "\t", "\n", "\r", "\f"}
Singles == {"(", ")", "[", "]", ",", ":", "#", "+", "-", "*", "/", "@", "{", "}", ">", "<", "^"}
DigitValue == [c \in HexSet |-> (CHOOSE i \in 1 .. 16 : HexDigits[i] =
                                   (IF c \in UpperSet THEN LowerOf[c] ELSE c)) - 1]
Directives == {"begin", "db", "dl", "dw", "end", "entry", "equ", "halt", "mode", "module", "org",
               "remote"}
Keywords == {"export", "noreturn", "yields"}
Registers == {"a", "s", "x", "y"}

----------------------------------------------------------------------------
(* Numbers.  A value too big for the machine is tagged "over". *)
MaxInt == 2147483647
Good(v) == [st |-> "ok", v |-> v]
Bad == [st |-> "err", v |-> 0]
Over == [st |-> "over", v |-> 0]
Abs(v) == IF v < 0 THEN -v ELSE v
Add2(a, b) == IF (b > 0 /\ a > MaxInt - b) \/ (b < 0 /\ a < -MaxInt - b) THEN Over ELSE Good(a + b)
Mul2(a, b) == IF a # 0 /\ Abs(b) > MaxInt \div Abs(a) THEN Over ELSE Good(a * b)
\* towards zero
Div2(a, b) == IF b = 0 THEN Bad
              ELSE LET q == Abs(a) \div Abs(b) IN Good(IF (a < 0) = (b < 0) THEN q ELSE -q)

RECURSIVE NumFrom(_, _, _, _)
NumFrom(s, i, base, acc) ==
  IF i > Len(s) THEN Good(acc)
  ELSE IF acc > (MaxInt - 15) \div base THEN Over
  ELSE NumFrom(s, i + 1, base, acc * base + DigitValue[Char(s, i)])

Unsigned(t) == CASE t = "signed byte" -> "byte" [] t = "signed word" -> "word"
                 [] t = "signed long" -> "long" [] OTHER -> t
SignedType(t) == CASE t = "byte" -> "signed byte" [] t = "word" -> "signed word"
                   [] t = "long" -> "signed long" [] OTHER -> t
Rank(t) == CASE Unsigned(t) = "byte" -> 1 [] Unsigned(t) = "word" -> 2
             [] Unsigned(t) = "long" -> 3 [] OTHER -> 0
Combine(t, u) ==
  IF t = "unknown" THEN u ELSE IF u = "unknown" THEN t
  ELSE LET w == IF Rank(t) >= Rank(u) THEN Unsigned(t) ELSE Unsigned(u)
       IN IF Unsigned(t) # t \/ Unsigned(u) # u THEN SignedType(w) ELSE w
CastUp(t, v) == CASE t = "byte" -> v % 256 [] t = "word" -> v % 65536 [] t = "long" -> v % 16777216
                  [] OTHER -> v

----------------------------------------------------------------------------
(* Tokens *)
Tok(k, s) == [k |-> k, s |-> s, n |-> 0, ty |-> "unknown", over |-> FALSE]
End == Tok("end", "")
P(s) == Tok("p", s)
NumTok(digits, base, ty) ==
  LET r == NumFrom(digits, 1, base, 0)
  IN [k |-> "num", s |-> "", n |-> r.v, ty |-> ty, over |-> r.st = "over"]
RECURSIVE RunEnd(_, _, _)
\* the first position from i on that is not in the set
RunEnd(s, i, set) == IF i <= Len(s) /\ Char(s, i) \in set THEN RunEnd(s, i + 1, set) ELSE i
At(s, i) == IF i <= Len(s) THEN Char(s, i) ELSE ""
WidthOfDigits(n, b, w) == IF n <= b THEN "byte" ELSE IF n <= w THEN "word" ELSE "long"
WordTok(w) ==
  LET f == Fold(w)
  IN CASE f \in Mnemonics -> Tok("mn", f)
       [] f \in Registers -> P(IF f = "a" THEN "A" ELSE IF f = "s" THEN "S" ELSE IF f = "x" THEN "X" ELSE "Y")
       [] f \in Keywords -> Tok("key", f)
       [] OTHER -> Tok("id", w)

Failed == <<Tok("error", "")>>
RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  LET c == At(s, i)
      two == SubSeq(s, i, IF i + 1 <= Len(s) THEN i + 1 ELSE Len(s))
      three == SubSeq(s, i, IF i + 2 <= Len(s) THEN i + 2 ELSE Len(s))
      number(from, set, base, b, w) ==
        LET e == RunEnd(s, from, set)
            ty == IF base = 10 THEN "unknown" ELSE WidthOfDigits(e - from, b, w)
        IN LexFrom(s, e, Append(acc, NumTok(SubSeq(s, from, e - 1), base, ty)))
  IN CASE c = "" \/ c = ";" -> Append(acc, End)
       [] c \in Space -> LexFrom(s, i + 1, acc)
       [] three \in {"+++", "---"} -> LexFrom(s, i + 3, Append(acc, P(three)))
       [] two \in {"::", "++", "--"} -> LexFrom(s, i + 2, Append(acc, P(two)))
       [] c \in Singles -> LexFrom(s, i + 1, Append(acc, P(c)))
       [] c = "$" /\ At(s, i + 1) \in HexSet -> number(i + 1, HexSet, 16, 2, 4)
       [] c = "0" /\ At(s, i + 1) \in {"x", "X"} /\ At(s, i + 2) \in HexSet ->
            number(i + 2, HexSet, 16, 2, 4)
       [] c = "%" /\ At(s, i + 1) \in BinSet -> number(i + 1, BinSet, 2, 8, 16)
       [] c \in DigitSet -> number(i, DigitSet, 10, 0, 0)
       [] c = "." ->
            LET e == RunEnd(s, i + 1, NameSet)
                f == Fold(SubSeq(s, i + 1, e - 1))
            IN IF f \in Directives THEN LexFrom(s, e, Append(acc, Tok("dir", f)))
               ELSE IF f \in {"b", "w"} THEN LexFrom(s, e, Append(acc, Tok("suf", f)))
               ELSE Failed
       [] c \in FirstSet -> LET e == RunEnd(s, i, NameSet)
                            IN LexFrom(s, e, Append(acc, WordTok(SubSeq(s, i, e - 1))))
       [] OTHER -> Failed
Lex(s) == LexFrom(s, 1, <<>>)

----------------------------------------------------------------------------
(* Expressions.  A parse from position p of tokens t gives the expression and
   the position after it; ok is FALSE when there is none.                     *)
Num(n, ty) == <<"num", CastUp(ty, n), ty>>
Name(mod, name, qual, ty) == <<"id", mod, name, qual, ty>>
Nothing == <<"none">>
Yes(e, p) == [ok |-> TRUE, e |-> e, p |-> p]
No == [ok |-> FALSE, e |-> Nothing, p |-> 0]
IsP(t, p, s) == t[p].k = "p" /\ t[p].s = s
AtEnd(t, p) == t[p].k = "end" \/ IsP(t, p, ":")

RECURSIVE Expr(_, _), Terms(_, _, _), Term(_, _), Factors(_, _, _), Factor(_, _)
Ident(t, p, ty) ==
  IF IsP(t, p, "::")
  THEN IF t[p + 1].k = "id" THEN Yes(Name("", t[p + 1].s, TRUE, ty), p + 2) ELSE No
  ELSE IF t[p].k # "id" THEN No
  ELSE IF IsP(t, p + 1, "::")
  THEN IF t[p + 2].k = "id" THEN Yes(Name(t[p].s, t[p + 2].s, TRUE, ty), p + 3) ELSE No
  ELSE Yes(Name("", t[p].s, FALSE, ty), p + 1)
Comp(t, p) ==
  CASE t[p].k = "num" -> Yes(IF t[p].over THEN <<"over">> ELSE Num(t[p].n, t[p].ty), p + 1)
    [] IsP(t, p, "@") -> Ident(t, p + 1, "long")
    [] IsP(t, p, "::") \/ t[p].k = "id" -> Ident(t, p, "word")
    [] IsP(t, p, "(") -> LET r == Expr(t, p + 1)
                         IN IF r.ok /\ IsP(t, r.p, ")") THEN Yes(r.e, r.p + 1) ELSE No
    [] OTHER -> No
Factor(t, p) ==
  IF t[p].k = "p" /\ t[p].s \in {"-", "<", ">", "^"}
  THEN LET r == Factor(t, p + 1) IN IF r.ok THEN Yes(<<"un", t[p].s, r.e>>, r.p) ELSE No
  ELSE Comp(t, p)
Factors(t, p, left) ==
  IF t[p].k = "p" /\ t[p].s \in {"*", "/"}
  THEN LET r == Factor(t, p + 1)
       IN IF r.ok THEN Factors(t, r.p, <<"bin", t[p].s, left, r.e>>) ELSE No
  ELSE Yes(left, p)
Term(t, p) == LET r == Factor(t, p) IN IF r.ok THEN Factors(t, r.p, r.e) ELSE No
Terms(t, p, left) ==
  IF t[p].k = "p" /\ t[p].s \in {"+", "-"}
  THEN LET r == Term(t, p + 1)
       IN IF r.ok THEN Terms(t, r.p, <<"bin", t[p].s, left, r.e>>) ELSE No
  ELSE Yes(left, p)
Expr(t, p) == LET r == Term(t, p) IN IF r.ok THEN Terms(t, r.p, r.e) ELSE No

RECURSIVE TypeOf(_)
TypeOf(e) == CASE e[1] = "num" -> e[3]
               [] e[1] = "id" -> e[5]
               [] e[1] = "un" -> IF e[2] = "-" THEN SignedType(TypeOf(e[3])) ELSE "byte"
               [] e[1] = "bin" -> Combine(TypeOf(e[3]), TypeOf(e[4]))
               [] OTHER -> "unknown"
RECURSIVE Names(_)
\* the names an expression mentions
Names(e) == CASE e[1] = "id" -> {e}
              [] e[1] = "un" -> Names(e[3])
              [] e[1] = "bin" -> Names(e[3]) \union Names(e[4])
              [] OTHER -> {}
Worse(a, b) == IF a.st = "err" \/ b.st = "err" THEN Bad ELSE Over
RECURSIVE Eval(_, _)
\* look[id] gives the value of a name
Eval(e, look) ==
  CASE e[1] = "num" -> Good(e[2])
    [] e[1] = "id" -> IF e \in DOMAIN look THEN look[e] ELSE Bad
    [] e[1] = "un" ->
         LET r == Eval(e[3], look)
         IN IF r.st # "ok" THEN r
            ELSE (CASE e[2] = "-" -> Good(-r.v)
                   [] e[2] = "<" -> Good(r.v % 256)
                   [] e[2] = ">" -> Good((r.v \div 256) % 256)
                   [] e[2] = "^" -> Good((r.v \div 65536) % 256))
    [] e[1] = "bin" ->
         LET a == Eval(e[3], look)
             b == Eval(e[4], look)
         IN IF a.st # "ok" \/ b.st # "ok" THEN Worse(a, b)
            ELSE (CASE e[2] = "+" -> Add2(a.v, b.v)
                   [] e[2] = "-" -> Add2(a.v, -b.v)
                   [] e[2] = "*" -> Mul2(a.v, b.v)
                   [] e[2] = "/" -> Div2(a.v, b.v))
    [] e[1] = "over" -> Over
    [] OTHER -> Bad
NoLook == <<>>
Plain(e) == e[1] \in {"num", "id", "none"}
SimpleName(e) == e[1] = "id" /\ ~e[4]

----------------------------------------------------------------------------
(* Operands: the syntactic form and the width of the argument select the mode *)
ByWidth == [dir |-> <<"dirb", "dirw", "dirl">>, dirx |-> <<"dirbx", "dirwx", "dirlx">>,
            diry |-> <<"dirby", "dirwy", "none">>, ind |-> <<"indb", "indw", "none">>,
            indx |-> <<"indbx", "indwx", "none">>, indy |-> <<"indby", "none", "none">>,
            lng |-> <<"lngb", "lngw", "none">>, lngy |-> <<"lngby", "none", "none">>]
\* does a number without a width of its own fit?
Fits(e, lo, hi) == LET r == Eval(e, NoLook) IN r.st = "ok" /\ r.v >= lo /\ r.v < hi
IsByte(e) == LET t == Unsigned(TypeOf(e)) IN t = "byte" \/ (t = "unknown" /\ Fits(e, -128, 256))
IsWord(e) == LET t == Unsigned(TypeOf(e)) IN t = "word" \/ (t = "unknown" /\ Fits(e, -32768, 65536))
Has(mn, m) == <<Real(mn), m>> \in Pairs
Only(mn, m) == IF Has(mn, m) THEN m ELSE "none"
BranchMode(mn) == IF Has(mn, "rel8") THEN "rel8" ELSE IF Has(mn, "rel16") THEN "rel16" ELSE "none"
ModeFor(mn, form, a, b) ==
  IF BranchMode(mn) # "none"
  THEN IF form = "dir" /\ SimpleName(a) THEN BranchMode(mn) ELSE "none"
  ELSE CASE form = "imp" -> IF Has(mn, "acc") THEN "acc" ELSE Only(mn, "imp")
         [] form = "acc" -> Only(mn, "acc")
         [] form = "imm" -> IF Has(mn, "immm") THEN "immm"
                            ELSE IF Has(mn, "immx") THEN "immx"
                            ELSE IF Has(mn, "immb") THEN IF IsByte(a) THEN "immb" ELSE "none"
                            ELSE IF Has(mn, "immw") /\ IsWord(a) THEN "immw" ELSE "none"
         [] form \in {"stk", "stky"} -> IF IsByte(a) THEN Only(mn, form) ELSE "none"
         [] form = "mov" -> IF IsByte(a) /\ IsByte(b) THEN Only(mn, "mov") ELSE "none"
         [] OTHER -> IF Rank(TypeOf(a)) = 0 THEN "none"
                     ELSE LET m == ByWidth[form][Rank(TypeOf(a))]
                          IN IF m = "none" THEN "none" ELSE Only(mn, m)

Stop(t, p) == AtEnd(t, p) \/ (t[p].k = "key" /\ t[p].s \in {"yields", "noreturn"})
Form(f, a, b, p) == [ok |-> TRUE, form |-> f, a |-> a, b |-> b, p |-> p]
NoForm == [ok |-> FALSE, form |-> "", a |-> Nothing, b |-> Nothing, p |-> 0]
\* f when the operand ends at p
Ending(t, p, f, a, b) == IF Stop(t, p) THEN Form(f, a, b, p) ELSE NoForm
Is3(t, p, x, y, z) == IsP(t, p, x) /\ IsP(t, p + 1, y) /\ IsP(t, p + 2, z)
DirectOperand(t, p) ==
  LET r == Expr(t, p)
  IN IF ~r.ok THEN NoForm
     ELSE IF Stop(t, r.p) THEN Form("dir", r.e, Nothing, r.p)
     ELSE IF ~IsP(t, r.p, ",") THEN NoForm
     ELSE CASE IsP(t, r.p + 1, "X") -> Ending(t, r.p + 2, "dirx", r.e, Nothing)
            [] IsP(t, r.p + 1, "Y") -> Ending(t, r.p + 2, "diry", r.e, Nothing)
            [] IsP(t, r.p + 1, "S") -> Ending(t, r.p + 2, "stk", r.e, Nothing)
            [] OTHER -> NoForm
Operand(t, p) ==
  CASE Stop(t, p) -> Form("imp", Nothing, Nothing, p)
    [] IsP(t, p, "A") -> Ending(t, p + 1, "acc", Nothing, Nothing)
    [] IsP(t, p, "#") ->
         LET r == Expr(t, p + 1)
         IN IF ~r.ok THEN NoForm
            ELSE IF Stop(t, r.p) THEN Form("imm", r.e, Nothing, r.p)
            ELSE IF IsP(t, r.p, ",") /\ IsP(t, r.p + 1, "#")
            THEN LET q == Expr(t, r.p + 2)
                 IN IF q.ok THEN Ending(t, q.p, "mov", r.e, q.e) ELSE NoForm
            ELSE NoForm
    [] IsP(t, p, "[") ->
         LET r == Expr(t, p + 1)
         IN IF ~r.ok \/ ~IsP(t, r.p, "]") THEN NoForm
            ELSE IF Stop(t, r.p + 1) THEN Form("lng", r.e, Nothing, r.p + 1)
            ELSE IF IsP(t, r.p + 1, ",") /\ IsP(t, r.p + 2, "Y")
            THEN Ending(t, r.p + 3, "lngy", r.e, Nothing) ELSE NoForm
    [] IsP(t, p, "(") ->
         LET r == Expr(t, p + 1)
         IN IF ~r.ok THEN NoForm
            ELSE IF IsP(t, r.p, ",")
            THEN CASE IsP(t, r.p + 1, "X") /\ IsP(t, r.p + 2, ")") ->
                        Ending(t, r.p + 3, "indx", r.e, Nothing)
                   [] IsP(t, r.p + 1, "S") /\ Is3(t, r.p + 2, ")", ",", "Y") ->
                        Ending(t, r.p + 5, "stky", r.e, Nothing)
                   [] OTHER -> NoForm
            ELSE IF IsP(t, r.p, ")") /\ Stop(t, r.p + 1)
            THEN Form("ind", r.e, Nothing, r.p + 1)
            ELSE IF IsP(t, r.p, ")") /\ IsP(t, r.p + 1, ",")
            THEN IF IsP(t, r.p + 2, "Y") THEN Ending(t, r.p + 3, "indy", r.e, Nothing) ELSE NoForm
            ELSE DirectOperand(t, p)      \* a parenthesised subexpression
    [] OTHER -> DirectOperand(t, p)

----------------------------------------------------------------------------
(* Lines: labels and statements *)
Entity(k) == [k |-> k, name |-> "", suf |-> "", mode |-> "", a |-> Nothing, b |-> Nothing,
              list |-> <<>>, flags |-> Default, ret |-> Default, exported |-> FALSE]
Label(n, x) == [Entity("label") EXCEPT !.name = n, !.exported = x]
Dir(n) == [Entity("dir") EXCEPT !.name = n]
Got(e, p) == [ok |-> TRUE, e |-> e, p |-> p]
NotGot == [ok |-> FALSE, e |-> Entity("none"), p |-> 0]

ModeName(t, p) == t[p].k = "id" /\ FromName(t[p].s) # Tag("none")
\* the optional return convention at p
Ret(t, p) ==
  IF t[p].k = "key" /\ t[p].s = "noreturn" THEN [ok |-> TRUE, r |-> NoReturn, p |-> p + 1]
  ELSE IF t[p].k = "key" /\ t[p].s = "yields"
  THEN IF ModeName(t, p + 1) THEN [ok |-> TRUE, r |-> FromName(t[p + 1].s), p |-> p + 2]
       ELSE [ok |-> FALSE, r |-> Default, p |-> 0]
  ELSE [ok |-> TRUE, r |-> Default, p |-> p]

InstructionAt(t, p) ==
  LET mn == t[p].s
      suf == IF t[p + 1].k = "suf" THEN t[p + 1].s ELSE ""
      f == Operand(t, IF suf = "" THEN p + 1 ELSE p + 2)
      m == IF f.ok THEN ModeFor(mn, f.form, f.a, f.b) ELSE "none"
      r == Ret(t, f.p)
  IN IF ~f.ok \/ m = "none" \/ (suf # "" /\ WidthOf(mn) = "none") THEN NotGot
     ELSE IF ~r.ok \/ ~AtEnd(t, r.p) \/ (r.r # Default /\ mn \notin {"jsr", "jsl"}) THEN NotGot
     ELSE Got([Entity("ins") EXCEPT !.name = mn, !.suf = suf, !.mode = m, !.a = f.a, !.b = f.b,
                                    !.ret = r.r], r.p)

RECURSIVE ListAt(_, _, _)
ListAt(t, p, acc) ==
  LET r == Expr(t, p)
  IN IF ~r.ok THEN [ok |-> FALSE, l |-> <<>>, p |-> 0]
     ELSE IF AtEnd(t, r.p) THEN [ok |-> TRUE, l |-> Append(acc, r.e), p |-> r.p]
     ELSE IF IsP(t, r.p, ",") THEN ListAt(t, r.p + 1, Append(acc, r.e))
     ELSE [ok |-> FALSE, l |-> <<>>, p |-> 0]
\* mode name, then an optional return convention
Convention(t, p, d) ==
  IF ~ModeName(t, p) THEN NotGot
  ELSE LET r == Ret(t, p + 1)
       IN IF r.ok /\ AtEnd(t, r.p) THEN Got([d EXCEPT !.flags = FromName(t[p].s), !.ret = r.r], r.p)
          ELSE NotGot
DirectiveAt(t, p) ==
  LET n == t[p].s
      d == Dir(n)
      q == p + 1
  IN CASE n \in {"begin", "end", "halt"} -> IF AtEnd(t, q) THEN Got(d, q) ELSE NotGot
       [] n \in {"equ", "org", "module"} ->
            LET r == Expr(t, q)
            IN IF r.ok /\ AtEnd(t, r.p) /\ (n = "org" => Names(r.e) = {}) /\ (n = "module" => SimpleName(r.e))
               THEN Got([d EXCEPT !.a = r.e], r.p) ELSE NotGot
       [] n \in {"db", "dw", "dl"} ->
            LET r == ListAt(t, q, <<>>) IN IF r.ok THEN Got([d EXCEPT !.list = r.l], r.p) ELSE NotGot
       [] n = "mode" -> IF ModeName(t, q) /\ AtEnd(t, q + 1)
                        THEN Got([d EXCEPT !.flags = FromName(t[q].s)], q + 1) ELSE NotGot
       [] n = "entry" -> Convention(t, q, d)
       [] n = "remote" -> LET r == Expr(t, q)
                          IN IF r.ok THEN Convention(t, r.p, [d EXCEPT !.a = r.e]) ELSE NotGot

Line(es) == [ok |-> TRUE, es |-> es]
NoLine == [ok |-> FALSE, es |-> <<>>]
RECURSIVE LineFrom(_, _, _)
LineFrom(t, p, acc) ==
  LET exported == t[p].k = "key" /\ t[p].s = "export"
      q == IF exported THEN p + 1 ELSE p
      labelled == t[q].k = "id"
      acc2 == IF labelled THEN Append(acc, Label(t[q].s, exported)) ELSE acc
      s == IF labelled THEN q + 1 ELSE q
  IN IF t[p].k = "end" THEN Line(acc)
     ELSE IF exported /\ ~labelled THEN NoLine
     ELSE IF t[s].k = "end" THEN Line(acc2)
     ELSE IF IsP(t, s, ":") THEN LineFrom(t, s + 1, acc2)
     ELSE IF IsP(t, s, "{") THEN LineFrom(t, s + 1, Append(acc2, Dir("begin")))
     ELSE IF IsP(t, s, "}") THEN LineFrom(t, s + 1, Append(acc2, Dir("end")))
     ELSE LET r == CASE t[s].k = "dir" -> DirectiveAt(t, s)
                     [] t[s].k = "mn" -> InstructionAt(t, s)
                     [] OTHER -> NotGot
          IN IF ~r.ok THEN NoLine
             ELSE IF t[r.p].k = "end" THEN Line(Append(acc2, r.e))
             ELSE LineFrom(t, r.p + 1, Append(acc2, r.e))
ParseLine(s) == LET t == Lex(s) IN IF t = Failed THEN NoLine ELSE LineFrom(t, 1, <<>>)
\* is a literal out of the machine's range?
Wild(s) == LET t == Lex(s) IN \E i \in DOMAIN t : t[i].over
ParseExpr(s) == LET t == Lex(s)
                    r == IF t = Failed THEN No ELSE Expr(t, 1)
                IN IF r.ok /\ AtEnd(t, r.p) THEN r ELSE No
PlainEntity(e) == Plain(e.a) /\ Plain(e.b) /\ \A i \in DOMAIN e.list : Plain(e.list[i])
=============================================================================
