------------------------------ MODULE MCSource ------------------------------
(* Laws of the grammar: an expression written with the fewest parentheses, or
   with all of them, reads back as itself; so does every instruction the
   processor has, in each of its operand forms. *)
EXTENDS Source, Json
CONSTANT Deep
VARIABLE s
Leaves == {Num(5, "unknown"), Num(18, "byte"), Num(4660, "word"), Name("", "foo", FALSE, "word"),
           Name("m", "foo", TRUE, "long")}
Unaries == {"-", "<", ">", "^"}
Binaries == {"+", "-", "*", "/"}
Over1(T) == T \union { <<"un", o, e>> : o \in Unaries, e \in T }
              \union { <<"bin", o, a, b>> : o \in Binaries, a \in T, b \in T }
Level1 == Over1(Leaves)
Level2 == IF Deep THEN { <<"bin", o, a, b>> : o \in Binaries, a \in Level1, b \in Leaves }
                      \union { <<"bin", o, a, b>> : o \in Binaries, a \in Leaves, b \in Level1 }
                      \union { <<"un", o, e>> : o \in Unaries, e \in Level1 }
          ELSE { <<"bin", o, a, b>> : o \in Binaries, a \in Level1, b \in {Num(5, "unknown")} }
                      \union { <<"bin", o, a, b>> : o \in Binaries, a \in {Num(5, "unknown")}, b \in Level1 }
                      \union { <<"un", o, e>> : o \in Unaries, e \in Level1 }

ShowNum(e) == IF e[3] = "unknown" THEN ToString(e[2])
              ELSE "$" \o Hex(e[2], 2 * Rank(e[3]))
ShowId(e) == (IF e[5] = "long" THEN "@" ELSE "") \o (IF e[4] THEN e[2] \o "::" ELSE "") \o e[3]
Prec(e) == IF e[1] = "bin" THEN IF e[2] \in {"+", "-"} THEN 1 ELSE 2 ELSE 3
RECURSIVE Written(_, _), Braced(_)
\* with parentheses where an operand binds less tightly than its place asks
Written(e, p) ==
  LET t == CASE e[1] = "num" -> ShowNum(e)
             [] e[1] = "id" -> ShowId(e)
             [] e[1] = "un" -> e[2] \o " " \o Written(e[3], 3)
             [] e[1] = "bin" -> Written(e[3], Prec(e)) \o " " \o e[2] \o " " \o Written(e[4], Prec(e) + 1)
  IN IF Prec(e) < p THEN "(" \o t \o ")" ELSE t
Braced(e) == CASE e[1] = "num" -> ShowNum(e)
               [] e[1] = "id" -> ShowId(e)
               [] e[1] = "un" -> "(" \o e[2] \o Braced(e[3]) \o ")"
               [] e[1] = "bin" -> "(" \o Braced(e[3]) \o e[2] \o Braced(e[4]) \o ")"

Forms == {"imp", "acc", "imm", "dir", "dirx", "diry", "ind", "indx", "indy", "lng", "lngy", "stk",
          "stky", "mov"}
ShowForm(f, a, b) ==
  LET t == Written(a, 0)
  IN CASE f = "imp" -> "" [] f = "acc" -> " A" [] f = "imm" -> " #" \o t [] f = "dir" -> " " \o t
       [] f = "dirx" -> " " \o t \o ", X" [] f = "diry" -> " " \o t \o ",y" [] f = "ind" -> " (" \o t \o ")"
       [] f = "indx" -> " (" \o t \o ",X)" [] f = "indy" -> " (" \o t \o "), Y"
       [] f = "lng" -> " [" \o t \o "]" [] f = "lngy" -> " [" \o t \o "],Y" [] f = "stk" -> " " \o t \o ",s"
       [] f = "stky" -> " (" \o t \o ", S), Y" [] f = "mov" -> " #" \o t \o ", #" \o Written(b, 0)
Args(f) == IF f \in {"imp", "acc"} THEN {Nothing} ELSE Leaves
Ins == { <<mn, f, a>> : mn \in Mnemonics, f \in Forms, a \in {Nothing} \union Leaves }

Init == s \in { <<"e", e>> : e \in Level1 \union Level2 }
           \union { <<"i", i>> : i \in { j \in Ins : j[3] \in Args(j[2]) } }
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

\* the text itself, read by the specified grammar, is the tree again
ReadsBack == s[1] = "e" => /\ ParseExpr(Written(s[2], 0)) = Yes(s[2], Len(Lex(Written(s[2], 0))))
                           /\ ParseExpr(Braced(s[2])).e = s[2]
Sized == s[1] = "e" => TypeOf(s[2]) \in {"unknown", "byte", "word", "long", "signed byte",
                                         "signed word", "signed long"}
InsReadsBack ==
  s[1] = "i" =>
    LET mn == s[2][1]
        f == s[2][2]
        a == s[2][3]
        b == IF f = "mov" THEN Num(7, "byte") ELSE Nothing
        m == ModeFor(mn, f, a, b)
        p == ParseLine(mn \o ShowForm(f, a, b))
    IN IF m = "none" THEN ~p.ok
       ELSE /\ p.ok
            /\ p.es = << [Entity("ins") EXCEPT !.name = mn, !.mode = m, !.a = a, !.b = b] >>
            /\ <<Real(mn), m>> \in Pairs
\* the lines of the language's instructions, for the code to read
Emit == s[1] = "i" =>
          LET b == IF s[2][2] = "mov" THEN Num(7, "byte") ELSE Nothing
              t == s[2][1] \o ShowForm(s[2][2], s[2][3], b)
          IN ParseLine(t).ok => PrintT("LINE " \o ToJson([text |-> t]))
=============================================================================
