------------------------------ MODULE MCScope -------------------------------
(* Names as a process.  A reader passes a module twice with a stack of open
   scopes: first it writes definitions into the scope that is open (or into the
   outermost, if exported), then it looks every mention up, innermost scope
   first, other modules last.  For every small module beside another one: what is
   found is what Asm!Refers says, it is the innermost of the definitions around
   the mention, and it does not depend on definitions in scopes that are closed.
   The files are printed for the code to assemble. *)
EXTENDS Asm, Json
CONSTANTS Length0, Kinds0
VARIABLES files, ms, pass, pos, open, dict, found, broken, again
vars == <<files, ms, pass, pos, open, dict, found, broken, again>>

Few == {"{", "}", "aa: .db 1", "export aa: .db 2", ".dl aa,nn::aa"}
More == Few \union {"aa: {", "aa: }", ".dl mm::aa,nn::bb", "bb: .equ aa+1", ".dw bb"}
Most == More \union {"export bb: .equ nn::aa+aa", "export aa: .begin", "bb: .dl aa,::aa", ".dl cc", "aa: bb: .db 3"}
Alphabet == CASE Kinds0 = 1 -> Few [] Kinds0 = 2 -> More [] OTHER -> Most
Others == {<<>>, <<".module nn", ".org $9000", "aa: .db 9", "{", "bb: .db 8", "}", "export bb: .dl aa">>,
           <<".org $9000", "bb: .db 9", "aa: .equ 700">>}
RECURSIVE Depth(_, _, _)
\* scopes open after i lines; -1 once one too many was closed
Opens(s) == s \in {"{", "aa: {", "export aa: .begin"}
Shuts(s) == s \in {"}", "aa: }"}
Depth(c, i, d) == IF d < 0 \/ i > Len(c) THEN d
                  ELSE Depth(c, i + 1, IF Opens(c[i]) THEN d + 1 ELSE IF Shuts(c[i]) THEN d - 1 ELSE d)
\* those whose scopes do not match are told from a few
Legal(c) == Length0 <= 2 \/ Depth(c, 1, 0) = 0
Init == /\ \E c \in [1 .. Length0 -> Alphabet], o \in Others, n \in {"mm", ""} :
             /\ Legal(c) /\ (n = "" => o # <<>>)
             /\ files = <<(IF n = "" THEN <<>> ELSE <<".module " \o n>>) \o <<".org $8000">> \o c \o <<".db 7">>>>
                        \o (IF o = <<>> THEN <<>> ELSE <<o>>)
        /\ ms = <<>> /\ pass = 0 /\ pos = 1 /\ open = <<>> /\ dict = <<>> /\ found = <<>> /\ broken = FALSE /\ again = FALSE
Read1 == /\ pass = 0 /\ pass' = 1
         /\ ms' = TLCEval([k \in DOMAIN files |-> Load(files[k])])
         /\ UNCHANGED <<files, pos, open, dict, found, broken, again>>
M == ms[1]
S == M.s[pos]
Ready == pass > 0 /\ ~broken /\ M.bad \subseteq {"duplicate", "scope"} /\ pos <= Len(M.s)
\* scopes are named by how many were opened before
Count == Cardinality({ i \in 1 .. pos : IsDir(M.s[i].e, "begin") })
Move == IF IsDir(S.e, "begin") THEN open' = Append(open, Count) /\ UNCHANGED broken
        ELSE IF IsDir(S.e, "end") THEN IF open = <<>> THEN broken' = TRUE /\ UNCHANGED open
                                       ELSE open' = Front(open) /\ UNCHANGED broken
        ELSE UNCHANGED <<open, broken>>
\* labels written before this statement, as the text has them
Own == { q \in M.lab : q[3] = pos }
Exported(q) == q[1] = 0
Define == /\ pass = 1 /\ Ready
          /\ LET keys == { <<IF Exported(q) \/ open = <<>> THEN 0 ELSE Last(open), q[2]>> : q \in Own }
             IN /\ dict' = [x \in DOMAIN dict \union keys |-> IF x \in keys THEN pos ELSE dict[x]]
                /\ again' = (again \/ keys \cap DOMAIN dict # {})
          /\ Move /\ pos' = pos + 1 /\ UNCHANGED <<files, ms, pass, found>>
Turn == /\ pass = 1 /\ ~broken /\ pos > Len(M.s) /\ M.bad \subseteq {"duplicate", "scope"}
        /\ pass' = 2 /\ pos' = 1 /\ open' = <<>> /\ broken' = (open # <<>>)
        /\ UNCHANGED <<files, ms, dict, found, again>>
RECURSIVE Up(_, _)
Up(name, q) == IF q = <<>> THEN IF <<0, name>> \in DOMAIN dict THEN dict[<<0, name>>] ELSE 0
               ELSE IF <<Last(q), name>> \in DOMAIN dict THEN dict[<<Last(q), name>>] ELSE Up(name, Front(q))
\* definitions of the other file that can be seen from here
Abroad(mod, name) == IF Len(ms) = 1 THEN 0
                     ELSE LET hit == { l \in ms[2].lab : l[1] = 0 /\ l[2] = name /\ ms[2].name = mod }
                          IN IF hit = {} THEN 0 ELSE (CHOOSE l \in hit : TRUE)[3]
Means(id) ==
  LET near == IF ~id[4] THEN Up(id[3], open)
              ELSE IF id[2] = M.name THEN Up(id[3], <<>>) ELSE 0
      far == Abroad(IF id[4] THEN id[2] ELSE "", id[3])
  IN IF near # 0 THEN <<1, near>> ELSE IF far # 0 THEN <<2, far>> ELSE <<>>
Mentions == LET e == S.e IN Names(e.a) \union UNION { Names(e.list[j]) : j \in DOMAIN e.list }
Lookup == /\ pass = 2 /\ Ready
          /\ LET new == IF IsDir(S.e, "module") THEN {} ELSE Mentions
             IN found' = found @@ [x \in { <<pos, id>> : id \in new } |-> Means(x[2])]
          /\ Move /\ pos' = pos + 1 /\ UNCHANGED <<files, ms, pass, dict, again>>
Next == Read1 \/ Define \/ Turn \/ Lookup
Spec == Init /\ [][Next]_vars

Done == pass = 2 /\ ~broken /\ pos > Len(M.s)
\* faults of scopes are seen where the text is loaded
ScopesMatch == (broken => "scope" \in M.bad) /\ (Done => "scope" \notin M.bad)
Duplicates == Done => again = ("duplicate" \in M.bad)
Sane == Done /\ M.bad = {}
SameMeaning == Sane => \A x \in DOMAIN found : found[x] = Refers(ms, 1, x[1], x[2])
\* the innermost definition around the mention: scopes are prefixes of each other
Around(l, i) == l[1] = 0 \/ \E j \in DOMAIN M.s[i].scopes : M.s[i].scopes[j] = l[1]
Deep0(l) == IF l[1] = 0 THEN 0 ELSE Len(M.s[l[1]].scopes) + 1
Innermost ==
  Sane => \A x \in DOMAIN found :
    ~x[2][4] => LET seen == { l \in M.lab : l[2] = x[2][3] /\ Around(l, x[1]) }
                IN IF seen = {} THEN found[x] = <<>> \/ found[x][1] = 2
                   ELSE \E l \in seen : found[x] = <<1, l[3]>> /\ \A o \in seen : Deep0(o) <= Deep0(l)
Emit == pass = 0 => PrintT("LINE " \o ToJson([files |-> files]))
=============================================================================
