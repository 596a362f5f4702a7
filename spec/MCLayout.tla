------------------------------ MODULE MCLayout ------------------------------
(* Layout as a process.  Every file has a cursor; statements are passed one by
   one, an origin moves the cursor, a byte moves it to the next address of its
   bank.  On the second pass the files write their bytes, one at a time and
   interleaved in any way, and a byte that has an owner stops everything.  For
   every small set of files: the labels are where the first pass found them, the
   writing is stopped exactly when Asm says so, whatever the interleaving, and
   else memory holds the cells Asm derives.  The files are printed for the code
   to assemble. *)
EXTENDS Asm, Json
CONSTANTS Files0, Length0, Rich
VARIABLES files, ms, r, pass, pos, cur, left, labels, mem, stopped
vars == <<files, ms, r, pass, pos, cur, left, labels, mem, stopped>>

Small == {".org $00fffe", ".org $000000", "~a: .db 1", "~b: .dw ~a,2", ".dl ~b"}
Large == Small \union {".org $00ffff", ".org $ffffff", "~a: .org $00fffd", "~a: .dl 1,~a", "~b: .equ ~a+1",
                       ".entry m8x8|beq ~a|rts", ".entry m16x8|~b: lda #<~a|jmp ~b", ".dw ~b-~a",
                       "~a: {|.db 9|~b: .end", "~b: .db 3"}
Alphabet == IF Rich THEN Large ELSE Small
\* the names of file i
NameOf0(i) == <<"k", "n">>[i]
RECURSIVE Filled(_, _), Split(_, _)
Filled(s, n) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "~" THEN n ELSE SubSeq(s, 1, 1)) \o Filled(SubSeq(s, 2, Len(s)), n)
Split(s, line) == IF s = "" THEN <<line>>
                  ELSE IF SubSeq(s, 1, 1) = "|" THEN <<line>> \o Split(SubSeq(s, 2, Len(s)), "")
                  ELSE Split(SubSeq(s, 2, Len(s)), line \o SubSeq(s, 1, 1))
Written == TLCEval([i \in 1 .. 2 |-> [x \in Large |-> Split(Filled(x, NameOf0(i)), "")]])
File(i, c) == FlatCells([j \in DOMAIN c |-> Written[i][c[j]]], 1)
\* names that are not defined anywhere are defined at the ends
HasName(ls, n) == \E j \in DOMAIN ls : Len(ls[j]) > 2 /\ SubSeq(ls[j], 1, 3) = n \o ":"
Closed(i, ls) == (IF HasName(ls, NameOf0(i) \o "a") THEN <<>> ELSE <<NameOf0(i) \o "a: .equ 5">>)
                 \o ls \o (IF HasName(ls, NameOf0(i) \o "b") THEN <<>> ELSE <<NameOf0(i) \o "b: .db 6">>)
Init == /\ \E c \in [1 .. Files0 -> [1 .. Length0 -> Alphabet]], f \in {".org $00fffd", ".org $00fffb"} :
             files = [i \in 1 .. Files0 |-> <<IF i = 1 THEN f ELSE ".org $00fffe">> \o Closed(i, File(i, c[i]))]
        /\ ms = <<>> /\ r = <<>> /\ pass = 0 /\ pos = <<>> /\ cur = <<>> /\ left = <<>>
        /\ labels = <<>> /\ mem = <<>> /\ stopped = FALSE
Restart == /\ pos' = [k \in DOMAIN files |-> 1]
           /\ cur' = [k \in DOMAIN files |-> -1]
           /\ left' = [k \in DOMAIN files |-> -1]
Read1 == /\ pass = 0 /\ pass' = 1
         /\ ms' = TLCEval([k \in DOMAIN files |-> Load(files[k])])
         /\ r' = TLCEval(Assembly(files))
         /\ Restart /\ UNCHANGED <<files, labels, mem, stopped>>
\* only what can be laid out at all
Sound == r.must \subseteq {"written twice"} /\ r.may = {}
Stm(k) == ms[k].s[pos[k]].e
Ahead(a) == IF a % 65536 = 65535 THEN a - 65535 ELSE a + 1
Size0(k) == IF Stm(k).k = "ins" THEN SizeAt(ms[k], FlowOf(ms[k]), pos[k]) ELSE PerEntry(Stm(k).name) * Len(Stm(k).list)
Origin(k) == IF IsDir(Stm(k), "org") THEN Eval(Stm(k).a, NoLook).v ELSE cur[k]
RECURSIVE Steps(_, _)
Steps(a, n) == IF n = 0 THEN a ELSE Steps(Ahead(a), n - 1)
\* the first pass: where everything is
Pass1(k) == /\ pass = 1 /\ pos[k] <= Len(ms[k].s)
            /\ labels' = labels @@ (<<k, pos[k]>> :> Origin(k))
            /\ cur' = [cur EXCEPT ![k] = Steps(Origin(k), Size0(k))]
            /\ pos' = [pos EXCEPT ![k] = @ + 1]
            /\ UNCHANGED <<files, ms, r, pass, left, mem, stopped>>
Turn == /\ pass = 1 /\ \A k \in DOMAIN files : pos[k] > Len(ms[k].s)
        /\ pass' = 2 /\ Restart /\ UNCHANGED <<files, ms, r, labels, mem, stopped>>
\* the second: byte by byte
Begin2(k) == /\ pass = 2 /\ ~stopped /\ pos[k] <= Len(ms[k].s) /\ left[k] < 0
             /\ left' = [left EXCEPT ![k] = Size0(k)]
             /\ cur' = [cur EXCEPT ![k] = Origin(k)]
             /\ UNCHANGED <<files, ms, r, pass, pos, labels, mem, stopped>>
Write(k) == /\ pass = 2 /\ ~stopped /\ left[k] > 0
            /\ IF cur[k] \in DOMAIN mem
               THEN stopped' = TRUE /\ UNCHANGED <<mem, cur, left>>
               ELSE /\ mem' = mem @@ (cur[k] :> <<k, pos[k], Size0(k) - left[k]>>)
                    /\ cur' = [cur EXCEPT ![k] = Ahead(@)]
                    /\ left' = [left EXCEPT ![k] = @ - 1]
                    /\ UNCHANGED stopped
            /\ UNCHANGED <<files, ms, r, pass, pos, labels>>
End2(k) == /\ pass = 2 /\ ~stopped /\ left[k] = 0
           /\ left' = [left EXCEPT ![k] = -1] /\ pos' = [pos EXCEPT ![k] = @ + 1]
           /\ UNCHANGED <<files, ms, r, pass, cur, labels, mem, stopped>>
\* files of one statement at a time are enough: a statement is taken up and left at once
Next == \/ Read1
        \/ pass > 0 /\ Sound /\ (Turn \/ \E k \in DOMAIN files :
              \/ Pass1(k) /\ \A j \in DOMAIN files : j < k => pos[j] > Len(ms[j].s)
              \/ Begin2(k) \/ Write(k) \/ End2(k))
Spec == Init /\ [][Next]_vars

Whole == pass = 2 /\ ~stopped /\ \A k \in DOMAIN files : pos[k] > Len(ms[k].s)
TwiceNoted == stopped => r.must = {"written twice"}
\* whatever the interleaving, an unstopped run writes exactly what Asm derives
SameCells == Whole => /\ r.must = {} /\ r.exact
                      /\ Owned(r) = DOMAIN mem /\ Len(r.cells) = Cardinality(DOMAIN mem)
SameBytes ==
  Whole => \A i \in DOMAIN r.cells :
             LET w == mem[r.cells[i][1]]
             IN StatementBytes(r.ms, r.pcs, r.fls, w[1], w[2]).bytes[w[3] + 1] = r.cells[i][2]
\* a label is the address of the first byte after it
SameLabels == (Whole /\ r.exact) => \A x \in DOMAIN labels :
                 /\ r.pcs[x[1]][x[2]] = labels[x]
                 /\ \A a \in DOMAIN mem : (mem[a][1] = x[1] /\ mem[a][2] = x[2] /\ mem[a][3] = 0) => a = labels[x]
Emit == pass = 0 => PrintT("LINE " \o ToJson([files |-> files]))
=============================================================================
