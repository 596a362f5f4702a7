----------------------------- MODULE MCTargets ------------------------------
(* Jumps out of the assembled code as executions make them.  Processors run
   through the files from all entries, in every state, one step at a time; one
   that stands at a jump leaves for a place of its own bank or another.  For
   every small pair of files: a place that is left for and that no file assembles
   is reported, what is reported is left for by some statement (or declared), the
   knowledge that the design reports (the merge of what is known at all the
   jumps) describes every processor that leaves, and the order of the files does
   not matter.  The files are printed for the code to assemble. *)
EXTENDS Asm, Json
CONSTANTS Length0, Rich
VARIABLES files, r, seen, front   \* processors are <<file, statement, run>>
vars == <<files, r, seen, front>>

Small == {"jsl $00a000", "jsr $a000 yields m16x16", "jsr $9000", "rep #$30", "sec", "xce", "bcc zz"}
Large == Small \union {"jsl $018000", "sep #$20", "php", "plp", "jsr $8000", "jsl $00a000 yields m8x8", "jsr aa", "lda $a000",
                       "jsl $00a000+$10", ".mode m8x16", "clc", "jmp $a000"}
Alphabet == IF Rich THEN Large ELSE Small
Exits0 == {"rts", "jmp $a000", "jmp @$00a000"}
Seconds == {<<>>, <<".org $9000", ".entry m8", "jmp $a000">>, <<".org $a000", "{", ".entry emu noreturn", "jsl $018000", "rts", "}">>,
            <<".org $9000", ".remote $00a000 m16x16 yields m8x8", ".remote $018000 emu", ".db 1">>}
File1(md, c, x) == <<".org $8000", "aa: .equ $a000", ".entry " \o md>> \o c \o <<"zz: " \o x>>
Init == /\ \E md \in {"m8x8", "native", "emu"}, c \in [1 .. Length0 -> Alphabet], x \in Exits0, o \in Seconds :
             files = <<File1(md, c, x)>> \o (IF o = <<>> THEN <<>> ELSE <<o>>)
        /\ r = <<>> /\ seen = {} /\ front = {}
\* what is known of the flags at each statement that leaves for a
Merged(fs) == [e |-> IF \A f, g \in fs : f.e = g.e THEN (CHOOSE f \in fs : TRUE).e ELSE "unk",
               m |-> IF \A f, g \in fs : f.m = g.m THEN (CHOOSE f \in fs : TRUE).m ELSE "unk",
               x |-> IF \A f, g \in fs : f.x = g.x THEN (CHOOSE f \in fs : TRUE).x ELSE "unk",
               c |-> IF \A f, g \in fs : f.c = g.c THEN (CHOOSE f \in fs : TRUE).c ELSE "unk"]
SaidAt(q, a) == { q.fls[s[2][1]].known[s[2][2]] : s \in { t \in FarSites(q) : t[1] = a /\ t[2][2] \in DOMAIN q.fls[t[2][1]].known } }
                \union { St(q, s[2]).flags : s \in { t \in RemoteSites(q) : t[1] = a } }
Backwards(fs) == [i \in DOMAIN fs |-> fs[Len(fs) + 1 - i]]
Read1 == /\ r = <<>> /\ UNCHANGED <<files, seen>>
         /\ LET ms == TLCEval([j \in DOMAIN files |-> Load(files[j])])
            IN /\ r' = TLCEval([g |-> [j \in DOMAIN ms |-> Graph(ms[j])],
                                \* (everything lies in bank 0)
                                far |-> [j \in DOMAIN ms |-> [i \in DOMAIN ms[j].s |-> FarSite(ms[j].s[i].e, 0)]]])
               /\ front' = UNION { UNION { { <<j, i + 1, s>> : s \in Starts(ms[j].s[i].e.flags) }
                                           : i \in Entries(ms[j]) } : j \in DOMAIN ms }
Step == /\ r # <<>> /\ front # {} /\ UNCHANGED <<files, r>>
        /\ seen' = seen \union front
        /\ front' = UNION { IF p[2] \notin DOMAIN r.g[p[1]] THEN {}
                            ELSE { <<p[1], q[1], q[2]>> : q \in After(r.g[p[1]], p[2], p[3]) } : p \in front } \ seen'
Next == Read1 \/ Step
Spec == Init /\ [][Next]_vars

Leaving == { p \in seen : p[2] \in DOMAIN r.far[p[1]] /\ r.far[p[1]][p[2]] >= 0 }
Reported ==
  (r # <<>> /\ front = {}) =>
    LET q == TLCEval(Assembly(files))
        o == IF Len(files) = 1 THEN q ELSE TLCEval(Assembly(Backwards(files)))
        ts == TLCEval(Targets(q))
        said == TLCEval([a \in ts |-> SaidAt(q, a)])
    IN /\ q.exact = o.exact /\ q.must = o.must
       /\ q.exact => /\ Targets(o) = ts
                     /\ \A a \in ts : said[a] # {} /\ Covers(q, a, Merged(said[a]))
                     /\ \A p \in Leaving : LET a == r.far[p[1]][p[2]]
                                           IN IF a \in Owned(q) THEN a \notin ts
                                              ELSE a \in ts /\ Describes(Merged(said[a]), p[3].entry, p[3].now)
Emit == r = <<>> => PrintT("LINE " \o ToJson([files |-> files]))
=============================================================================
