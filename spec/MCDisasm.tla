------------------------------ MODULE MCDisasm ------------------------------
(* Disassembling as a process: requests are made in any order; within one the
   pending addresses are taken up in any order; at the first that cannot be
   decoded the request is given up and nothing of it stays.  For every small
   image: between requests there is exactly what the granted requests lead to
   (Disasm!Wanted), which describes every execution; a request is refused only
   if it cannot be granted along with those granted before.  The images are
   printed for the code to disassemble. *)
EXTENDS Disasm, Json
CONSTANTS Count, Codes        \* how many bytes, and which
VARIABLES mem, reqs, left, st, busy, work, got, refused
vars == <<mem, reqs, left, st, busy, work, got, refused>>
NoConv == <<>>
Base == 32768
Image(b) == [kind |-> "flat", low |-> Base, banks |-> {0}, fill |-> 96,
             at |-> [a \in { Base + i - 1 : i \in DOMAIN b } |-> b[a - Base + 1]]]
Pairs0 == { <<<<0, "m8x8">>, <<0, "native">>>>, <<<<0, "m16x16">>, <<1, "m8x8">>>>,
            <<<<0, "native">>, <<2, "emu">>>>, <<<<0, "m8x8">>, <<2, "m16x16">>>> }
Init == /\ \E b \in [1 .. Count -> Codes] : mem = Image(b)
        /\ \E p \in Pairs0 : reqs = [i \in 1 .. 2 |-> [a |-> Base + p[i][1], m |-> p[i][2]]]
        /\ left = {1, 2} /\ st = <<>> /\ busy = [n |-> 0] /\ work = <<>> /\ got = {} /\ refused = {}
Ents(S) == { <<reqs[i].a, Named[reqs[i].m]>> : i \in S }
Ask(i) == /\ busy.n = 0 /\ i \in left
          /\ left' = left \ {i} /\ busy' = [n |-> i, st |-> st]
          /\ work' = [a \in {reqs[i].a} |-> Ana!Enter(Named[reqs[i].m])]
          /\ UNCHANGED <<mem, reqs, st, got, refused>>
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Idle == [n |-> 0]
TakeUp(a) ==
  LET old == busy.st
      s == IF a \in DOMAIN old THEN Ana!AMerge(old[a], work[a]) ELSE work[a]
      rest == Without(work, a)
  IN IF a \in DOMAIN old /\ s = old[a]
     THEN /\ work' = rest /\ UNCHANGED <<busy, refused>>
     ELSE IF ~InsAt(mem, a, s.f.m, s.f.x).ok
     THEN /\ busy' = Idle /\ work' = <<>> /\ refused' = refused \union {<<busy.n, got>>}
     ELSE /\ busy' = [busy EXCEPT !.st = [x \in DOMAIN @ \union {a} |-> IF x = a THEN s ELSE @[x]]]
          /\ work' = Absorb(rest, Edges(mem, NoConv, a, s), {}).st
          /\ UNCHANGED refused
Grant == /\ busy.n # 0 /\ work = <<>>
         /\ st' = busy.st /\ got' = got \union {busy.n} /\ busy' = Idle
         /\ UNCHANGED <<mem, reqs, left, work, refused>>
Next == \/ \E i \in left : Ask(i)
        \/ busy.n # 0 /\ (\E a \in DOMAIN work : TakeUp(a)) /\ UNCHANGED <<mem, reqs, left, st, got>>
        \/ Grant
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Quiet == busy.n = 0
Exactly == Quiet /\ got # {} => /\ st = Wanted(mem, NoConv, Ents(got))
                                /\ Decodable(mem, st)
Grantable(S) == LET w == Wanted(mem, NoConv, Ents(S)) IN Decodable(mem, w)
Refusals == Quiet => \A r \in refused : ~Grantable({r[1]} \union r[2])
Describing == Quiet /\ left = {} /\ got # {} =>
                \A p \in RunsOf(mem, NoConv, 400, Ents(got)) :
                  p[1] \in DOMAIN st /\ Describes(st[p[1]].f, p[2].entry, p[2].now)
Ends == <>(Quiet /\ left = {})
Emit == left = {1, 2} /\ left' = {2} =>
          PrintT("LINE " \o ToJson([bytes |-> [i \in 1 .. Count |-> mem.at[Base + i - 1]], reqs |-> reqs]))
=============================================================================
