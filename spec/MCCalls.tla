------------------------------ MODULE MCCalls ------------------------------
(* Following calls as a process: what is pending are entries, each with all that
   is known of it so far; any of them may be taken up next; it leads to code, and
   that to further entries.  For every small cartridge and every order: the code
   found is Listing!Followed; what is known of it lies between that and
   Listing!Sharp (each entry entered with everything at once); and even the
   latter describes every processor that runs through the routines and into those
   it calls.  The cartridges are printed for the tools to disassemble. *)
EXTENDS Listing, Json, SequencesExt
CONSTANTS Slots, Rich       \* statements in the first routine
VARIABLES mem, reqs, st, todo, bad
vars == <<mem, reqs, st, todo, bad>>
NoConv == <<>>
A0 == 32768
B0 == A0 + 16
C0 == A0 + 32

\* statements as bytes; "back" is a branch to the start of the routine
Small == {<<194, 48>>, <<226, 32>>, <<56>>, <<251>>, <<32, 16, 128>>, <<34, 32, 128, 0>>, <<169, 234, 234>>}
Large == Small \union {<<24>>, <<8>>, <<40>>, <<32, 32, 128>>, <<34, 16, 128, 0>>, <<32, 0, 128>>, <<208>>, <<105, 234, 234>>, <<194, 1>>}
Exits0 == {<<96>>, <<76, 16, 128>>}
Seconds == {<<>>, <<226, 16>>, <<162, 234, 234>>, <<251>>, <<32, 0, 128>>, <<32, 32, 128>>}
Thirds == {<<169, 234, 234, 107>>, <<8, 194, 48, 34, 16, 128, 0, 40, 107>>}
RECURSIVE Glue(_, _)
Glue(code, parts) ==
  IF parts = <<>> THEN code
  ELSE Glue(code \o (IF parts[1] = <<208>> THEN <<208, (254 - Len(code)) % 256>> ELSE parts[1]), Tail(parts))
Put(a, b) == [o \in { a - A0 + i - 1 : i \in DOMAIN b } |-> b[o - (a - A0) + 1]]
Asked == { <<<<A0, "m8x8">>>>, <<<<A0, "native">>, <<C0, "m16">>>>, <<<<A0, "m16x16">>, <<B0, "m8x8">>>>, <<<<A0, "emu">>, <<B0, "native">>>> }
Init == /\ \E c \in [1 .. Slots -> IF Rich THEN Large ELSE Small], x \in Exits0, s \in Seconds, t \in Thirds :
             mem = [kind |-> "rom", mode |-> "lo", size |-> 65536, fill |-> 96,
                    at |-> Put(A0, Glue(<<>>, c) \o x) @@ Put(B0, s \o <<96>>) @@ Put(C0, t)]
        /\ \E q \in Asked : reqs = q
        /\ st = <<>> /\ bad = FALSE
        /\ todo = [a \in { reqs[i][1] : i \in DOMAIN reqs } |-> Named[reqs[CHOOSE i \in DOMAIN reqs : reqs[i][1] = a][2]]]
Ents == { <<reqs[i][1], Named[reqs[i][2]]>> : i \in DOMAIN reqs }
CallsOf(a, s) == { <<c[1], [s.f EXCEPT !.c = "unk"]>> : c \in Calls1(mem, a, s) }
RECURSIVE Adding(_, _)
Adding(f, set) ==
  IF set = {} THEN f
  ELSE LET c == CHOOSE c \in set : TRUE
       IN Adding([a \in DOMAIN f \union {c[1]} |-> IF a # c[1] THEN f[a] ELSE IF a \in DOMAIN f THEN Merge(f[a], c[2]) ELSE c[2]],
                 set \ {c})
TakeUp(a) ==
  LET r == Absorb(st, {<<a, Ana!Enter(todo[a])>>}, {})
      new == TLCEval(Fix(mem, NoConv, r.st, r.changed))
      fresh == { x \in DOMAIN new : x \notin DOMAIN st \/ new[x] # st[x] }
      rest == [x \in DOMAIN todo \ {a} |-> todo[x]]
  IN IF Decodable(mem, new)
     THEN /\ st' = new /\ todo' = TLCEval(Adding(rest, UNION { CallsOf(x, new[x]) : x \in fresh })) /\ UNCHANGED bad
     ELSE /\ bad' = TRUE /\ todo' = rest /\ UNCHANGED st
Next == (\E a \in DOMAIN todo : TakeUp(a)) /\ UNCHANGED <<mem, reqs>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(todo = <<>>)

\* processors that run from the entries and into what they call
Into(a, r) == LET ins == InsAt(mem, a, Bit01(r.now.m), Bit01(r.now.x))
                  t == FarOf(ins, a)
              IN IF ins.ok /\ t >= 0 THEN {<<t, Run(r.now, r.now, <<>>)>>} ELSE {}
RECURSIVE Going(_, _)
Going(seen, front) ==
  IF front = {} THEN seen
  ELSE LET next == TLCEval(UNION { Steps(mem, NoConv, p[1], p[2]) \union Into(p[1], p[2]) : p \in front } \ seen)
       IN Going(TLCEval(seen \union next), next)

Between ==
  todo = <<>> =>
    LET fo == TLCEval(Followed(mem, NoConv, {}, Ents))
        sh == TLCEval(Sharp(mem, NoConv, {}, Ents))
    IN Decodable(mem, fo) =>
         /\ ~bad
         /\ DOMAIN st = DOMAIN fo /\ DOMAIN sh = DOMAIN fo
         /\ \A a \in DOMAIN st : st[a].f \in Weaker(sh[a].f) /\ fo[a].f \in Weaker(st[a].f)
         /\ \A p \in Going(Begin(Ents), Begin(Ents)) :
              /\ p[1] \in DOMAIN sh
              /\ Describes(sh[p[1]].f, p[2].entry, p[2].now)
              /\ Describes(st[p[1]].f, p[2].entry, p[2].now)
Emit == st = <<>> /\ ~bad => PrintT("LINE " \o ToJson([patch |-> SetToSeq({ <<o, mem.at[o]>> : o \in DOMAIN mem.at }), reqs |-> reqs]))
=============================================================================
