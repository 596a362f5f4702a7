------------------------------- MODULE Flags -------------------------------
(* What the analysis knows about the processor status (property C12;
   nsasm/execution_state.h, execution_state.cc, calling_convention.h).
   A knowledge state has one entry per bit: clear, set, still as it was on
   entry, or unknown.  In emulation mode both widths are 8 bits. *)
EXTENDS Text, FiniteSets

Bits == {"off", "on", "orig", "unk"}

\* a width bit, as far as the mode allows knowing it
Constrain(b, e) ==
  CASE e = "on" -> "on"
    [] e = "off" -> b
    [] b = "on" -> "on"
    [] b = "orig" /\ e = "orig" -> "orig"
    [] OTHER -> "unk"

Flags(e, m, x, c) == [e |-> e, m |-> Constrain(m, e), x |-> Constrain(x, e), c |-> c]
Unknown == Flags("unk", "unk", "unk", "unk")
FlagStates == { Flags(e, m, x, c) : e \in Bits, m \in Bits, x \in Bits, c \in Bits }

SetM(f, b) == [f EXCEPT !.m = Constrain(b, f.e)]
SetX(f, b) == [f EXCEPT !.x = Constrain(b, f.e)]
SetC(f, b) == [f EXCEPT !.c = b]

\* what holds on entry of a routine about which nothing else is known
Incoming(f) == LET o(b) == IF b = "unk" THEN "orig" ELSE b
               IN [e |-> o(f.e), m |-> o(f.m), x |-> o(f.x), c |-> o(f.c)]

\* a bit's own entry value says nothing once it sits in the other bit
Moved(b) == IF b = "orig" THEN "unk" ELSE b
ExchangeCE(f) == Flags(Moved(f.c), f.m, f.x, Moved(f.e))

Agree(a, b) == IF a = b THEN a ELSE "unk"
Merge(f, g) == Flags(Agree(f.e, g.e), Agree(f.m, g.m), Agree(f.x, g.x), Agree(f.c, g.c))

----------------------------------------------------------------------------
(* Names of knowledge states *)
MNames == {<<"", "unk">>, <<"m8", "on">>, <<"m16", "off">>}
XNames == {<<"", "unk">>, <<"x8", "on">>, <<"x16", "off">>}
Named ==
  [n \in {"unk", "emu", "native"} \union
         ({ a[1] \o b[1] : a \in MNames, b \in XNames } \ {""}) |->
     IF n = "unk" THEN Unknown
     ELSE IF n = "emu" THEN Flags("on", "on", "on", "unk")
     ELSE IF n = "native" THEN Flags("off", "unk", "unk", "unk")
     ELSE LET p == CHOOSE p \in MNames \X XNames : p[1][1] \o p[2][1] = n
          IN Flags("off", p[1][2], p[2][2], "unk")]
\* a value that is no state
Tag(t) == [e |-> t, m |-> t, x |-> t, c |-> t]
FromName(s) == LET n == Fold(s) IN IF n \in DOMAIN Named THEN Named[n] ELSE Tag("none")

Known(b) == b \in {"on", "off"}
WidthName(b, p) == IF b = "on" THEN p \o "8" ELSE IF b = "off" THEN p \o "16" ELSE ""
ToName(f) ==
  CASE ~Known(f.e) -> "unk"
    [] f.e = "on" -> "emu"
    [] OTHER -> LET n == WidthName(f.m, "m") \o WidthName(f.x, "x")
                IN IF n = "" THEN "native" ELSE n
Show(f) == ToName(f) \o (IF f.c = "on" THEN ", c=1" ELSE IF f.c = "off" THEN ", c=0" ELSE "")

----------------------------------------------------------------------------
(* Return conventions: a knowledge state, or one of two tags *)
Default == Tag("default")
NoReturn == Tag("noreturn")
Suffix(r) == IF r = Default THEN "" ELSE IF r = NoReturn THEN " noreturn"
             ELSE " yields " \o Show(r)
Apply(r, f) == IF r \in {Default, NoReturn} THEN f ELSE r

----------------------------------------------------------------------------
(* What a knowledge state says: pairs of entry and current bit values *)
Modes == { v \in [e : {0, 1}, m : {0, 1}, x : {0, 1}, c : {0, 1}] :
             v.e = 1 => v.m = 1 /\ v.x = 1 }
Says(b, now, entry) == CASE b = "off" -> now = 0 [] b = "on" -> now = 1
                         [] b = "orig" -> now = entry [] b = "unk" -> TRUE
Describes(f, entry, now) == /\ Says(f.e, now.e, entry.e) /\ Says(f.m, now.m, entry.m)
                            /\ Says(f.x, now.x, entry.x) /\ Says(f.c, now.c, entry.c)
Meaning(f) == { p \in Modes \X Modes : Describes(f, p[1], p[2]) }
=============================================================================
