------------------------------- MODULE Errors -------------------------------
(* Error values and the results that carry them (property C10; nsasm/error.h,
   location.h).  An error is a message plus a path ("" when unknown) and a
   position (none, a line or an address).  Attaching a location replaces the
   parts it carries. *)
EXTENDS Text

VARIABLES msg, path, kind, pos
evars == <<msg, path, kind, pos>>

\* a location: [p |-> path or "", k |-> "none" | "line" | "addr", n |-> number]
Loc(p, k, n) == [p |-> p, k |-> k, n |-> n]

New(m) == msg' = m /\ path' = "" /\ kind' = "none" /\ pos' = 0

Attach(loc) ==
  /\ path' = IF loc.p # "" THEN loc.p ELSE path
  /\ kind' = IF loc.k # "none" THEN loc.k ELSE kind
  /\ pos' = IF loc.k # "none" THEN loc.n ELSE pos
  /\ UNCHANGED msg

\* two locations in one call: first then second
Attach2(l1, l2) ==
  /\ path' = IF l2.p # "" THEN l2.p ELSE IF l1.p # "" THEN l1.p ELSE path
  /\ kind' = IF l2.k # "none" THEN l2.k ELSE IF l1.k # "none" THEN l1.k ELSE kind
  /\ pos' = IF l2.k # "none" THEN l2.n ELSE IF l1.k # "none" THEN l1.n ELSE pos
  /\ UNCHANGED msg

\* every copy, move and propagation keeps the whole error
Pass == UNCHANGED evars

Render(m, p, k, n) ==
  IF p = "" THEN m
  ELSE CASE k = "none" -> p \o ": " \o m
         [] k = "line" -> p \o ":" \o ToString(n) \o ": " \o m
         [] k = "addr" -> p \o ":0x" \o Hex(n, 6) \o ": " \o m
Shown == Render(msg, path, kind, pos)
=============================================================================
