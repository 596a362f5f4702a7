------------------------------ MODULE TraceAsm ------------------------------
(* Recorded assemblies, each of one set of files in several orders *)
EXTENDS Asm, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Range(q) == { q[i] : i \in DOMAIN q }
First == E.runs[1]
Denied == Range(E.deny)

\* every run agrees with the first: success, bytes, targets
Same(x) == /\ x.ok = First.ok
           /\ x.ok => /\ Range(x.writes) = Range(First.writes)
                      /\ Range(x.targets) = Range(First.targets)
                      /\ { q.a : q \in Range(x.convs) } = { q.a : q \in Range(First.convs) }
Once(x) == Cardinality({ w[1] : w \in Range(x.writes) }) = Len(x.writes)

Problems(x, r) ==
  LET deny == r.exact /\ Owned(r) \cap Denied # {}
  IN IF ~Same(x) THEN {"order"}
     ELSE IF ~x.ok THEN IF r.must # {} \/ r.may # {} \/ deny THEN {} ELSE {"rejected"}
     ELSE IF r.must # {} THEN {"accepted"}
     ELSE IF ~Once(x) THEN {"twice"}
     ELSE IF { w[1] : w \in Range(x.writes) } \cap Denied # {} \/ deny THEN {"refused write"}
     ELSE IF ~r.exact THEN {}
     ELSE (IF Range(x.writes) # Range(r.cells) THEN {"bytes"} ELSE {})
          \union (IF \E q \in Range(x.at) : q.has # (q.a \in Owned(r)) THEN {"owned"} ELSE {})
          \union (IF \E q \in Range(x.at) : (q.name = "" /\ NamesAt(r, q.a, FALSE) # {})
                                          \/ (q.name # "" /\ q.name \notin NamesAt(r, q.a, TRUE))
                  THEN {"names"} ELSE {})
          \union (IF { q.a : q \in Range(x.targets) } # Targets(r) THEN {"targets"} ELSE {})
          \union (IF \E q \in Range(x.targets) : ~Covers(r, q.a, q.f) THEN {"target state"} ELSE {})
          \union (IF \/ { q.a : q \in Range(x.convs) } # { d[1] : d \in Declared(r) }
                     \/ \E q \in Range(x.convs) : <<q.a, q.r>> \notin Declared(r)
                  THEN {"conventions"} ELSE {})
Judge ==
  LET r == TLCEval(Assembly(E.files))
      p == UNION { Problems(E.runs[i], r) : i \in DOMAIN E.runs }
  IN /\ PrintT("VERDICT " \o ToJson([must |-> r.must, may |-> r.may, exact |-> r.exact]))
     /\ p # {} => PrintT("MISMATCH " \o ToJson([l |-> l, want |->
                  [problems |-> p, must |-> r.must, may |-> r.may, cells |-> ToString(r.cells)]]))

\* judging is an invariant: TLC keeps the values of definitions only then
Judged == l > Len(Trace) \/ E.op = "begin" \/ Judge
TraceInit == l = 1
TraceSpec == TraceInit /\ [][l <= Len(Trace) /\ l' = l + 1]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
