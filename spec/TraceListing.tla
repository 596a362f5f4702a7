---------------------------- MODULE TraceListing ----------------------------
(* Recorded listings of the disassembling tools *)
EXTENDS Listing, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Range(q) == { q[i] : i \in DOMAIN q }
MemOf(e) == [kind |-> "rom", mode |-> e.mode, size |-> e.size, fill |-> e.fill,
             at |-> TLCEval([o \in { p[1] : p \in Range(e.patch) } |-> (CHOOSE p \in Range(e.patch) : p[1] = o)[2]])]

Judge ==
  LET mem == MemOf(E)
      owned == Range(E.owned)
      \* a request may name the place where its address (in bank 0) is written
      place(q) == IF q.by THEN ByteAt(mem, q.a) + 256 * ByteAt(mem, Wrap(q.a, 1)) ELSE q.a
      ents == { e \in { <<place(q), q.f>> : q \in Range(E.reqs) } : e[1] \notin owned }
      conv == TLCEval([a \in { q.a : q \in Range(E.convs) } |-> (CHOOSE q \in Range(E.convs) : q.a = a).r])
      st == TLCEval(Followed(mem, conv, owned, ents))
      ins == TLCEval([a \in DOMAIN st |-> Here(mem, st, a)])
      clean == st # <<>> /\ (\A a \in DOMAIN ins : ins[a].ok) /\ Linear(ins)
      sharp == TLCEval(Sharp(mem, conv, owned, ents))
      starts == EntriesOf(mem, ins, owned, ents)
      p == IF ~clean THEN {}
           ELSE (IF E.rc # 0 THEN {"status"} ELSE {})
                \union (IF E.count # Len(E.rows) THEN {"count"} ELSE {})
                \union Wrong(mem, conv, owned, ents, sharp, ins, E.rows)
  IN /\ PrintT("VERDICT " \o ToJson([clean |-> clean, code |-> Cardinality(DOMAIN ins),
                                     called |-> IF clean THEN Cardinality(starts \ { e[1] : e \in ents }) ELSE 0,
                                     left |-> IF clean THEN Cardinality({ FarOf(ins[a], a) : a \in DOMAIN ins } \intersect owned) ELSE 0]))
     /\ p # {} => PrintT("MISMATCH " \o ToJson([l |-> l, want |-> [problems |-> p, states |-> ToString(st)]]))
\* judging is an invariant: TLC keeps the values of definitions only then
Judged == l > Len(Trace) \/ E.op = "begin" \/ Judge
TraceInit == l = 1
TraceSpec == TraceInit /\ [][l <= Len(Trace) /\ l' = l + 1]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
