----------------------------- MODULE TraceBack -----------------------------
(* Listings of the disassembling tool, assembled again (property C22).  Each
   event has the cartridge, the requests, the listing (as one source file) and
   what the assembler made of it. *)
EXTENDS Asm, Listing, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Range(q) == { q[i] : i \in DOMAIN q }
MemOf(e) == [kind |-> "rom", mode |-> e.mode, size |-> e.size, fill |-> e.fill,
             at |-> TLCEval([o \in { p[1] : p \in Range(e.patch) } |-> (CHOOSE p \in Range(e.patch) : p[1] = o)[2]])]

Judge ==
  LET mem == MemOf(E)
      owned == Range(E.owned)
      \* a listing can say the mode of an entry, not the carry
      ents == { <<q.a, [q.f EXCEPT !.c = "unk"]>> : q \in { x \in Range(E.reqs) : x.a \notin owned } }
      conv == TLCEval([a \in { q.a : q \in Range(E.convs) } |-> (CHOOSE q \in Range(E.convs) : q.a = a).r])
      st == TLCEval(Followed(mem, conv, owned, ents))
      ins == TLCEval([a \in DOMAIN st |-> Here(mem, st, a)])
      \* all of it can be decoded, and laid out in a listing
      clean == st # <<>> /\ (\A a \in DOMAIN ins : ins[a].ok) /\ Linear(ins)
      x == E.runs[1]
      writes == Range(x.writes)
      r == Assembly(E.files)
      whole == UNION { Extent(ins, a) : a \in DOMAIN ins }
      agree(cells) == \A c \in cells : Mapped(mem, c[1]) /\ c[2] = ByteAt(mem, c[1])
      starts == EntriesOf(mem, ins, owned, ents)
      \* known of emulation mode and native mode alike: no mode name says so
      nameless == \E a \in starts : st[a].f.e = "unk" /\ "on" \in {st[a].f.m, st[a].f.x}
      p == IF ~x.ok THEN IF ~clean THEN {} ELSE IF nameless THEN {"refused: nameless entry"} ELSE {"refused"}
           ELSE (IF ~agree(writes) THEN {"bytes"} ELSE {})
                \union (IF clean /\ { c[1] : c \in writes } # whole THEN {"extent"} ELSE {})
                \union (IF r.must # {} THEN {"text: " \o ToString(r.must)}
                        ELSE IF r.exact /\ Range(r.cells) # writes THEN {"text"} ELSE {})
                \union (IF clean /\ E.rc # 0 THEN {"status"} ELSE {})
  IN /\ PrintT("VERDICT " \o ToJson([clean |-> clean, ok |-> x.ok, exact |-> r.exact, code |-> Cardinality(DOMAIN ins)]))
     /\ p # {} => PrintT("MISMATCH " \o ToJson([l |-> l, want |-> [problems |-> p, states |-> ToString(st)]]))
\* judging is an invariant: TLC keeps the values of definitions only then
Judged == l > Len(Trace) \/ E.op = "begin" \/ Judge
TraceInit == l = 1
TraceSpec == TraceInit /\ [][l <= Len(Trace) /\ l' = l + 1]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
