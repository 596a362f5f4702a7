---------------------------- MODULE TraceRanges ----------------------------
(* Validates recorded histories of DataRange and RangeMap against Ranges, at
   real size (256 banks of 65536 bytes). *)
EXTENDS RangeMap, TLC, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<claimed, iv, reply, own, oreply, l, bad>>

TraceInit == CInit /\ OInit /\ l = 1 /\ bad = FALSE

\* report the first mismatch of each trace and ignore the rest of that trace
Judge(match, want) ==
  IF bad THEN bad' = TRUE
  ELSE IF match THEN bad' = FALSE
  ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |-> want]))
       /\ bad' = TRUE

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Frame == UNCHANGED <<claimed>>

Begin == /\ Is("begin") /\ bad' = FALSE
         /\ claimed' = {} /\ iv' = <<>> /\ reply' = TRUE
         /\ own' = <<>> /\ oreply' = TRUE

TClaim == /\ Is("claim") /\ Frame /\ UNCHANGED ovars
          /\ ClaimIv(E.loc, E.len)
          /\ Judge(E.ret = reply' /\ E.chunks = iv', [ret |-> reply', chunks |-> iv'])

TChunk == /\ Is("chunk") /\ Frame /\ UNCHANGED ovars
          /\ ClaimChunkIv(E.lo, E.hi)
          /\ Judge(E.ret = reply' /\ E.chunks = iv', [ret |-> reply', chunks |-> iv'])

\* membership queries: E.q is a list of <<address, answer>>
THas == /\ Is("has") /\ UNCHANGED <<claimed, iv, reply>> /\ UNCHANGED ovars
        /\ Judge(\A i \in DOMAIN E.q : E.q[i][2] = IvContains(iv, E.q[i][1]),
                 [has |-> [i \in DOMAIN E.q |-> <<E.q[i][1], IvContains(iv, E.q[i][1])>>]])

TInsert == /\ Is("insert") /\ UNCHANGED <<claimed, iv, reply>>
           /\ InsertIv(E.chunks, E.val)
           /\ Judge(E.ret = oreply', [ret |-> oreply'])

\* lookups: E.q is a list of <<address, value or -1, contains>>
TLook == /\ Is("look") /\ UNCHANGED <<claimed, iv, reply>> /\ UNCHANGED ovars
         /\ Judge(\A i \in DOMAIN E.q : /\ E.q[i][2] = OwnerOf(E.q[i][1])
                                        /\ E.q[i][3] = (OwnerOf(E.q[i][1]) # -1),
                  [look |-> [i \in DOMAIN E.q |-> <<E.q[i][1], OwnerOf(E.q[i][1])>>]])

TraceNext == Begin \/ TClaim \/ TChunk \/ THas \/ TInsert \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
