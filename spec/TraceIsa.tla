------------------------------ MODULE TraceIsa ------------------------------
(* Recorded encodings and decodings, in batches *)
EXTENDS Isa, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
\* the bytes written, one after the other within the bank
Written(w, pc) == IF \A i \in DOMAIN w : w[i][1] = Wrap(pc, i - 1)
                  THEN [i \in DOMAIN w |-> w[i][2]] ELSE << -1 >>
EncRight(q) == LET want == Encode(q.mn, q.mode, q.a, q.b, q.pc)
               IN /\ q.ok = want.ok
                  /\ q.ok => Written(q.w, q.pc) = want.bytes /\ q.size = Len(want.bytes)
                  /\ ~q.ok => q.w = <<>>
DecRight(q) == LET i == Decode(q.bytes, q.m, q.x)
                   n == Length(i.mode)
               IN /\ q.ok = i.ok
                  /\ q.ok => /\ q.mn = i.mn /\ q.mode = i.mode /\ q.a = i.a /\ q.b = i.b
                             /\ q.size = n /\ q.cons
                             /\ q.re /\ Written(q.w, q.pc) = SubSeq(q.bytes, 1, n)
FactRight(q) == /\ q.imm_m = ImmM(q.mn) /\ q.imm_x = ImmX(q.mn) /\ q.width = WidthOf(q.mn)
                /\ q.rel16 = (<<q.mn, "rel16">> \in Pairs)
                /\ q.rel = (\E m \in {"rel8", "rel16"} : <<q.mn, m>> \in Pairs)
Right(op, q) == CASE op = "enc" -> EncRight(q) [] op = "dec" -> DecRight(q) [] op = "facts" -> FactRight(q)
Want(op, q) == CASE op = "enc" -> Encode(q.mn, q.mode, q.a, q.b, q.pc)
                 [] op = "dec" -> Decode(q.bytes, q.m, q.x)
                 [] OTHER -> [width |-> WidthOf(q.mn)]
Wrong == { i \in DOMAIN E.q : ~Right(E.op, E.q[i]) }
TraceInit == l = 1 /\ bad = FALSE
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op = "begin" \/ Wrong = {} THEN bad' = FALSE
           ELSE LET i == CHOOSE i \in Wrong : TRUE
                IN /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |->
                        [wrong |-> E.q[i], right |-> Want(E.op, E.q[i]), count |-> Cardinality(Wrong)]]))
                   /\ bad' = TRUE
TraceSpec == TraceInit /\ [][Step]_<<l, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
