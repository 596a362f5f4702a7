---------------------------- MODULE TraceSource ----------------------------
(* Recorded parses of lines and expressions, in batches *)
EXTENDS Source, Json, IOUtils
VARIABLES l, env, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
NoEnv == [n \in {} |-> 0]
IdText(e) == (IF e[4] THEN e[2] \o "::" ELSE "") \o e[3]
Global(e) == IF e[4] THEN IdText(e) ELSE "::" \o e[3]
Look(e) == IF IdText(e) \in DOMAIN env THEN Good(env[IdText(e)]) ELSE Bad

\* a recorded expression against the specified one
SameExpr(q, e) ==
  LET r == Eval(e, [n \in Names(e) |-> Look(n)])
  IN /\ q.is = (e # Nothing)
     /\ r.st # "over" => q.ok = (r.st = "ok") /\ (q.ok => q.v = r.v)
     /\ q.ty = TypeOf(e)
     /\ q.id = IF SimpleName(e) THEN e[3] ELSE ""
     /\ { q.names[i] : i \in DOMAIN q.names } = { Global(n) : n \in Names(e) }
SameEntity(q, e) ==
  /\ q.k = e.k /\ q.name = e.name /\ q.suf = e.suf /\ q.mode = e.mode
  /\ SameExpr(q.a, e.a) /\ SameExpr(q.b, e.b)
  /\ Len(q.list) = Len(e.list) /\ \A i \in DOMAIN q.list : SameExpr(q.list[i], e.list[i])
  /\ q.flags = e.flags /\ q.ret = e.ret /\ q.exported = e.exported
LineRight(q) ==
  LET p == ParseLine(q.src)
  IN Wild(q.src) \/
     (/\ q.ok = p.ok
      /\ q.ok => /\ Len(q.es) = Len(p.es)
                 /\ \A i \in DOMAIN q.es : SameEntity(q.es[i], p.es[i])
                 \* printed and read back
                 /\ \A i \in DOMAIN q.es :
                      PlainEntity(p.es[i]) =>
                        /\ q.again[i].ok /\ Len(q.again[i].es) = 1
                        /\ SameEntity(q.again[i].es[1], p.es[i]))
ExprRight(q) ==
  LET p == ParseExpr(q.src)
  IN Wild(q.src) \/ (q.ok = p.ok /\ (q.ok => SameExpr(q.e, p.e) /\ q.look = (Names(p.e) # {})))
Right(op, q) == CASE op = "line" -> LineRight(q) [] op = "expr" -> ExprRight(q)
Want(op, q) == IF op = "line" THEN [ok |-> ParseLine(q.src).ok, n |-> Len(ParseLine(q.src).es),
                                    es |-> ToString(ParseLine(q.src).es)]
               ELSE [ok |-> ParseExpr(q.src).ok, n |-> 0, es |-> ToString(ParseExpr(q.src).e)]
Wrong == { i \in DOMAIN E.q : ~Right(E.op, E.q[i]) }
TraceInit == l = 1 /\ bad = FALSE /\ env = NoEnv
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ env' = IF E.op = "env"
                  THEN [n \in { E.q[i].n : i \in DOMAIN E.q } |->
                          E.q[CHOOSE i \in DOMAIN E.q : E.q[i].n = n].v]
                  ELSE env
        /\ IF E.op \in {"begin", "env"} \/ Wrong = {} THEN bad' = FALSE
           ELSE LET i == CHOOSE i \in Wrong : TRUE
                IN /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |->
                        [wrong |-> E.q[i], right |-> Want(E.op, E.q[i]), count |-> Cardinality(Wrong)]]))
                   /\ bad' = TRUE
TraceSpec == TraceInit /\ [][Step]_<<l, env, bad>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
