---------------------------- MODULE TraceDisasm ----------------------------
(* Recorded disassemblies: requests in several orders, each run naming what
   was found after every request and after the final naming. *)
EXTENDS Disasm, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Range(q) == { q[i] : i \in DOMAIN q }
Many == 1200

RECURSIVE SegFn(_, _)
SegFn(segs, i) ==
  IF i > Len(segs) THEN <<>>
  ELSE LET s == segs[i]
       IN [a \in { Wrap(s.a, j - 1) : j \in DOMAIN s.b } |->
             s.b[((OffOf(a) - OffOf(s.a)) % 65536) + 1]] @@ SegFn(segs, i + 1)
Mem == TLCEval([kind |-> "flat", low |-> E.low, banks |-> Range(E.banks), fill |-> E.fill, at |-> SegFn(E.segs, 1)])
Conv == TLCEval([a \in { c.a : c \in Range(E.convs) } |-> (CHOOSE c \in Range(E.convs) : c.a = a).r])

Find(list, a) == CHOOSE x \in Range(list) : x.a = a
Unique(list) == Cardinality({ x.a : x \in Range(list) }) = Len(list)
\* a pair folded into one pseudo instruction counts as the two it stands for
Half(x) == IF x.mn \in {"add", "sub"} THEN {x.a, Wrap(x.a, 1)} ELSE {x.a}
Addresses(list) == UNION { Half(x) : x \in Range(list) }


\* everything the specification says once the requests of S are granted
Case(mem, conv, reqs, S) ==
  LET ents == TLCEval({ <<reqs[i].a, reqs[i].f>> : i \in S })
      st == TLCEval(Wanted(mem, conv, ents))
      ins == TLCEval([a \in DOMAIN st |-> Here(mem, st, a)])
      fine == \A a \in DOMAIN ins : ins[a].ok
      runs == TLCEval(RunsOf(mem, conv, Many, ents))
      at == TLCEval([a \in DOMAIN st |-> { p[2] : p \in { q \in runs : q[1] = a } }])
      lab == TLCEval(Labelled(ins, ents))
      far == TLCEval(FarCalls(ins))
  IN IF ~fine THEN [fine |-> FALSE, st |-> st, clash |-> Clashes(mem, runs)]
     ELSE [fine |-> TRUE, st |-> st, ents |-> { e[1] : e \in ents }, ins |-> ins, at |-> at, lab |-> lab, far |-> far,
           next |-> TLCEval([a \in DOMAIN st |->
                      LET op == OpOf(ins[a], a, conv)
                      IN IF Leaves(op) THEN {} ELSE UNION { Succ(r, op) : r \in at[a] }])]

\* problems of a list of instructions found, given what should be there
Lists(conv, k, list, done) ==
  LET D == DOMAIN k.st
      same(x) == IF x.mn \in {"add", "sub"}
                 THEN LET b == Wrap(x.a, 1)
                      IN /\ done /\ b \in D /\ b \notin k.lab
                         /\ k.ins[x.a].mn = (IF x.mn = "add" THEN "clc" ELSE "sec")
                         /\ k.ins[b].mn = Real(x.mn) /\ x.mode = k.ins[b].mode /\ x.v = k.ins[b].a
                 ELSE LET i == k.ins[x.a]
                      IN /\ x.mn = i.mn /\ x.mode = i.mode
                         /\ (x.named \/ x.v = i.a) /\ (i.mode # "mov" \/ x.w = i.b)
                         \* only branches, and calls of entry points once named, name their target
                         /\ x.named => NearOf(i, x.a) >= 0 \/ (done /\ FarOf(i, x.a) >= 0)
      target(x) == LET i == k.ins[x.a] IN IF NearOf(i, x.a) >= 0 THEN NearOf(i, x.a) ELSE FarOf(i, x.a)
      last(x) == IF x.mn \in {"add", "sub"} THEN Wrap(x.a, 1) ELSE x.a
      width(x) == { IF WidthOf(x.mn) = "m" THEN r.now.m ELSE r.now.x : r \in k.at[last(x)] }
      items == Range(list)
  IN IF ~Unique(list) \/ Addresses(list) # D
        \/ Cardinality(D) # Len(list) + Cardinality({ x \in items : x.mn \in {"add", "sub"} })
     THEN {"closure"}
     ELSE UNION { (IF ~same(x) THEN {"instruction"} ELSE {})
                  \union (IF ~All(x.f, k.at[x.a]) THEN {"state"} ELSE {})
                  \union (IF ~All(x.n, k.next[last(x)]) THEN {"next state"} ELSE {})
                  \union (IF \/ (x.suf = "b" /\ 0 \in width(x)) \/ (x.suf = "w" /\ 1 \in width(x))
                          THEN {"suffix"} ELSE {})
                  \union (IF x.ret # OpOf(k.ins[last(x)], last(x), conv).ret THEN {"convention"} ELSE {})
                  \union (IF \/ (x.label # "") # (x.a \in k.lab)
                             \/ x.named /\ ~\E y \in items : y.a = target(x) /\ y.label = x.name
                             \/ NearOf(k.ins[x.a], x.a) >= 0 /\ ~x.named
                             \/ done /\ x.entry # (x.a \in k.ents)
                          THEN {"labels"} ELSE {})
                  : x \in items }
          \union (LET named == { x \in items : x.label # "" }
                  IN IF Cardinality({ x.label : x \in named }) # Cardinality(named) THEN {"labels"} ELSE {})

RECURSIVE MergeAll(_)
MergeAll(set) == LET f == CHOOSE f \in set : TRUE
                 IN IF set = {f} THEN f ELSE Merge(f, MergeAll(set \ {f}))
\* reports: everything said so far about targets, far: what this request said
Reports(old, k, far, reports) ==
  LET fresh == { s \in k.far : s[2] \notin DOMAIN old \/ old[s[2]] # k.st[s[2]] }
      said == { q.a : q \in Range(far) }
  IN (IF ~{ s[1] : s \in fresh } \subseteq said THEN {"far target missing"} ELSE {})
     \union (IF ~said \subseteq { s[1] : s \in k.far } THEN {"far target invented"} ELSE {})
     \union (IF \E s \in k.far : LET fs == { q.f : q \in { r \in reports : r.a = s[1] } }
                                 IN fs # {} /\ ~All(MergeAll(fs), k.at[s[2]])
             THEN {"far target state"} ELSE {})

\* one run; got: the requests granted so far
Walk0 == [got |-> {}, reports |-> {}, snap |-> <<>>, p |-> {}, all |-> TRUE, open |-> FALSE]
WalkStep(conv, cases, w, q, step) ==
  LET S == w.got \union {q}
      k == cases[S]
      reports == w.reports \union Range(step.far)
      old == IF w.got = {} THEN <<>> ELSE cases[w.got].st
  IN IF w.open THEN w
     ELSE IF ~step.ok
     THEN [w EXCEPT !.all = FALSE,
                    !.p = @ \union (IF k.fine THEN {"rejected"} ELSE {})
                            \union (IF step.snap # w.snap THEN {"changed by a failure"} ELSE {})]
     ELSE IF ~k.fine
     THEN \* more was known than the design asks for: only what cannot be is wrong
          [w EXCEPT !.open = TRUE, !.p = @ \union (IF k.clash THEN {"accepted"} ELSE {})]
     ELSE [got |-> S, reports |-> reports, snap |-> step.snap, open |-> FALSE, all |-> w.all,
           p |-> w.p \union Lists(conv, k, step.snap, FALSE) \union Reports(old, k, step.far, reports)]
RECURSIVE Walk(_, _, _, _, _)
Walk(conv, cases, run, i, w) ==
  IF i > Len(run.steps) THEN w
  ELSE Walk(conv, cases, run, i + 1, TLCEval(WalkStep(conv, cases, w, run.order[i], run.steps[i])))

\* the requests granted (by the code) before step i
Before(run, i) == { run.order[j] : j \in { j \in 1 .. i - 1 : run.steps[j].ok } }
Judge ==
  LET mem == Mem
      conv == Conv
      runs == E.runs
      reqs == E.reqs
      needed == UNION { { Before(runs[k], i) \union {runs[k].order[i]} : i \in DOMAIN runs[k].order } : k \in DOMAIN runs }
      cases == TLCEval([S \in needed |-> TLCEval(Case(mem, conv, reqs, S))])
      ws == TLCEval([k \in DOMAIN runs |-> Walk(conv, cases, runs[k], 1, Walk0)])
      last(k) == IF ws[k].open THEN {}
                 ELSE IF ws[k].got = {} THEN IF runs[k].final = <<>> THEN {} ELSE {"closure"}
                 ELSE Lists(conv, cases[ws[k].got], runs[k].final, TRUE)
      complete == TLCEval({ k \in DOMAIN ws : ws[k].all })
      finals == TLCEval({ TLCEval(Range(runs[k].final)) : k \in complete })
      orders == Cardinality(finals) > 1
      p == UNION { ws[k].p \union last(k) : k \in DOMAIN ws } \union (IF orders THEN {"order"} ELSE {})
      case1 == IF ws[1].got = {} THEN <<>> ELSE cases[ws[1].got].st
  IN /\ PrintT("VERDICT " \o ToJson([granted |-> Cardinality(ws[1].got), all |-> ws[1].all, open |-> ws[1].open,
                                     code |-> Cardinality(DOMAIN case1)]))
     /\ p # {} => PrintT("MISMATCH " \o ToJson([l |-> l, want |-> [problems |-> p, states |-> ToString(case1)]]))

\* judging is an invariant: TLC keeps the values of definitions only then
Judged == l > Len(Trace) \/ E.op = "begin" \/ Judge
TraceInit == l = 1
TraceSpec == TraceInit /\ [][l <= Len(Trace) /\ l' = l + 1]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
