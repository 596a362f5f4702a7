-------------------------------- MODULE Asm --------------------------------
(* Assembling a set of source files (properties C15 to C19; nsasm/module.cc,
   assembler.cc, statement.cc, directive.cc).  A file is a sequence of lines;
   its module is a sequence of statements with labels and scopes.

   What assembly must do is decided in three values: reasons why it must fail,
   reasons why an analysis may be too weak to accept, and otherwise success
   with exactly determined bytes. *)
EXTENDS Source, Cpu
An == INSTANCE Analysis

----------------------------------------------------------------------------
(* Loading: statements, scopes and labels.  A label names the next statement;
   it belongs to the scope open there, or to the top level (scope 0) if it is
   exported.  A scope is known by the statement that opens it. *)
Empty == [bad |-> {}, s |-> <<>>, open |-> <<>>, lab |-> {}, pend |-> <<>>, name |-> ""]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
IsDir(e, n) == e.k = "dir" /\ e.name = n
Take(m, e) ==
  IF e.k = "label" THEN [m EXCEPT !.pend = Append(@, e)]
  ELSE
  LET at == Len(m.s) + 1
      where(l) == IF l.exported \/ m.open = <<>> THEN 0 ELSE Last(m.open)
      keys == [i \in DOMAIN m.pend |-> <<where(m.pend[i]), m.pend[i].name>>]
      twice == \E i \in DOMAIN keys : \/ \E j \in 1 .. i - 1 : keys[j] = keys[i]
                                      \/ \E l \in m.lab : <<l[1], l[2]>> = keys[i]
      n == [m EXCEPT !.s = Append(@, [e |-> e, scopes |-> m.open]), !.pend = <<>>,
                     !.lab = @ \union { <<keys[i][1], keys[i][2], at>> : i \in DOMAIN keys },
                     !.bad = IF twice THEN @ \union {"duplicate"} ELSE @]
  IN CASE IsDir(e, "module") -> IF m.name # "" THEN [n EXCEPT !.bad = @ \union {"scope"}]
                                ELSE [n EXCEPT !.name = e.a[3]]
       [] IsDir(e, "begin") -> [n EXCEPT !.open = Append(@, at)]
       [] IsDir(e, "end") -> IF m.open = <<>> THEN [n EXCEPT !.bad = @ \union {"scope"}]
                             ELSE [n EXCEPT !.open = Front(@)]
       [] OTHER -> n
RECURSIVE TakeAll(_, _, _)
TakeAll(m, es, i) == IF i > Len(es) THEN m ELSE TakeAll(Take(m, es[i]), es, i + 1)
RECURSIVE LoadFrom(_, _, _)
LoadFrom(m, lines, i) ==
  \* a label at the very end names nothing
  IF i > Len(lines) THEN IF m.open # <<>> THEN [m EXCEPT !.bad = @ \union {"scope"}] ELSE m
  ELSE LET p == ParseLine(lines[i])
       IN IF ~p.ok THEN [m EXCEPT !.bad = @ \union {"syntax"}]
          ELSE LoadFrom(TakeAll(m, p.es, 1), lines, i + 1)
Load(lines) == LoadFrom(Empty, lines, 1)

\* the statement a name means among the open scopes, or 0
RECURSIVE FindIn(_, _, _)
FindIn(m, name, scopes) ==
  LET sc == IF scopes = <<>> THEN 0 ELSE Last(scopes)
      hit == { l[3] : l \in { x \in m.lab : x[1] = sc /\ x[2] = name } }
  IN IF hit # {} THEN CHOOSE h \in hit : TRUE
     ELSE IF scopes = <<>> THEN 0 ELSE FindIn(m, name, Front(scopes))

----------------------------------------------------------------------------
(* Control flow inside a module *)
Data == {"db", "dw", "dl"}
NoData(e) == ~(e.k = "dir" /\ e.name \in Data \union {"org"})
Branches(e) == e.k = "ins" /\ e.mode \in {"rel8", "rel16"} /\ e.name # "per"
Target(m, i) == LET st == m.s[i] IN IF Branches(st.e) THEN FindIn(m, st.e.a[3], st.scopes) ELSE 0
Stops(e) == \/ e.k = "ins" /\ (e.name \in {"jmp", "rtl", "rts", "rti", "stp", "bra", "brl"} \/ e.ret = NoReturn)
            \/ IsDir(e, "halt")
\* an instruction as the processor model sees it
Op(e) ==
  IF e.k = "ins"
  THEN LET r == Eval(e.a, NoLook)
       IN [mn |-> e.name, ret |-> e.ret,
           arg |-> IF e.name \in {"rep", "sep"} /\ Names(e.a) = {} /\ r.st = "ok" THEN r.v % 256 ELSE -1]
  ELSE IF e.name = "mode" THEN [mn |-> ".mode", ret |-> e.flags, arg |-> -1]
  ELSE [mn |-> "nop", ret |-> Default, arg |-> -1]
Entries(m) == { i \in DOMAIN m.s : IsDir(m.s[i].e, "entry") }
Running(m, i) == i \in DOMAIN m.s /\ NoData(m.s[i].e)
Nexts(m, i) == (IF Stops(m.s[i].e) THEN {} ELSE {i + 1}) \union ({Target(m, i)} \ {0})

RECURSIVE ReachFrom(_, _)
ReachFrom(m, set) ==
  LET more == set \union UNION { Nexts(m, i) : i \in { j \in set : Running(m, j) } }
  IN IF more = set THEN set ELSE ReachFrom(m, more)
Reach(m) == ReachFrom(m, { i + 1 : i \in Entries(m) })

\* what can happen at each statement
Graph(m) == TLCEval([i \in DOMAIN m.s |->
  [run |-> Running(m, i), stop |-> Stops(m.s[i].e), op |-> Op(m.s[i].e), t |-> Target(m, i)]])

\* every execution from the entry points: the runs that get to each position
\* (with a bounded stack of their own, and not more than Many in all: what is
\* concluded from executions found stays true when there are more)
Deep == 4
Many == 1200
After(g, i, r) ==
  IF ~g[i].run THEN {}
  ELSE { q \in (IF g[i].stop THEN {} ELSE { <<i + 1, x>> : x \in Succ(r, g[i].op) })
               \union (IF g[i].t = 0 THEN {} ELSE { <<g[i].t, x>> : x \in Taken(r, g[i].op) }) :
           Len(q[2].stack) <= Deep }
RECURSIVE Explore(_, _, _)
Explore(g, seen, front) ==
  IF front = {} \/ Cardinality(seen) > Many THEN seen
  ELSE LET next == TLCEval(UNION { IF p[1] \in DOMAIN g THEN After(g, p[1], p[2]) ELSE {} : p \in front } \ seen)
       IN Explore(g, TLCEval(seen \union next), next)
RunsAt(m, g) ==
  LET start == UNION { { <<i + 1, r>> : r \in Starts(m.s[i].e.flags) } : i \in Entries(m) }
      all == Explore(g, start, start)
  IN TLCEval([i \in 1 .. Len(m.s) + 1 |-> { p[2] : p \in { q \in all : q[1] = i } }])

\* what the designed analysis knows at each position: least fixed point
Join(st, i, a) == IF i \in DOMAIN st THEN [st EXCEPT ![i] = An!AMerge(@, a)] ELSE st @@ (i :> a)
RECURSIVE JoinAll(_, _)
JoinAll(st, set) == IF set = {} THEN st
                    ELSE LET c == CHOOSE c \in set : TRUE IN JoinAll(Join(st, c[1], c[2]), set \ {c})
Flows(g, st) ==
  UNION { (IF g[i].stop THEN {} ELSE {<<i + 1, An!Exec(st[i], g[i].op)>>})
             \union (IF g[i].t = 0 THEN {} ELSE {<<g[i].t, An!ExecTaken(st[i], g[i].op)>>})
          : i \in { j \in DOMAIN st \cap DOMAIN g : g[j].run } }
RECURSIVE Settled(_, _)
Settled(g, st) == LET new == TLCEval(JoinAll(st, Flows(g, st))) IN IF new = st THEN st ELSE Settled(g, new)
Known0(m) == JoinAll(<<>>, { <<i + 1, An!Enter(m.s[i].e.flags)>> : i \in Entries(m) })
Fixpoint(m, g) == Settled(g, Known0(m))

Imm(e) == e.k = "ins" /\ e.mode \in {"immm", "immx"}
WidthBit(f, e) == IF WidthOf(Real(e.name)) = "m" THEN f.m ELSE f.x
Definite(b) == b \in {"on", "off"}
Contradicts(e, b) == (e.suf = "b" /\ b = "off") \/ (e.suf = "w" /\ b = "on")

\* what the flow of module m says: must fail, may fail, and the widths that
\* executions see at statement i
FlowOf(m) ==
  LET reach == Reach(m)
      g == Graph(m)
      runs == RunsAt(m, g)
      fix == Fixpoint(m, g)
      ins == { i \in DOMAIN m.s : m.s[i].e.k = "ins" }
      imm == { i \in ins : Imm(m.s[i].e) }
      wides == TLCEval([i \in imm |-> { IF WidthOf(Real(m.s[i].e.name)) = "m" THEN r.now.m ELSE r.now.x : r \in runs[i] }])
      wide(i) == wides[i]
      hit == { i \in DOMAIN runs : runs[i] # {} }
      \* where no execution gets (or only one with a deep stack), the analysis decides
      mode(i) == IF i \notin imm THEN m.s[i].e.mode
                 ELSE IF wide(i) = {1} THEN "immb" ELSE IF wide(i) = {0} THEN "immw"
                 ELSE IF wide(i) = {} /\ i \in DOMAIN fix
                 THEN (LET b == WidthBit(fix[i].f, m.s[i].e)
                       IN IF b = "on" THEN "immb" ELSE IF b = "off" THEN "immw" ELSE "none")
                 ELSE "none"
      \* positions where nothing can be executed
      ends == { i \in reach : ~Running(m, i) }
  IN [must |->
        (IF ins \ reach # {} THEN {"unreached"} ELSE {})
        \union (IF ends \cap hit # {} THEN {"runs into data"} ELSE {})
        \union (IF \E i \in ins : Branches(m.s[i].e) /\ Target(m, i) = 0 THEN {"undefined"} ELSE {})
        \union (IF \E i \in ins : Target(m, i) # 0 /\ IsDir(m.s[Target(m, i)].e, "equ")
                THEN {"branch to constant"} ELSE {})
        \union (IF \E i \in imm : Cardinality(wide(i)) > 1 THEN {"width"} ELSE {})
        \union (IF \E i \in ins \cap DOMAIN fix : Contradicts(m.s[i].e, WidthBit(fix[i].f, m.s[i].e))
                THEN {"suffix"} ELSE {}),
      may |->
        (IF ends # {} THEN {"runs into data"} ELSE {})
        \union (IF \E i \in imm \cap DOMAIN fix : ~Definite(WidthBit(fix[i].f, m.s[i].e))
                THEN {"width"} ELSE {})
        \union (IF \E i \in ins \cap DOMAIN fix : m.s[i].e.suf # "" /\ ~Definite(WidthBit(fix[i].f, m.s[i].e))
                THEN {"suffix"} ELSE {}),
      open |-> { i \in imm : mode(i) = "none" },
      mode |-> TLCEval([i \in ins |-> mode(i)]),
      known |-> [i \in ins \cap DOMAIN fix |-> fix[i].f],
      runs |-> runs]

----------------------------------------------------------------------------
(* Layout *)
Top == 16777215
InMemory(v) == v >= 0 /\ v <= Top
PerEntry(n) == CASE n = "db" -> 1 [] n = "dw" -> 2 [] n = "dl" -> 3 [] OTHER -> 0
SizeAt(m, fl, i) == LET e == m.s[i].e
                    IN IF e.k = "ins" THEN Size(e.name, fl.mode[i]) ELSE PerEntry(e.name) * Len(e.list)
Where(pc, e) == IF ~IsDir(e, "org") THEN pc
                ELSE LET r == Eval(e.a, NoLook) IN IF r.st = "ok" /\ InMemory(r.v) THEN r.v ELSE -2
RECURSIVE Layout(_, _, _, _)
\* addresses of the statements from i on; -1 before any origin, -2 after a bad one
Layout(m, fl, i, pc) ==
  IF i > Len(m.s) THEN <<>>
  ELSE LET here == Where(pc, m.s[i].e)
           next == IF here < 0 THEN here ELSE Wrap(here, SizeAt(m, fl, i))
       IN <<here>> \o Layout(m, fl, i + 1, next)

----------------------------------------------------------------------------
(* Names across modules; ms is the sequence of modules *)
Exports(ms) == UNION { { <<ms[k].name, l[2], k, l[3]>> : l \in { x \in ms[k].lab : x[1] = 0 } } : k \in DOMAIN ms }
External(ms, mod, name) ==
  LET hit == { <<x[3], x[4]>> : x \in { y \in Exports(ms) : y[1] = mod /\ y[2] = name } }
  IN IF hit = {} THEN <<>> ELSE CHOOSE h \in hit : TRUE
\* the definition a name at statement i of module k refers to: <<k, i>> or <<>>
Local(ms, k, i, id) ==
  IF id[4] THEN IF id[2] = ms[k].name THEN FindIn(ms[k], id[3], <<>>) ELSE 0
  ELSE FindIn(ms[k], id[3], ms[k].s[i].scopes)
Refers(ms, k, i, id) ==
  LET l == Local(ms, k, i, id)
  IN IF l # 0 THEN <<k, l>> ELSE External(ms, id[2], id[3])
\* exported names a module's constants need from elsewhere
Needs(ms, k) ==
  UNION { { <<id[2], id[3]>> : id \in { x \in Names(ms[k].s[i].e.a) : Local(ms, k, i, x) = 0 } }
          : i \in { j \in DOMAIN ms[k].s : IsDir(ms[k].s[j].e, "equ") } }
RECURSIVE Ordered(_, _)
\* the modules that can be put in an order where every need is met before
Ordered(ms, done) ==
  LET have == { <<x[1], x[2]>> : x \in { y \in Exports(ms) : y[3] \in done } }
      more == done \union { k \in DOMAIN ms : Needs(ms, k) \subseteq have }
  IN IF more = done THEN done ELSE Ordered(ms, more)

RECURSIVE ValueAt(_, _, _, _, _), ValueOf(_, _, _, _, _, _)
\* the value of statement i of module k as a label; seen holds the constants
\* being worked out
ValueAt(ms, pcs, k, i, seen) ==
  IF <<k, i>> \in seen THEN Bad
  ELSE IF IsDir(ms[k].s[i].e, "equ") THEN ValueOf(ms, pcs, k, i, ms[k].s[i].e.a, seen \union {<<k, i>>})
  ELSE IF pcs[k][i] >= 0 THEN Good(pcs[k][i]) ELSE Bad
\* and of an expression standing there
ValueOf(ms, pcs, k, i, e, seen) ==
  Eval(e, [id \in Names(e) |-> LET r == Refers(ms, k, i, id)
                               IN IF r = <<>> THEN Bad ELSE ValueAt(ms, pcs, r[1], r[2], seen)])

----------------------------------------------------------------------------
(* Bytes *)
Fine(bs) == [st |-> "ok", bytes |-> bs]
Failing(st) == [st |-> st, bytes |-> <<>>]
RECURSIVE DataBytes(_, _, _)
DataBytes(vs, w, i) == IF i > Len(vs) THEN <<>> ELSE LE(vs[i].v, w) \o DataBytes(vs, w, i + 1)
StatementBytes(ms, pcs, fls, k, i) ==
  LET e == ms[k].s[i].e
      val(x) == IF x = Nothing THEN Good(0) ELSE ValueOf(ms, pcs, k, i, x, {})
  IN IF e.k = "ins"
     THEN LET a == val(e.a)
              b == val(e.b)
              enc == Encode(e.name, fls[k].mode[i], a.v, b.v, pcs[k][i])
          IN IF a.st = "err" \/ b.st = "err" THEN Failing("err")
             ELSE IF a.st # "ok" \/ b.st # "ok" THEN Failing("over")
             ELSE IF e.mode \in {"rel8", "rel16"} /\ ~InMemory(a.v) THEN Failing("err")
             ELSE IF enc.ok THEN Fine(enc.bytes) ELSE Failing("err")
     ELSE IF e.name \in Data
     THEN LET vs == [j \in DOMAIN e.list |-> val(e.list[j])]
          IN IF \E j \in DOMAIN vs : vs[j].st = "err" THEN Failing("err")
             ELSE IF \E j \in DOMAIN vs : vs[j].st # "ok" THEN Failing("over")
             ELSE Fine(DataBytes(vs, PerEntry(e.name), 1))
     ELSE Fine(<<>>)

\* far destinations a statement gives literally
FarSite(e, pc) ==
  LET r == Eval(e.a, NoLook)
  IN IF e.k # "ins" \/ Names(e.a) # {} \/ r.st # "ok" THEN -1
     ELSE IF e.mode = "dirw" /\ e.name \in {"jmp", "jsr"} THEN BankOf(pc) * 65536 + (r.v % 65536)
     ELSE IF e.mode = "dirl" /\ e.name \in {"jmp", "jsl"} THEN r.v % 16777216
     ELSE -1
----------------------------------------------------------------------------
(* Assembling files: reasons why it must fail, why it may, and what a success
   writes.  exact: the bytes are determined. *)
Reasons(must, may) == [must |-> must, may |-> may, exact |-> FALSE, cells |-> <<>>, ms |-> <<>>,
                       pcs |-> <<>>, fls |-> <<>>]
Undefined(ms) ==
  \E k \in DOMAIN ms : \E i \in DOMAIN ms[k].s :
    LET e == ms[k].s[i].e
        used == Names(e.a) \union Names(e.b) \union UNION { Names(e.list[j]) : j \in DOMAIN e.list }
    IN ~IsDir(e, "module") /\ \E id \in used : Refers(ms, k, i, id) = <<>>
Clash(ms) == \E x \in Exports(ms), y \in Exports(ms) : x[1] = y[1] /\ x[2] = y[2] /\ x # y
LinkReasons(ms) ==
  (IF Undefined(ms) THEN {"undefined"} ELSE {})
  \union (IF Clash(ms) THEN {"duplicate export"} ELSE {})
  \union (IF Ordered(ms, {}) # DOMAIN ms THEN {"cyclic"} ELSE {})
\* a constant that mentions one defined by a later statement of its module
Forward(ms) ==
  \E k \in DOMAIN ms : \E i \in { j \in DOMAIN ms[k].s : IsDir(ms[k].s[j].e, "equ") } :
    \E id \in Names(ms[k].s[i].e.a) :
      LET l == Local(ms, k, i, id) IN l >= i /\ IsDir(ms[k].s[l].e, "equ")

RECURSIVE CellsOf(_, _), FlatCells(_, _)
CellsOf(pc, bs) == IF bs = <<>> THEN <<>> ELSE <<<<pc, Head(bs)>>>> \o CellsOf(Wrap(pc, 1), Tail(bs))
FlatCells(qs, i) == IF i > Len(qs) THEN <<>> ELSE qs[i] \o FlatCells(qs, i + 1)
Placed(ms, pcs, fls) ==
  LET ids == UNION { { <<k, i>> : i \in DOMAIN ms[k].s } : k \in DOMAIN ms }
      E(x) == ms[x[1]].s[x[2]].e
      at(x) == pcs[x[1]][x[2]]
      size(x) == SizeAt(ms[x[1]], fls[x[1]], x[2])
      equs == { x \in ids : IsDir(E(x), "equ") }
      value == TLCEval([x \in equs |-> ValueAt(ms, pcs, x[1], x[2], {})])
      remotes == { x \in ids : IsDir(E(x), "remote") }
      goes == TLCEval([x \in remotes |-> ValueOf(ms, pcs, x[1], x[2], E(x).a, {})])
      homeless == \E x \in ids : at(x) = -1 /\ size(x) > 0
      badorg == \E x \in ids : at(x) = -2
      noname == \E k \in DOMAIN ms : \E l \in ms[k].lab :
                  l[1] = 0 /\ pcs[k][l[3]] < 0 /\ ~IsDir(ms[k].s[l[3]].e, "equ")
      bytes == TLCEval([x \in ids |-> StatementBytes(ms, pcs, fls, x[1], x[2])])
      must == (IF homeless THEN {"no address"} ELSE {}) \union (IF badorg THEN {"origin"} ELSE {})
              \union (IF noname THEN {"label without value"} ELSE {})
              \union (IF \E x \in equs : value[x].st = "err" THEN {"constant"} ELSE {})
              \union (IF \E x \in remotes : goes[x].st = "err" \/ (goes[x].st = "ok" /\ ~InMemory(goes[x].v))
                      THEN {"remote"} ELSE {})
      may == (IF \E x \in equs : value[x].st = "over" THEN {"over"} ELSE {})
             \union (IF \E x \in remotes : goes[x].st = "over" THEN {"over"} ELSE {})
             \union (IF \E x \in ids : IsDir(E(x), "entry") /\ at(x) = -1 THEN {"entry without address"} ELSE {})
             \union (IF Forward(ms) THEN {"forward constant"} ELSE {})
  IN IF must # {} THEN Reasons(must, may)
     ELSE LET fails == { x \in ids : bytes[x].st = "err" }
              overs == { x \in ids : bytes[x].st = "over" }
              rows == TLCEval([k \in DOMAIN ms |->
                        FlatCells([i \in DOMAIN ms[k].s |-> CellsOf(pcs[k][i], bytes[<<k, i>>].bytes)], 1)])
              cells == FlatCells(rows, 1)
              twice == Cardinality({ cells[i][1] : i \in DOMAIN cells }) # Len(cells)
          IN IF fails # {} THEN Reasons({"operand"}, may)
             ELSE IF overs # {} THEN Reasons({}, may \union {"over"})
             ELSE IF twice THEN Reasons({"written twice"}, may)
             ELSE [Reasons({}, may) EXCEPT !.exact = TRUE, !.cells = cells, !.ms = ms, !.pcs = pcs,
                                           !.fls = fls]
Linked(ms) ==
  LET fls == TLCEval([k \in DOMAIN ms |-> FlowOf(ms[k])])
      must == UNION { fls[k].must : k \in DOMAIN ms } \union LinkReasons(ms)
      may == UNION { fls[k].may : k \in DOMAIN ms }
  IN IF must # {} THEN Reasons(must, may)
     ELSE IF \E k \in DOMAIN ms : fls[k].open # {} THEN Reasons({}, may \union {"open width"})
     ELSE LET r == Placed(ms, TLCEval([k \in DOMAIN ms |-> Layout(ms[k], fls[k], 1, -1)]), fls)
          IN [r EXCEPT !.may = @ \union may]
Assembly(files) ==
  LET ms == TLCEval([k \in DOMAIN files |-> Load(files[k])])
      bad == UNION { ms[k].bad : k \in DOMAIN ms }
  IN IF bad # {} THEN Reasons(bad, {}) ELSE Linked(ms)

----------------------------------------------------------------------------
(* What can be asked after a success; r is an exact result of Assembly *)
Owned(r) == { r.cells[i][1] : i \in DOMAIN r.cells }
Ids(r) == UNION { { <<k, i>> : i \in DOMAIN r.ms[k].s } : k \in DOMAIN r.ms }
St(r, x) == r.ms[x[1]].s[x[2]].e
\* names of named modules' top-level labels at an address: those of statements, and all
TopValue(r, k, l) == ValueAt(r.ms, r.pcs, k, l[3], {}).v
NamesAt(r, a, constants) ==
  UNION { { r.ms[k].name \o "::" \o l[2] :
              l \in { l \in r.ms[k].lab : /\ l[1] = 0 /\ TopValue(r, k, l) = a
                                         /\ (constants \/ ~IsDir(r.ms[k].s[l[3]].e, "equ")) } }
          : k \in { k \in DOMAIN r.ms : r.ms[k].name # "" } }
FarSites(r) == { <<FarSite(St(r, x), r.pcs[x[1]][x[2]]), x>> : x \in Ids(r) }
RemoteAt(r, x) == ValueOf(r.ms, r.pcs, x[1], x[2], St(r, x).a, {}).v
RemoteSites(r) == { <<RemoteAt(r, x), x>> : x \in { y \in Ids(r) : IsDir(St(r, y), "remote") } }
Targets(r) == { s[1] : s \in { t \in FarSites(r) : t[1] >= 0 } \union RemoteSites(r) } \ Owned(r)
\* the knowledge f reported for target a covers every jump there
Covers(r, a, f) ==
  /\ \A s \in FarSites(r) : s[1] = a => \A run \in r.fls[s[2][1]].runs[s[2][2]] :
                                          Describes(f, run.entry, run.now)
  /\ \A s \in RemoteSites(r) : s[1] = a => Meaning(St(r, s[2]).flags) \subseteq Meaning(f)
Declared(r) ==
  { <<s[1], St(r, s[2]).ret>> :
      s \in { t \in RemoteSites(r) \union
                   { <<r.pcs[x[1]][x[2]], x>> : x \in { y \in Ids(r) : IsDir(St(r, y), "entry") } } :
              St(r, t[2]).ret # Default } }
=============================================================================
