------------------------------ MODULE Listing ------------------------------
(* Listings of the disassembling tools (property C26; util/quick_disassemble.cc,
   util/disassemble_more.cc).  A listing has one row for each instruction: its
   address, its label, the mode it announces if it is an entry, the instruction
   and the state after it. *)
EXTENDS Source, Disasm

\* Far targets in owned code are not followed: the sources contain it already.
RECURSIVE Whole(_, _, _, _, _)
Whole(mem, conv, owned, st, todo) ==
  IF todo = {} THEN st
  ELSE LET calls(a) == { c \in Calls1(mem, a, st[a]) : c[1] \notin owned }
           r == Absorb(st, UNION { Edges(mem, conv, a, st[a]) \union calls(a) : a \in todo }, {})
       IN Whole(mem, conv, owned, r.st, r.changed)
Followed(mem, conv, owned, ents) ==
  LET r == Absorb(<<>>, { <<e[1], Ana!Enter(e[2])>> : e \in { x \in ents : x[1] \notin owned } }, {})
  IN Whole(mem, conv, owned, r.st, r.changed)

\* The most that may be known: each entry is entered with what is known of all
\* its requests and calls at once.  (Entering one after the other and merging
\* may lose more, as a bit that differs is then not the one on entry.)
Jointly(fs) == LET g == CHOOSE g \in fs : TRUE
               IN IF Cardinality(fs) = 1 THEN g ELSE Flags(IF \A f \in fs : f.e = g.e THEN g.e ELSE "unk",
                                                           IF \A f \in fs : f.m = g.m THEN g.m ELSE "unk",
                                                           IF \A f \in fs : f.x = g.x THEN g.x ELSE "unk",
                                                           IF \A f \in fs : f.c = g.c THEN g.c ELSE "unk")
RECURSIVE Sharp(_, _, _, _)
Sharp(mem, conv, owned, ents) ==
  LET as == { e[1] : e \in ents }
      st == TLCEval(Wanted(mem, conv, { <<a, Jointly({ e[2] : e \in { d \in ents : d[1] = a } })>> : a \in as }))
      calls(a) == LET t == FarOf(Here(mem, st, a), a)
                  IN IF ~Here(mem, st, a).ok \/ t < 0 \/ t \in owned \/ ~Mapped(mem, t) THEN {}
                     ELSE {<<t, [st[a].f EXCEPT !.c = "unk"]>>}
      all == TLCEval(ents \union UNION { calls(a) : a \in DOMAIN st })
  IN IF all = ents THEN st ELSE Sharp(mem, conv, owned, all)

\* where a listing must announce an entry, and where it needs a label
EntriesOf(mem, ins, owned, ents) ==
  ({ e[1] : e \in ents } \union { t \in { FarOf(ins[a], a) : a \in DOMAIN ins } : t >= 0 /\ Mapped(mem, t) }) \ owned
Needed(mem, ins, owned, ents) ==
  EntriesOf(mem, ins, owned, ents) \union ({ NearOf(ins[a], a) : a \in DOMAIN ins } \ {-1})

\* the states that are said when f holds, or less
Weaker(f) == { Flags(e, m, x, c) : e \in {f.e, "unk"}, m \in {f.m, "unk"}, x \in {f.x, "unk"}, c \in {f.c, "unk"} }
SaysOf(f) == { Show(g) : g \in Weaker(f) }
\* what may be announced at an entry is the name of a mode
ModesOf(f) == { ToName(g) : g \in Weaker(f) }

\* a pair of CLC and ADC, or SEC and SBC, may stand as one ADD or SUB
Pair(ins, a, need) ==
  LET b == a + 1
  IN /\ OffOf(a) # 65535 /\ b \in DOMAIN ins /\ b \notin need
     /\ <<ins[a].mn, ins[b].mn>> \in {<<"clc", "adc">>, <<"sec", "sbc">>}

Suits(suf, mn, f) ==
  LET b == IF WidthOf(Real(mn)) = "m" THEN f.m ELSE f.x
  IN suf = "" \/ (WidthOf(Real(mn)) # "none" /\ b = (IF suf = "b" THEN "on" ELSE "off"))
\* the text of a row; at: addresses of the labels
Tells(text, ins, mn, a, f, ret, at) ==
  LET t == NearOf(ins, a)
      p == ParseLine(text)
      e == p.es[1]
      look == [id \in { x \in Names(e.a) : x[3] \in DOMAIN at } |-> Good(at[id[3]])]
      v == Eval(e.a, look)
  IN IF t >= 0 THEN \E n \in DOMAIN at : at[n] = t /\ text = mn \o " " \o n
     ELSE IF ins.mode = "rel16" THEN text = mn \o " " \o ToString(ins.a)
     ELSE /\ p.ok /\ Len(p.es) = 1 /\ e.k = "ins" /\ e.name = mn /\ e.ret = ret /\ Suits(e.suf, mn, f)
          /\ e.mode = ins.mode \/ (ins.mode \in {"immb", "immw"} /\ e.mode \in {"immm", "immx"})
          /\ Bytes(ins.mode) = 0 \/ (v.st = "ok" /\ v.v = (IF Names(e.a) = {} THEN ins.a ELSE FarOf(ins, a)))
          /\ ins.mode # "mov" \/ (Eval(e.b, NoLook).st = "ok" /\ Eval(e.b, NoLook).v = ins.b)

\* what is wrong with rows, given the states st of everything followed and the
\* most that may be known, sharp
Wrong(mem, conv, owned, ents, sharp, ins, rows) ==
  LET D == DOMAIN ins
      R == { rows[i] : i \in DOMAIN rows }
      starts == EntriesOf(mem, ins, owned, ents)
      need == Needed(mem, ins, owned, ents)
      folded == { x.a : x \in { y \in R : y.folded } }
      bad == { a \in folded : a \notin D \/ ~Pair(ins, a, need) }
      last(x) == IF x.folded THEN x.a + 1 ELSE x.a
      named == { x \in R : x.label # "" }
      at == TLCEval([n \in { x.label : x \in named } |-> (CHOOSE x \in named : x.label = n).a])
      after(a) == Ana!Exec(sharp[a], OpOf(ins[a], a, conv)).f
      mnOf(x) == IF ~x.folded THEN ins[x.a].mn ELSE IF ins[x.a].mn = "clc" THEN "add" ELSE "sub"
  IN IF bad # {} THEN {"folding"}
     ELSE IF Cardinality({ x.a : x \in R }) # Len(rows) THEN {"repeated"}
     ELSE IF { x.a : x \in R } # D \ { a + 1 : a \in folded } THEN {"extent"}
     ELSE (IF Cardinality(DOMAIN at) # Cardinality(named) THEN {"label twice"} ELSE {})
          \union (IF ~need \subseteq { x.a : x \in named } THEN {"no label"} ELSE {})
          \union (IF { x.a : x \in { y \in R : y.entry # "" } } # starts THEN {"entries"} ELSE {})
          \union (IF \E x \in R : x.entry # "" /\ x.entry \notin ModesOf(sharp[x.a].f) THEN {"mode"} ELSE {})
          \union (IF \E x \in R : x.says \notin SaysOf(after(last(x))) THEN {"state"} ELSE {})
          \union (IF \E x \in R : LET b == last(x)
                                  IN ~Tells(x.text, ins[b], mnOf(x), b, sharp[b].f, OpOf(ins[b], b, conv).ret, at)
                  THEN {"instruction"} ELSE {})
=============================================================================
