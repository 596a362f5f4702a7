------------------------------- MODULE MCIsa -------------------------------
(* Laws of the instruction table: one state per opcode, operand bytes and width *)
EXTENDS Isa
VARIABLES code, ops, width
Edge == {0, 1, 127, 128, 255}
Init == code \in 0 .. 255 /\ ops \in Edge \X Edge \X Edge /\ width \in {"on", "off"}
Spec == Init /\ [][UNCHANGED <<code, ops, width>>]_<<code, ops, width>>
OneEach == /\ Cardinality(Isa) = 256
           /\ \A n \in 0 .. 255 : \E t \in Isa : t[3] = n
           /\ \A t, u \in Isa : t[1] = u[1] /\ t[2] = u[2] => t = u
           /\ Cardinality(Mnemonics) = 93
RoundTrip ==
  LET bs == <<code, ops[1], ops[2], ops[3]>>
      i == Decode(bs, width, width)
      n == Length(i.mode)
  IN \A pc \in {0, 65533, 8454142, 16777215} :
       LET e == Encode(i.mn, i.mode, SourceOperand(i, pc), i.b, pc)
       IN i.ok /\ e.ok /\ e.bytes = SubSeq(bs, 1, n)
Counted == code = 0 /\ ops = <<0, 0, 0>> => OneEach
\* cut short, no instruction is made up
Prefixes == LET i == Decode(<<code, ops[1], ops[2], ops[3]>>, width, width)
            IN \A k \in 0 .. Length(i.mode) - 1 :
                 ~Decode(SubSeq(<<code, ops[1], ops[2], ops[3]>>, 1, k), width, width).ok
=============================================================================
