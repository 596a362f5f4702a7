-------------------------------- MODULE Isa --------------------------------
(* The 65816 instruction set: opcodes, operand layout, assembling and decoding
   (property C20; nsasm/opcode_map.cc, decode.cc, instruction.cc,
   addressing_mode.cc).  Written down the way the processor manual lays the
   opcodes out: eight accumulator operations share one column pattern, the
   read-modify-write group another, the rest one by one. *)
EXTENDS Text, FiniteSets

Modes816 == {"imp", "acc", "immb", "immw", "dirb", "dirw", "dirl", "dirbx", "dirby", "dirwx",
             "dirwy", "dirlx", "indb", "indw", "indbx", "indby", "indwx", "lngb", "lngw", "lngby",
             "stk", "stky", "mov", "rel8", "rel16", "immm", "immx"}

AluOps == <<"ora", "and", "eor", "adc", "sta", "lda", "cmp", "sbc">>
AluColumns == {<<"indbx", 1>>, <<"stk", 3>>, <<"dirb", 5>>, <<"lngb", 7>>, <<"immm", 9>>,
               <<"dirw", 13>>, <<"dirl", 15>>, <<"indby", 17>>, <<"indb", 18>>, <<"stky", 19>>,
               <<"dirbx", 21>>, <<"lngby", 23>>, <<"dirwy", 25>>, <<"dirwx", 29>>, <<"dirlx", 31>>}
Alu == { <<AluOps[i], k[1], 32 * (i - 1) + k[2]>> : i \in 1 .. 8, k \in AluColumns }
         \ {<<"sta", "immm", 137>>}

RmwOps == <<"asl", "rol", "lsr", "ror">>
RmwColumns == {<<"dirb", 6>>, <<"acc", 10>>, <<"dirw", 14>>, <<"dirbx", 22>>, <<"dirwx", 30>>}
Rmw == { <<RmwOps[i], k[1], 32 * (i - 1) + k[2]>> : i \in 1 .. 4, k \in RmwColumns }
       \union { <<"dec", k[1], 192 + k[2]>> : k \in RmwColumns \ {<<"acc", 10>>} }
       \union { <<"inc", k[1], 224 + k[2]>> : k \in RmwColumns \ {<<"acc", 10>>} }
       \union {<<"inc", "acc", 26>>, <<"dec", "acc", 58>>}

BranchOps == <<"bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq">>
BranchCodes == { <<BranchOps[i], "rel8", 32 * (i - 1) + 16>> : i \in 1 .. 8 }
               \union {<<"bra", "rel8", 128>>, <<"brl", "rel16", 130>>, <<"per", "rel16", 98>>}

Jumps == {<<"jmp", "dirw", 76>>, <<"jmp", "dirl", 92>>, <<"jmp", "indw", 108>>,
          <<"jmp", "indwx", 124>>, <<"jmp", "lngw", 220>>, <<"jsr", "dirw", 32>>,
          <<"jsr", "indwx", 252>>, <<"jsl", "dirl", 34>>}

IndexOps ==
  {<<"ldy", "immx", 160>>, <<"ldy", "dirb", 164>>, <<"ldy", "dirw", 172>>, <<"ldy", "dirbx", 180>>,
   <<"ldy", "dirwx", 188>>, <<"ldx", "immx", 162>>, <<"ldx", "dirb", 166>>, <<"ldx", "dirw", 174>>,
   <<"ldx", "dirby", 182>>, <<"ldx", "dirwy", 190>>, <<"cpy", "immx", 192>>, <<"cpy", "dirb", 196>>,
   <<"cpy", "dirw", 204>>, <<"cpx", "immx", 224>>, <<"cpx", "dirb", 228>>, <<"cpx", "dirw", 236>>,
   <<"sty", "dirb", 132>>, <<"sty", "dirw", 140>>, <<"sty", "dirbx", 148>>, <<"stx", "dirb", 134>>,
   <<"stx", "dirw", 142>>, <<"stx", "dirby", 150>>}

BitOps ==
  {<<"bit", "immm", 137>>, <<"bit", "dirb", 36>>, <<"bit", "dirw", 44>>, <<"bit", "dirbx", 52>>,
   <<"bit", "dirwx", 60>>, <<"tsb", "dirb", 4>>, <<"tsb", "dirw", 12>>, <<"trb", "dirb", 20>>,
   <<"trb", "dirw", 28>>, <<"stz", "dirb", 100>>, <<"stz", "dirw", 156>>, <<"stz", "dirbx", 116>>,
   <<"stz", "dirwx", 158>>}

Fixed == {<<"brk", "immb", 0>>, <<"cop", "immb", 2>>, <<"wdm", "immb", 66>>, <<"rep", "immb", 194>>,
          <<"sep", "immb", 226>>, <<"pea", "immw", 244>>, <<"pei", "dirb", 212>>,
          <<"mvp", "mov", 68>>, <<"mvn", "mov", 84>>}

NoOperand == {<<"php", 8>>, <<"phd", 11>>, <<"clc", 24>>, <<"tcs", 27>>, <<"plp", 40>>, <<"pld", 43>>,
              <<"sec", 56>>, <<"tsc", 59>>, <<"rti", 64>>, <<"pha", 72>>, <<"phk", 75>>, <<"cli", 88>>,
              <<"phy", 90>>, <<"tcd", 91>>, <<"rts", 96>>, <<"pla", 104>>, <<"rtl", 107>>, <<"sei", 120>>,
              <<"ply", 122>>, <<"tdc", 123>>, <<"dey", 136>>, <<"txa", 138>>, <<"phb", 139>>,
              <<"tya", 152>>, <<"txs", 154>>, <<"txy", 155>>, <<"tay", 168>>, <<"tax", 170>>,
              <<"plb", 171>>, <<"clv", 184>>, <<"tsx", 186>>, <<"tyx", 187>>, <<"iny", 200>>,
              <<"dex", 202>>, <<"wai", 203>>, <<"cld", 216>>, <<"phx", 218>>, <<"stp", 219>>,
              <<"inx", 232>>, <<"nop", 234>>, <<"xba", 235>>, <<"sed", 248>>, <<"plx", 250>>,
              <<"xce", 251>>}

Isa == Alu \union Rmw \union BranchCodes \union Jumps \union IndexOps \union BitOps \union Fixed
       \union { <<p[1], "imp", p[2]>> : p \in NoOperand }

Mnemonics == { t[1] : t \in Isa } \union {"add", "sub"}
\* the table as functions, by opcode and by name
ByCode == TLCEval([n \in 0 .. 255 |-> CHOOSE t \in Isa : t[3] = n])
Sizeless(m) == IF m \in {"immm", "immx"} THEN {"immb", "immw"} ELSE {}
Pairs == { <<t[1], t[2]>> : t \in Isa }
         \union UNION { { <<t[1], m>> : m \in Sizeless(t[2]) } : t \in Isa }
ByName == TLCEval([p \in Pairs |->
            (CHOOSE t \in Isa : t[1] = p[1] /\ (t[2] = p[2] \/ p[2] \in Sizeless(t[2])))[3]])
\* an immediate operand whose size the mode must settle before it is encoded
Encodable(mn, mode) == <<mn, mode>> \in DOMAIN ByName /\ mode \notin {"immm", "immx"}

----------------------------------------------------------------------------
(* Operands *)
Bytes(m) == CASE m \in {"imp", "acc"} -> 0
              [] m \in {"immw", "dirw", "dirwx", "dirwy", "indw", "indwx", "lngw", "mov", "rel16"} -> 2
              [] m \in {"dirl", "dirlx"} -> 3
              [] OTHER -> 1
Length(m) == 1 + Bytes(m)
\* ADD and SUB are CLC:ADC and SEC:SBC
Real(mn) == CASE mn = "add" -> "adc" [] mn = "sub" -> "sbc" [] OTHER -> mn
Prefix(mn) == CASE mn = "add" -> <<24>> [] mn = "sub" -> <<56>> [] OTHER -> <<>>
Size(mn, m) == Len(Prefix(mn)) + Length(m)

LowByte(n) == n % 256
RECURSIVE LE(_, _)
\* the n low bytes of v, low byte first
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)
RECURSIVE Value(_)
Value(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 256 * Value(Tail(bs))
Signed8(v) == IF v >= 128 THEN v - 256 ELSE v
Signed16(v) == IF v >= 32768 THEN v - 65536 ELSE v

BankOf(a) == a \div 65536
OffOf(a) == a % 65536
Wrap(a, n) == BankOf(a) * 65536 + ((OffOf(a) + n) % 65536)

None == [ok |-> FALSE, bytes |-> <<>>]
\* the bytes of an instruction at address pc; operands a and b
Encode(mn, m, a, b, pc) ==
  IF ~Encodable(Real(mn), m) THEN None
  ELSE LET op == Prefix(mn) \o << ByName[<<Real(mn), m>>] >>
           next == Wrap(pc, Len(op) + Bytes(m))
           d == Signed16((OffOf(a) - OffOf(next)) % 65536)
       IN CASE m = "mov" -> [ok |-> TRUE, bytes |-> op \o << b % 256, a % 256 >>]
            [] m = "rel8" -> IF BankOf(a) = BankOf(next) /\ d >= -128 /\ d <= 127
                             THEN [ok |-> TRUE, bytes |-> op \o << d % 256 >>] ELSE None
            [] m = "rel16" -> IF BankOf(a) = BankOf(next)
                              THEN [ok |-> TRUE, bytes |-> op \o LE(d, 2)] ELSE None
            [] OTHER -> [ok |-> TRUE, bytes |-> op \o LE(a, Bytes(m))]

\* width: "on" (8 bits), "off" (16 bits) or anything else (not known)
Settle(m, mbit, xbit) ==
  LET w(b) == IF b = "on" THEN "immb" ELSE IF b = "off" THEN "immw" ELSE "none"
  IN IF m = "immm" THEN w(mbit) ELSE IF m = "immx" THEN w(xbit) ELSE m
Undecoded == [ok |-> FALSE, mn |-> "", mode |-> "", a |-> 0, b |-> 0]
\* what the processor executes when it meets these bytes
Decode(bs, mbit, xbit) ==
  IF bs = <<>> THEN Undecoded
  ELSE LET t == ByCode[bs[1]]
           m == Settle(t[2], mbit, xbit)
           arg == SubSeq(bs, 2, Length(m))
       IN IF m = "none" \/ Len(bs) < Length(m) THEN Undecoded
          ELSE [ok |-> TRUE, mn |-> t[1], mode |-> m,
                a |-> CASE m = "mov" -> arg[2]
                        [] m = "rel8" -> Signed8(arg[1])
                        [] m = "rel16" -> Signed16(Value(arg))
                        [] OTHER -> Value(arg),
                b |-> IF m = "mov" THEN arg[1] ELSE 0]
\* the operand the source text gives: branches name their target
SourceOperand(i, pc) == IF i.mode \in {"rel8", "rel16"} THEN Wrap(pc, Length(i.mode) + i.a) ELSE i.a

----------------------------------------------------------------------------
(* Which width the size of the data depends on: the accumulator's, an index
   register's, or neither *)
MWidth == {"adc", "add", "and", "asl", "bit", "cmp", "dec", "eor", "inc", "lda", "lsr", "ora", "pha",
           "pla", "rol", "ror", "sbc", "sta", "stz", "sub", "trb", "tsb", "txa", "tya"}
XWidth == {"cpx", "cpy", "dex", "dey", "inx", "iny", "ldx", "ldy", "phx", "phy", "plx", "ply", "stx",
           "sty", "tax", "tay", "tsx", "txy", "tyx"}
WidthOf(mn) == IF mn \in MWidth THEN "m" ELSE IF mn \in XWidth THEN "x" ELSE "none"
ImmM(mn) == <<Real(mn), "immm">> \in Pairs
ImmX(mn) == <<Real(mn), "immx">> \in Pairs
=============================================================================
