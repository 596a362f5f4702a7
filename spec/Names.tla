------------------------------- MODULE Names -------------------------------
(* Documented names of mnemonics, suffixes and directives (property C08;
   nsasm/mnemonic.h, mnemonic.cc).  Items are identified by their enumerator's spelling. *)
EXTENDS Text, FiniteSets

MnemonicNames == <<
  "adc", "and", "asl", "bit", "cld", "cli", "clv", "cmp", "cpx", "cpy", "dec",
  "dex", "dey", "eor", "inc", "inx", "iny", "lda", "ldx", "ldy", "lsr", "mvn",
  "mvp", "nop", "ora", "pea", "pei", "per", "pha", "phb", "phd", "phk", "phx",
  "phy", "pla", "plb", "pld", "plx", "ply", "rol", "ror", "sbc", "sed", "sei",
  "sta", "stp", "stx", "sty", "stz", "tax", "tay", "tcd", "tcs", "tdc", "trb",
  "tsb", "tsc", "tsx", "txa", "txs", "txy", "tya", "tyx", "wai", "wdm", "xba",
  "bcc", "bcs", "beq", "bmi", "bne", "bpl", "bra", "brk", "brl", "bvc", "bvs",
  "cop", "jmp", "jsl", "jsr", "rti", "rtl", "rts", "clc", "php", "plp", "rep",
  "sec", "sep", "xce">>
PseudoNames == <<"add", "sub">>
DirectiveNames == <<"begin", "db", "dl", "dw", "end", "entry", "equ", "halt", "mode",
                    "module", "org", "remote">>

Range(s) == { s[i] : i \in DOMAIN s }
Upper(s) == LET F[i \in 0 .. Len(s)] ==
                  IF i = 0 THEN "" ELSE
                  F[i - 1] \o (IF \E j \in 1 .. 26 : LowerChars[j] = Char(s, i)
                               THEN UpperChars[CHOOSE j \in 1 .. 26 : LowerChars[j] = Char(s, i)]
                               ELSE Char(s, i))
            IN F[Len(s)]

Kinds == {"mnemonic", "suffix", "directive"}

MnSet == Range(MnemonicNames)
PsSet == Range(PseudoNames)
DiSet == Range(DirectiveNames)
Items(kind) == CASE kind = "mnemonic" -> { "M_" \o n : n \in MnSet } \union { "PM_" \o n : n \in PsSet }
                 [] kind = "suffix" -> {"S_b", "S_w"}
                 [] kind = "directive" -> { "D_" \o n : n \in DiSet }
From(item, n) == SubSeq(item, n, Len(item))

\* printing anything but an item gives the empty string
PrintName(kind, item) ==
  IF item \notin Items(kind) THEN ""
  ELSE CASE kind = "mnemonic" -> IF Char(item, 1) = "P" THEN From(item, 4) ELSE From(item, 3)
         [] kind = "suffix" -> "." \o From(item, 3)
         [] kind = "directive" -> "." \o Upper(From(item, 3))
\* parsing: the item with that name in any letter case, "none" otherwise
ParseName(kind, s) ==
  LET f == Fold(s)
      g == IF Len(f) > 1 THEN From(f, 2) ELSE ""
      dot == IF f = "" THEN FALSE ELSE Char(f, 1) = "."
  IN CASE kind = "mnemonic" -> IF f \in MnSet THEN "M_" \o f
                               ELSE IF f \in PsSet THEN "PM_" \o f ELSE "none"
       [] kind = "suffix" -> IF f \in {".b", ".w"} THEN "S_" \o g ELSE "none"
       [] kind = "directive" -> IF dot /\ g \in DiSet THEN "D_" \o g ELSE "none"

\* one state per item: the laws are invariants over all of them
VARIABLES kind, item
NInit == kind \in Kinds /\ item \in Items(kind)
NNext == UNCHANGED <<kind, item>>
NSpec == NInit /\ [][NNext]_<<kind, item>>
RoundTrip == ParseName(kind, PrintName(kind, item)) = item
CaseBlind == ParseName(kind, Upper(PrintName(kind, item))) = item
Unique == \A j \in Items(kind) : j # item => Fold(PrintName(kind, j)) # Fold(PrintName(kind, item))
Counts == /\ Cardinality(Items("mnemonic")) = 93
          /\ Cardinality(Items("suffix")) = 2
          /\ Cardinality(Items("directive")) = 12
=============================================================================
