-------------------------------- MODULE Rom --------------------------------
(***************************************************************************)
(* Cartridge ROMs: address translation, reading, file detection, patching  *)
(* and comparing (nsasm/rom.*, memory.*; properties C03..C07).             *)
(***************************************************************************)
EXTENDS Mapping, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Images.  img = [size, k, patch]: size bytes of a fixed pattern selected by
   k, with the bytes listed in patch (a sequence of <<offset, byte>>) replaced *)

Pattern(k, i) ==
  ((i % 256) * 37 + ((i \div 256) % 256) * 101 + (i \div 65536) * 59 + k * 17
   + (i % 251)) % 256

PatchFn(img) == [o \in { img.patch[j][1] : j \in DOMAIN img.patch } |->
                   LET J == { j \in DOMAIN img.patch : img.patch[j][1] = o }
                       m == CHOOSE j \in J : \A n \in J : n <= j
                   IN img.patch[m][2]]

\* byte i of the image, pf = PatchFn(img)
ByteAt(img, pf, i) == IF i \in DOMAIN pf THEN pf[i] ELSE Pattern(img.k, i)

\* the offsets behind the n bytes at address a, or <<>> with ok = FALSE
Readable(mode, size, a, n) ==
  \A i \in 0 .. n - 1 :
    LET o == MapAddr(mode, Advance(a, i)) IN o # NoRom /\ o < size

\* C04.  Failure is [ok |-> FALSE]; success carries the bytes
ReadRom(mode, img, pf, a, n) ==
  IF n = 0 THEN [ok |-> TRUE, bytes |-> <<>>]
  ELSE IF n < 0 \/ n > 200000 \/ ~Readable(mode, img.size, a, n)
  THEN [ok |-> FALSE, bytes |-> <<>>]
  ELSE [ok |-> TRUE,
        bytes |-> [i \in 1 .. n |-> ByteAt(img, pf, MapAddr(mode, Advance(a, i - 1)))]]

RECURSIVE LittleEndian(_)
LittleEndian(bs) == IF bs = <<>> THEN 0 ELSE bs[1] + 256 * LittleEndian(Tail(bs))

----------------------------------------------------------------------------
(* C05: see Mapping.tla; mapping of an accepted file, "none" for a rejected one *)
Classify(fileSize, image, patch) == LET B(i) == ByteAt(image, patch, i) IN ClassifyBytes(fileSize, B)

----------------------------------------------------------------------------
(* State: a loaded ROM with an overlay of written bytes (C06) *)

VARIABLES mode, img, pf, over, reply
rvars == <<mode, img, pf, over, reply>>

Empty == <<>>

RomInit(m, i) == /\ mode = m /\ img = i /\ pf = PatchFn(i)
                 /\ over = [o \in {} |-> 0] /\ reply = [ok |-> TRUE]

\* number of leading bytes of a write that can be written
RECURSIVE Prefix(_, _, _)
Prefix(a, n, i) ==
  IF i >= n THEN n
  ELSE LET o == MapAddr(mode, Advance(a, i))
       IN IF o = NoRom \/ o >= img.size THEN i ELSE Prefix(a, n, i + 1)

RECURSIVE Overlay(_, _, _, _)
Overlay(f, a, bs, n) ==      \* the first n bytes of bs written in order
  IF n = 0 THEN f
  ELSE LET g == Overlay(f, a, bs, n - 1)
       IN (MapAddr(mode, Advance(a, n - 1)) :> bs[n]) @@ g

Write(a, bs) ==
  LET p == Prefix(a, Len(bs), 0)
  IN /\ over' = Overlay(over, a, bs, p)
     /\ reply' = [ok |-> p = Len(bs)]
     /\ UNCHANGED <<mode, img, pf>>

\* the saved image, as the set of offsets differing from the pattern's image
Diff == { <<o, over[o]>> : o \in { x \in DOMAIN over : over[x] # ByteAt(img, pf, x) } }

\* C07: comparing writes never change anything
FirstDiff(a, bs, rd) ==
  LET D == { i \in DOMAIN bs : bs[i] # rd.bytes[i] }
  IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

Compare(a, bs) ==
  LET rd == ReadRom(mode, img, pf, a, Len(bs))
  IN /\ reply' = IF ~rd.ok THEN [ok |-> FALSE, at |-> <<>>]
                 ELSE LET d == FirstDiff(a, bs, rd)
                      IN IF d = 0 THEN [ok |-> TRUE, at |-> <<>>]
                         ELSE [ok |-> FALSE,
                               at |-> <<bs[d], Advance(a, d - 1), rd.bytes[d]>>]
     /\ UNCHANGED <<mode, img, pf, over>>
=============================================================================
