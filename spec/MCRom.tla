------------------------------- MODULE MCRom -------------------------------
(* Bounded histories of writes over a small ROM; the overlay is checked
   against the history itself: last successful byte wins, nothing else moves *)
EXTENDS Rom, Json
CONSTANTS Mode, Starts, MaxWrites, MaxLen, RomSize
VARIABLE hist
mvars == <<mode, img, pf, over, reply, hist>>
MInit == RomInit(Mode, [size |-> RomSize, k |-> 1, patch |-> <<>>]) /\ hist = <<>>
Datas == UNION { [1 .. n -> {1, 2}] : n \in 0 .. MaxLen }
MNext == /\ Len(hist) < MaxWrites
         /\ \E a \in Starts, d \in Datas :
              /\ Write(a, d)
              /\ hist' = Append(hist, [a |-> a, d |-> d, ok |-> reply'.ok])
MSpec == MInit /\ [][MNext]_mvars

\* <<write index, byte index>> pairs of all bytes that reached the image
Landed == { w \in { <<i, j>> : i \in DOMAIN hist, j \in 1 .. MaxLen } :
              /\ w[2] <= Len(hist[w[1]].d)
              /\ \A q \in 1 .. w[2] :
                   LET o == MapAddr(Mode, Advance(hist[w[1]].a, q - 1))
                   IN o # NoRom /\ o < RomSize }
OffsetOf(w) == MapAddr(Mode, Advance(hist[w[1]].a, w[2] - 1))
LastWriteWins ==
  /\ DOMAIN over = { OffsetOf(w) : w \in Landed }
  /\ \A o \in DOMAIN over :
       LET W == { w \in Landed : OffsetOf(w) = o }
           last == CHOOSE w \in W : \A v \in W :
                     v[1] < w[1] \/ (v[1] = w[1] /\ v[2] <= w[2])
       IN over[o] = hist[last[1]].d[last[2]]
OkIsComplete == \A i \in DOMAIN hist :
   hist[i].ok = (\A q \in 1 .. Len(hist[i].d) : <<i, q>> \in Landed)
InImage == \A o \in DOMAIN over : o >= 0 /\ o < RomSize
Emit == Len(hist') < MaxWrites \/
        PrintT("TR " \o ToJson([h |-> hist', diff |-> Diff']))
=============================================================================
