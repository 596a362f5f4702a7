------------------------------ MODULE TraceRom ------------------------------
(* Validates recorded ROM calls (nsasm/rom.*, memory.*, util/quick_dump). *)
EXTENDS Rom, Json, IOUtils
VARIABLES l, bad, file
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<mode, img, pf, over, reply, l, bad, file>>

NoFile == [size |-> 0, hdr |-> 0]
TraceInit == /\ RomInit("lo", [size |-> 0, k |-> 0, patch |-> <<>>])
             /\ l = 1 /\ bad = FALSE /\ file = NoFile

Judge(match, want) ==
  IF bad THEN bad' = TRUE
  ELSE IF match THEN bad' = FALSE
  ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, want |-> want]))
       /\ bad' = TRUE

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Keep == UNCHANGED rvars

\* a ROM built in memory: starts an independent trace
Begin == /\ Is("begin") /\ bad' = FALSE
         /\ file' = [size |-> E.img.size + E.hdr, hdr |-> E.hdr]
         /\ mode' = E.mode /\ img' = E.img /\ pf' = PatchFn(E.img)
         /\ over' = [o \in {} |-> 0] /\ reply' = [ok |-> TRUE]

\* C03: a run of addresses lo..hi whose translation is off, off+1, ...
\* (or an error throughout, off = -1)
Runs(r) == \A i \in DOMAIN r :
   /\ MapAddr(E.mode, r[i][1]) = r[i][3]
   /\ MapAddr(E.mode, r[i][2]) = IF r[i][3] = NoRom THEN NoRom
                                 ELSE r[i][3] + (r[i][2] - r[i][1])
THalf == /\ Is("half") /\ Keep /\ UNCHANGED file
         \* the runs tile the half bank, which the specification maps affinely
         /\ Judge(/\ Len(E.runs) >= 1
                  /\ E.runs[1][1] = E.hb * 32768
                  /\ E.runs[Len(E.runs)][2] = E.hb * 32768 + 32767
                  /\ \A i \in 1 .. Len(E.runs) - 1 : E.runs[i + 1][1] = E.runs[i][2] + 1
                  /\ Runs(E.runs),
                  [base |-> MapAddr(E.mode, E.hb * 32768)])

\* C04
TRead == /\ Is("read") /\ Keep /\ UNCHANGED file
         /\ LET w == ReadRom(mode, img, pf, E.addr, E.len)
            IN Judge(E.ok = w.ok /\ E.bytes = w.bytes,
                     [ok |-> w.ok, bytes |-> SubSeq(w.bytes, 1, IF Len(w.bytes) < 40 THEN Len(w.bytes) ELSE 40), n |-> Len(w.bytes)])
TValue == /\ Is("value") /\ Keep /\ UNCHANGED file
          /\ LET w == ReadRom(mode, img, pf, E.addr, E.n)
             IN Judge(/\ E.ok = w.ok
                      /\ w.ok => E.val = LittleEndian(w.bytes),
                      [ok |-> w.ok, val |-> IF w.ok THEN LittleEndian(w.bytes) ELSE -1])

\* C05: a file on disk, an attempt to load it
TFile == /\ Is("file") /\ UNCHANGED <<mode, over, reply>>
         /\ img' = E.img /\ pf' = PatchFn(E.img)
         /\ file' = [size |-> E.size, hdr |-> HeaderLen(E.size)]
         /\ bad' = FALSE
TLoad == /\ Is("load") /\ UNCHANGED <<img, pf, reply, file>>
         /\ LET m == Classify(file.size, img, pf)
            IN /\ mode' = IF m = "none" THEN mode ELSE m
               /\ over' = [o \in {} |-> 0]
               /\ Judge(E.ok = (m # "none"), [mode |-> m])
\* an attempt to open something that is not there or not a file
TLoadBad == /\ Is("loadbad") /\ Keep /\ UNCHANGED file
            /\ Judge(E.ok = FALSE, [ok |-> FALSE])

\* C06
TWrite == /\ Is("write") /\ Write(E.addr, E.bytes) /\ UNCHANGED file
          /\ Judge(E.ok = reply'.ok, [ok |-> reply'.ok])
\* the saved file: size, header identical, bytes differing from the image
TSave == /\ Is("save") /\ Keep /\ UNCHANGED file
         /\ Judge(/\ E.ok
                  /\ E.size = img.size + file.hdr
                  /\ E.hdrsame
                  /\ { <<E.diff[i][1], E.diff[i][2]>> : i \in DOMAIN E.diff } = Diff,
                  [size |-> img.size + file.hdr, diff |-> Diff])
TSaveBad == /\ Is("savebad") /\ Keep /\ UNCHANGED file
            /\ Judge(E.ok = FALSE, [ok |-> FALSE])

\* C07
TCompare == /\ Is("compare") /\ Compare(E.addr, E.bytes) /\ UNCHANGED file
            /\ Judge(E.ok = reply'.ok /\ (E.ok \/ reply'.at = <<>> \/ E.at = reply'.at),
                     reply')

\* C11: one run of the dump tool.  E.lines: <<directive width, values>>
DumpStride == IF E.stride \in {2, 3} THEN E.stride ELSE 1
DumpCount == IF E.count < 1 THEN 1 ELSE E.count
DumpPer == IF E.per < 1 THEN 1 ELSE E.per
DumpRead(i) == ReadRom(mode, img, pf, Advance(E.addr, i * DumpStride), DumpStride)
DumpOk == \A i \in 0 .. DumpCount - 1 : DumpRead(i).ok
DumpLines == (DumpCount + DumpPer - 1) \div DumpPer
DumpWant ==
  [j \in 1 .. DumpLines |->
     <<DumpStride,
       [i \in 1 .. (IF j < DumpLines THEN DumpPer ELSE DumpCount - DumpPer * (DumpLines - 1)) |->
          LittleEndian(DumpRead((j - 1) * DumpPer + i - 1).bytes)]>>]
TDump == /\ Is("dump") /\ Keep /\ UNCHANGED file
         /\ IF Classify(file.size, img, pf) # "none" /\ DumpOk
            THEN Judge(E.rc = 0 /\ E.org = E.addr /\ E.lines = DumpWant,
                       [rc |-> 0, lines |-> DumpWant])
            ELSE Judge(E.rc = 1 /\ E.lines = <<>> /\ E.org = -1 /\ E.said,
                       [rc |-> 1, lines |-> <<>>])

\* the driver had no ROM to work on because the load was refused
TSkip == Is("skip") /\ Keep /\ UNCHANGED <<file, bad>>

TraceNext == TSkip \/ Begin \/ THalf \/ TRead \/ TValue \/ TFile \/ TLoad \/ TLoadBad
             \/ TWrite \/ TSave \/ TSaveBad \/ TCompare \/ TDump
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
