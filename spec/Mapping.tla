------------------------------ MODULE Mapping ------------------------------
(* Where in a cartridge's ROM a SNES address lies (nsasm/rom.cc) *)
EXTENDS Integers

\* TLC's 32-bit integers hold every address and offset that occurs here.
BankOf(a) == a \div 65536
OffOf(a) == a % 65536
Advance(a, i) == BankOf(a) * 65536 + ((OffOf(a) + i) % 65536)

Modes == {"lo", "hi", "exhi"}
NoRom == -1

\* C03: the offset into ROM behind a SNES address, or NoRom
MapAddr(mode, a) ==
  LET b == BankOf(a)
      o == OffOf(a)
  IN IF b \in {126, 127} THEN NoRom
     ELSE IF o < 32768 /\ b % 128 < 64 THEN NoRom
     ELSE CASE mode = "lo" -> IF o < 32768 THEN NoRom
                              ELSE (b % 128) * 32768 + (o - 32768)
            [] mode = "hi" -> (b % 64) * 65536 + o
            [] mode = "exhi" -> (b % 64) * 65536 + o
                                 + (IF b < 128 THEN 4194304 ELSE 0)

\* C05: which files are ROMs, and which mapping they get.  A file is its header
\* (0 or 512 bytes, from the size) followed by the image; B(i): its byte i
HeaderLen(fileSize) == IF fileSize % 4096 = 512 THEN 512 ELSE 0
Complement(B(_), base) == B(base + 44) + B(base + 46) = 255 /\ B(base + 45) + B(base + 47) = 255
ClassifyBytes(fileSize, B(_)) ==
  LET data == fileSize - HeaderLen(fileSize)
      lo == Complement(B, 32688)      \* $7FB0
      hi == Complement(B, 65456)      \* $FFB0
  IN IF data % 4096 # 0 \/ data < 65536 THEN "none"
     ELSE IF lo = hi THEN "none"
     ELSE IF lo THEN "lo"
     ELSE IF data <= 4194304 THEN "hi" ELSE "exhi"
=============================================================================
