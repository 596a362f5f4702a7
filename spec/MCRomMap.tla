------------------------------ MODULE MCRomMap ------------------------------
(* Laws of the address map, checked for every half bank of every mode: a state
   is one (mode, half bank).  Inside a half bank the map is constant NoRom or
   consecutive, which is what lets 512 facts per mode cover 2^24 addresses. *)
EXTENDS Rom
CONSTANT Probe         \* offsets inside a half bank at which laws are evaluated
VARIABLES m, hb
Init == m \in Modes /\ hb \in 0 .. 511
Next == FALSE /\ UNCHANGED <<m, hb>>
        /\ UNCHANGED rvars
MInit == Init /\ RomInit("lo", [size |-> 0, k |-> 0, patch |-> <<>>])
Spec == MInit /\ [][Next]_<<m, hb, rvars>>
Base == MapAddr(m, hb * 32768)
At(a) == MapAddr(m, a)
Affine == \A i \in Probe :
            At(hb * 32768 + i) = IF Base = NoRom THEN NoRom ELSE Base + i
Capacity == CASE m = "lo" -> 4194304 [] m = "hi" -> 4194304 [] m = "exhi" -> 8388608
InCapacity == Base # NoRom => Base >= 0 /\ Base + 32767 < Capacity
\* banks $80 up mirror banks $00 up, except that ExHiROM puts them 4 MiB apart
Mirror == LET b == hb \div 2 IN
  (b < 126) => LET other == At((b + 128) * 65536 + (hb % 2) * 32768) IN
               CASE m = "exhi" -> (Base = NoRom /\ other = NoRom) \/ Base = other + 4194304
                 [] OTHER -> Base = other
\* every half bank of ROM space is reachable: LoROM all 32 KiB pages, HiROM all
Reached(x) == \E h \in 0 .. 511 : At(h * 32768) = x
Onto == hb * 32768 < Capacity =>
        \/ Reached(hb * 32768)
        \/ m = "exhi" /\ hb \in {252, 254}    \* hidden behind work RAM
\* two half banks share ROM only as mirrors: same low seven (LoROM) or six bits
Injective == \A h \in 0 .. 511 :
   (Base # NoRom /\ At(h * 32768) = Base) =>
      IF m = "lo" THEN (h \div 2) % 128 = (hb \div 2) % 128
      ELSE (h \div 2) % 64 = (hb \div 2) % 64 /\ h % 2 = hb % 2
=============================================================================
