------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Claimed address ranges and exclusive ownership of addresses             *)
(* (nsasm/ranges.h, ranges.cc; properties C01 and C02).                    *)
(*                                                                         *)
(* Two descriptions of the same object are kept side by side:              *)
(*   claimed / owner  -- the meaning: a set of addresses, a partial map    *)
(*   iv / own         -- canonical interval lists, usable at full size     *)
(* TLC checks on small banks, in every reachable state, that the interval  *)
(* lists mean exactly the sets (Refines, OwnRefines).  The trace           *)
(* specification then uses only the interval half, with 65536-byte banks.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS BankSize, NumBanks

Top == BankSize * NumBanks
Addr == 0 .. Top - 1
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
BankOf(a) == a \div BankSize
OffOf(a) == a % BankSize

----------------------------------------------------------------------------
(* Set level *)

\* the addresses touched by a claim of len bytes at loc: wraps in its bank
ClaimSet(loc, len) ==
  { BankOf(loc) * BankSize + ((OffOf(loc) + i) % BankSize) : i \in 0 .. len - 1 }

\* does the claim touch some address twice?
SelfOverlap(len) == len > BankSize

\* the canonical chunk list of a set of addresses
RECURSIVE ChunksFrom(_, _)
ChunksFrom(S, a) ==
  IF a >= Top THEN <<>>
  ELSE IF a \notin S THEN ChunksFrom(S, a + 1)
  ELSE LET e == CHOOSE x \in a + 1 .. Top :
                  /\ x = Top \/ x \notin S
                  /\ \A y \in a .. x - 1 : y \in S
       IN <<<<a, e>>>> \o ChunksFrom(S, e)
ChunksOf(S) == ChunksFrom(S, 0)

----------------------------------------------------------------------------
(* Interval level: a sequence of <<lo, hi>>, half open, sorted, disjoint and
   not touching *)

Canonical(iv) ==
  /\ \A i \in DOMAIN iv : iv[i][1] < iv[i][2]
  /\ \A i \in 1 .. Len(iv) - 1 : iv[i][2] < iv[i + 1][1]

IvSet(iv) == UNION { iv[i][1] .. iv[i][2] - 1 : i \in DOMAIN iv }

IvHits(iv, lo, hi) == \E i \in DOMAIN iv : iv[i][1] < hi /\ lo < iv[i][2]

IvContains(iv, a) == \E i \in DOMAIN iv : iv[i][1] <= a /\ a < iv[i][2]

IvAdd(iv, lo, hi) ==
  LET before(c) == c[2] < lo
      after(c) == c[1] > hi
      touch(c) == ~before(c) /\ ~after(c)
      T == SelectSeq(iv, touch)
      new == IF T = <<>> THEN <<lo, hi>>
             ELSE <<Min(lo, T[1][1]), Max(hi, T[Len(T)][2])>>
  IN SelectSeq(iv, before) \o <<new>> \o SelectSeq(iv, after)

\* the pieces of a wrapping claim
Pieces(loc, len) ==
  IF len <= 0 THEN <<>>
  ELSE IF len >= BankSize
       THEN <<<<BankOf(loc) * BankSize, (BankOf(loc) + 1) * BankSize>>>>
       ELSE IF OffOf(loc) + len <= BankSize THEN <<<<loc, loc + len>>>>
       ELSE <<<<loc, (BankOf(loc) + 1) * BankSize>>,
              <<BankOf(loc) * BankSize, loc + len - BankSize>>>>

RECURSIVE IvAddAll(_, _)
IvAddAll(iv, ps) ==
  IF ps = <<>> THEN iv ELSE IvAddAll(IvAdd(iv, ps[1][1], ps[1][2]), Tail(ps))

IvHitsAny(iv, ps) == \E i \in DOMAIN ps : IvHits(iv, ps[i][1], ps[i][2])

----------------------------------------------------------------------------
(* Claiming: state and actions *)

VARIABLES claimed, iv, reply

cvars == <<claimed, iv, reply>>

CInit == claimed = {} /\ iv = <<>> /\ reply = TRUE

\* interval half of a claim (all the trace specification uses)
ClaimIv(loc, len) ==
  LET ps == Pieces(loc, len)
  IN /\ reply' = (~IvHitsAny(iv, ps) /\ ~SelfOverlap(len))
     /\ iv' = IvAddAll(iv, ps)

ClaimChunkIv(lo, hi) ==
  /\ reply' = ~IvHits(iv, lo, hi)
  /\ iv' = IvAdd(iv, lo, hi)

Claim(loc, len) ==
  /\ ClaimIv(loc, len)
  /\ claimed' = claimed \union ClaimSet(loc, len)

ClaimChunk(lo, hi) ==
  /\ ClaimChunkIv(lo, hi)
  /\ claimed' = claimed \union (lo .. hi - 1)

CNext == \/ \E loc \in Addr, len \in 0 .. 2 * BankSize + 1 : Claim(loc, len)
         \/ \E lo \in Addr : \E hi \in lo + 1 .. Top : ClaimChunk(lo, hi)

CSpec == CInit /\ [][CNext]_cvars

\* properties
Refines == /\ Canonical(iv)
           /\ IvSet(iv) = claimed
           /\ iv = ChunksOf(claimed)
           /\ \A a \in Addr : IvContains(iv, a) = (a \in claimed)

Monotone == [][claimed \subseteq claimed']_cvars

\* the answer is "all bytes were free", for claims
ReplyRight ==
  [][ /\ \A loc \in Addr, len \in 0 .. 2 * BankSize + 1 :
           Claim(loc, len) => reply' = (ClaimSet(loc, len) \cap claimed = {}
                                        /\ ~SelfOverlap(len))
    ]_cvars
=============================================================================
