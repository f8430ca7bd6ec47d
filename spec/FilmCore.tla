------------------------------ MODULE FilmCore ------------------------------
(* Film geometry in integer units, U units per pixel.                        *)
EXTENDS Integers, Sequences, Tables

CeilDiv(a, b) == -((-a) \div b)            \* \div is floor division
FAbs(x) == IF x < 0 THEN -x ELSE x
FMin(a, b) == IF a < b THEN a ELSE b
FMax(a, b) == IF a > b THEN a ELSE b

(* sample positions that can reach one of n pixels: px in RegionLo..RegionHi-1 *)
RegionLo(U, r) == (U \div 2 - r) \div U
RegionHi(U, r, n) == CeilDiv(n * U - U \div 2 + r, U)

(* pixel p (one axis) is reached by a sample at s *)
Reaches(U, r, p, s) == FAbs(p * U + U \div 2 - s) <= r

(* step of the 16-step table for an offset *)
Step16(r, d) == FMin(15, (FAbs(d) * 16) \div r)

Weight(U, r, tab, px, py, x, y) ==
  tab[Step16(r, py * U + U \div 2 - y) * 16 + Step16(r, px * U + U \div 2 - x) + 1]

(* film pixels that samples of tile columns a..b-1 can reach: first and last + 1 *)
TileLo(U, r, a) == FMax(0, CeilDiv(a * U - U \div 2 - r, U))
TileHi(U, r, b, n) == FMin(n, (b * U + U \div 2 + r) \div U)

(* k is the nearest sRGB level of num / (256 * den), up to 2 parts in 2^20.  *)
(* den <= 1024, num <= 2^20.                                                 *)
LevelOK(num, den, k) ==
  IF den = 0 THEN k = 0
  ELSE IF num >= 384 * den THEN k = 255
  ELSE /\ k \in 0..255
       /\ (k > 0 => (SRGB[k] - 2) * den <= num * 4096)
       /\ (k < 255 => num * 4096 <= (SRGB[k + 1] + 2) * den)

(* the same for a value v in 2^-20 units *)
LevelOfOK(v, k) ==
  IF v >= 1048576 THEN k = 255
  ELSE /\ k \in 0..255
       /\ (k > 0 => SRGB[k] - 2 <= v)
       /\ (k < 255 => v <= SRGB[k + 1] + 2)
       /\ (v = 0 => k = 0)
=============================================================================
