-------------------------------- MODULE Film --------------------------------
(* Design of the film: samples are collected in tiles, a tile owns the film  *)
(* pixels its samples can reach (TileRegion), tiles are merged in any order. *)
(* Checked: every sample reaches exactly the pixels within the radius of     *)
(* their centres, once, whatever tiling, radius and merge order.             *)
EXTENDS FilmCore, FiniteSets, TLC
CONSTANTS U, MaxW, MaxH, Radii, Tiles, NSamples, Variant

VARIABLES W, H, r, ts,      \* configuration
          smp,              \* samples: [1..NSamples -> position]
          todo,             \* samples whose tile has not been rendered
          acc,              \* open tile: [pixel -> set of samples] or None
          tile,             \* the open tile (column, row)
          pix               \* film: [pixel -> bag of samples (id -> count)]
vars == <<W, H, r, ts, smp, todo, acc, tile, pix>>

None == <<>>
Pixels == (0..(W - 1)) \X (0..(H - 1))
TileOf(s, lo) == ((s \div U) - lo) \div ts
TileX(i) == LET lo == RegionLo(U, r) IN <<lo + i * ts, FMin(lo + (i + 1) * ts, RegionHi(U, r, W))>>
TileY(i) == LET lo == RegionLo(U, r) IN <<lo + i * ts, FMin(lo + (i + 1) * ts, RegionHi(U, r, H))>>

(* the tile's film region; the variants are design errors *)
Lo(a) == CASE Variant = "floor-min" -> FMax(0, (a * U + U \div 2 - r) \div U)
           [] OTHER -> TileLo(U, r, a)
Hi(b, n) == CASE Variant = "ceil-max" -> FMin(n, CeilDiv(b * U - U \div 2 + r, U) - 1)
              [] Variant = "no-border" -> FMin(n, b)
              [] OTHER -> TileHi(U, r, b, n)
TileRegion(t) == (Lo(TileX(t[1])[1])..(Hi(TileX(t[1])[2], W) - 1)) \X (Lo(TileY(t[2])[1])..(Hi(TileY(t[2])[2], H) - 1))

Positions(n) == (RegionLo(U, r) * U)..(RegionHi(U, r, n) * U - 1)

Init ==
  /\ W \in 1..MaxW /\ H \in 1..MaxH /\ r \in Radii /\ ts \in Tiles
  /\ smp \in [1..NSamples -> Positions(W) \X Positions(H)]
  /\ \A i, j \in 1..NSamples : i < j => smp[i][1] <= smp[j][1]
  /\ todo = 1..NSamples
  /\ acc = None /\ tile = None
  /\ pix = [p \in Pixels |-> [i \in 1..NSamples |-> 0]]

TileFor(i) == <<TileOf(smp[i][1], RegionLo(U, r)), TileOf(smp[i][2], RegionLo(U, r))>>

Open ==
  /\ acc = None /\ todo # {}
  /\ \E i \in todo :
       /\ tile' = TileFor(i)
       /\ acc' = [p \in TileRegion(TileFor(i)) |-> {}]
  /\ UNCHANGED <<W, H, r, ts, smp, todo, pix>>

Add ==
  /\ acc # None
  /\ \E i \in todo :
       /\ TileFor(i) = tile
       /\ acc' = [p \in DOMAIN acc |-> IF Reaches(U, r, p[1], smp[i][1]) /\ Reaches(U, r, p[2], smp[i][2])
                                       THEN acc[p] \cup {i} ELSE acc[p]]
       /\ todo' = todo \ {i}
  /\ UNCHANGED <<W, H, r, ts, smp, tile, pix>>

Merge ==
  /\ acc # None
  /\ \A i \in todo : TileFor(i) # tile
  /\ pix' = [p \in Pixels |-> IF p \in DOMAIN acc THEN [i \in 1..NSamples |-> pix[p][i] + (IF i \in acc[p] THEN 1 ELSE 0)] ELSE pix[p]]
  /\ acc' = None /\ tile' = None
  /\ UNCHANGED <<W, H, r, ts, smp, todo>>

Next == Open \/ Add \/ Merge
Spec == Init /\ [][Next]_vars

Inside == acc # None => DOMAIN acc \subseteq Pixels
Complete ==
  (todo = {} /\ acc = None) =>
    \A p \in Pixels : \A i \in 1..NSamples :
      pix[p][i] = IF Reaches(U, r, p[1], smp[i][1]) /\ Reaches(U, r, p[2], smp[i][2]) THEN 1 ELSE 0
NeverTwice == \A p \in DOMAIN pix : \A i \in 1..NSamples : pix[p][i] <= 1
(* the sample region is exactly what can reach the image, pixel by pixel *)
RegionTight ==
  /\ \A q \in {RegionLo(U, r) - 1, RegionHi(U, r, W)} : \A o \in 0..(U - 1) : \A p \in 0..(W - 1) : o > 0 => ~Reaches(U, r, p, q * U + o)
=============================================================================
