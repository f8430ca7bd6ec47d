------------------------------- MODULE Halton --------------------------------
(* Indexing of the shared Halton point set: for every block of 2^e2 x 3^e3    *)
(* cells and every pixel, the index computed from the pixel (digit reversal   *)
(* and Chinese remainder) is the first point of the sequence in that pixel's  *)
(* cell, and the points in the cell are exactly a stride apart.               *)
EXTENDS HaltonCore, FiniteSets, TLC

CONSTANTS MaxE2, MaxE3, Block, Rounds, Variant

VARIABLES e2, e3, px, py, idx, state
vars == <<e2, e3, px, py, idx, state>>

S2 == Pow(2, e2)
S3 == Pow(3, e3)
Stride == S2 * S3

RECURSIVE Gcd(_, _)                       \* <<x, y>> with x*a + y*b = gcd
Gcd(a, b) == IF b = 0 THEN <<1, 0>> ELSE LET r == Gcd(b, a % b) IN <<r[2], r[1] - (a \div b) * r[2]>>
Inverse(a, n) == LET x == Gcd(a, n)[1] IN IF Variant = "abs" THEN (IF x < 0 THEN -x ELSE x) % n ELSE x % n

Rev(b, a, n) == IF Variant = "noreverse" THEN a % Pow(b, n) ELSE Reverse(b, a, n)
Index ==
  LET a == Rev(2, (px % Block) % S2, e2)
      b == Rev(3, (py % Block) % S3, e3)
      i2 == IF Variant = "swapped" THEN Inverse(S2, S3) ELSE Inverse(S3, S2)
      i3 == IF Variant = "swapped" THEN Inverse(S3, S2) ELSE Inverse(S2, S3)
  IN (a * S3 * i2 + b * S2 * i3) % Stride

Init == /\ e2 \in 0..MaxE2 /\ e3 \in 0..MaxE3
        /\ px \in (0 - 3)..(Block + 1) /\ py \in (0 - 3)..(Block + 1)
        /\ idx = 0 /\ state = "start"
Start == state = "start" /\ idx' = Index /\ state' = "first" /\ UNCHANGED <<e2, e3, px, py>>
Advance == state \in {"first", "more"} /\ idx < Rounds * Stride /\ idx' = idx + Stride /\ state' = "more" /\ UNCHANGED <<e2, e3, px, py>>
Next == Start \/ Advance
Spec == Init /\ [][Next]_vars

MyCell == CellOfPixel(px, py, Block, e2, e3)
InCell == state # "start" => CellOf(idx, e2, e3) = MyCell
First == state = "first" => \A j \in 0..(idx - 1) : CellOf(j, e2, e3) # MyCell
Consecutive == state = "more" => \A j \in (idx - Stride + 1)..(idx - 1) : CellOf(j, e2, e3) # MyCell
(* every stretch of Stride points meets every cell once *)
Stratified == state = "first" => \A c \in {<<x, y>> : x \in 0..(S2 - 1), y \in 0..(S3 - 1)} : \E j \in 0..(Stride - 1) : CellOf(j, e2, e3) = c
=============================================================================
