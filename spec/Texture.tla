-------------------------------- MODULE Texture -------------------------------
(* A checkerboard seen by walking over it.  The walk starts in the middle of  *)
(* nowhere in particular, at the origin of the texture, where the first value *)
(* shows, and takes steps of a quarter along one axis; the value shown turns  *)
(* over whenever a face between two unit cells is crossed.  The texture knows *)
(* nothing of the walk: it gets the point on the surface and maps it.         *)
EXTENDS TextureCore, Sequences, TLC

CONSTANTS Dim, Reach, Variant

VARIABLES map,     \* <<scale, offset>>: scale in halves per axis, offset in quarters
          m,       \* point of the texture, in quarters
          shown    \* 1 or 2
vars == <<map, m, shown>>

Axes == 1..Dim
Scales == {-2, 1, 4}
Offsets == {0, -3, 5}
Init == /\ map \in [s : [Axes -> Scales], o : [Axes -> Offsets]]
        /\ (Dim = 3 => \A k \in 2..3 : map.s[k] = map.s[1] /\ map.o[k] = -map.o[1])
        /\ m = [k \in Axes |-> 0] /\ shown = 1
Move(k, by) == /\ m[k] + by <= Reach /\ m[k] + by >= -Reach
               /\ m' = [m EXCEPT ![k] = @ + by]
               /\ shown' = IF Faces(m[k], m[k] + by, 4) % 2 = 1 THEN 3 - shown ELSE shown
               /\ UNCHANGED map
Next == \E k \in Axes, by \in {-1, 1} : Move(k, by)
Spec == Init /\ [][Next]_vars

(* the point of the surface that is mapped to m, in sixteenths: (m - o) / (s/2) *)
Surface(k) == (8 * (m[k] - map.o[k])) \div map.s[k]

(* the texture: the mapped point again, in thirty-seconds, and its value *)
Mapped(k) == IF Variant = "offsetfirst" THEN (Surface(k) + 4 * map.o[k]) * map.s[k]
             ELSE Surface(k) * map.s[k] + 8 * map.o[k]
Whole(x) == IF Variant = "truncate" THEN (IF x < 0 THEN -((-x) \div 32) ELSE x \div 32) ELSE x \div 32
Total == IF Dim = 2 THEN Whole(Mapped(1)) + Whole(Mapped(2)) ELSE IF Variant = "flat" THEN Whole(Mapped(1)) + Whole(Mapped(2)) ELSE Whole(Mapped(1)) + Whole(Mapped(2)) + Whole(Mapped(3))
(* remainder with the sign of the dividend *)
Rem(x) == IF x < 0 THEN -((-x) % 2) ELSE x % 2
Value == CASE Variant = "rem" -> IF Rem(Total) = 1 THEN 2 ELSE 1
           [] Variant = "stripes" -> IF Whole(Mapped(1)) % 2 = 0 \/ Whole(Mapped(2)) % 2 = 0 THEN 1 ELSE 2
           [] OTHER -> IF Rem(Total) = 0 THEN 1 ELSE 2

Right == Value = shown
Origin == (\A k \in Axes : m[k] \in 0..3) => shown = 1
(* what shows does not depend on the way walked *)
Walked == LET S(k) == m[k] \div 4 IN shown = 1 + ((IF Dim = 2 THEN S(1) + S(2) ELSE S(1) + S(2) + S(3)) % 2)
=============================================================================
