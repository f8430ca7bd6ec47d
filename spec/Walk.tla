-------------------------------- MODULE Walk ---------------------------------
(* A path into, inside and out of a convex solid, with hit points known only  *)
(* up to an error.  Space is a slab 0..L across direction 3 of a tilted frame *)
(* (any of the integer normals N); a hit point deviates by any integer vector *)
(* within its error box.  The spawned ray starts at the point pushed along    *)
(* the normal to the side its direction goes to.                              *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS L, E, Variant

VARIABLES n,         \* outward normal at side 0 (side 1 has -n)
          inside,    \* where the path is, by what was crossed
          pos,       \* the pushed origin's height over side 0, times n.n
          side,      \* the side the path is on: 0, 1, or 2 for gone
          going,     \* +1: along n (out at side 0), -1 against
          found      \* the side the next query reports, 2 for none, 3 before the query
vars == <<n, inside, pos, side, going, found>>

Normals == {<<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<1, -2, 2>>, <<3, 0, -1>>, <<0, 1, 4>>}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
AbsI(x) == IF x < 0 THEN -x ELSE x
Devs == {<<x, y, z>> : x, y, z \in -E..E}
(* the error bound seen along the normal, times |n|: sum |n_i| E *)
Reach(m) == (AbsI(m[1]) + AbsI(m[2]) + AbsI(m[3])) * E
Init == n \in Normals /\ inside = FALSE /\ side = 0 /\ going = 0 /\ pos = 0 /\ found = 3

(* Heights are in units of 1/|n| of n . x: side 0 is at height 0, side 1 at -H *)
H == L * Dot(n, n)
Base == IF side = 0 THEN 0 ELSE -H
Push(g) == CASE Variant = "nopush" -> 0
             [] Variant = "outward" -> (IF side = 0 THEN 1 ELSE -1) * Reach(n)
             [] Variant = "oneaxis" -> g * AbsI(n[3]) * E
             [] OTHER -> g * Reach(n)
Spawn ==
  /\ side \in {0, 1} /\ found = 3 /\ going = 0
  /\ \E g \in {-1, 1}, dev \in Devs :
       /\ going' = g
       /\ pos' = Base + Dot(n, dev) + Push(g)
       /\ inside' = ((side = 0 /\ g = -1) \/ (side = 1 /\ g = 1))
  /\ UNCHANGED <<n, side, found>>
(* a side is reported if it lies strictly ahead of the origin *)
Query ==
  /\ going # 0 /\ found = 3
  /\ found' = LET ahead == {s \in {0, 1} : LET h == (IF s = 0 THEN 0 ELSE -H) - pos IN IF going = 1 THEN h > 0 ELSE h < 0}
              IN IF ahead = {} THEN 2 ELSE IF going = 1 THEN (IF 1 \in ahead THEN 1 ELSE 0) ELSE (IF 0 \in ahead THEN 0 ELSE 1)
  /\ UNCHANGED <<n, inside, pos, side, going>>
Arrive ==
  /\ found # 3 /\ side' = found /\ found' = 3 /\ going' = 0
  /\ UNCHANGED <<n, inside, pos>>
Next == Spawn \/ Query \/ Arrive
Spec == Init /\ [][Next]_vars
Right == found # 3 => found = (IF ~inside THEN 2 ELSE 1 - side)
=============================================================================
