---------------------------- MODULE TransformCore -----------------------------
(* Affine maps in fixed point (256 is one).  A step is <<"t", x, y, z>>       *)
(* (translation), <<"s", x, y, z>> (scaling, in halves), <<"r", axis, turns>> *)
(* (rotation by quarter turns, right-handed) or <<"m", 12 numbers>> (rows of  *)
(* a matrix).  A matrix is a sequence of 12 numbers, three rows of four.      *)
EXTENDS Integers, Sequences

U == 256
Idx == 1..12
Row(i) == ((i - 1) \div 4) + 1
Col(i) == ((i - 1) % 4) + 1
At(m, r, c) == m[4 * (r - 1) + c]
Unit == [i \in Idx |-> IF Row(i) = Col(i) THEN U ELSE 0]
Cos(t) == CASE t % 4 = 0 -> 1 [] t % 4 = 2 -> -1 [] OTHER -> 0
Sin(t) == CASE t % 4 = 1 -> 1 [] t % 4 = 3 -> -1 [] OTHER -> 0
Next3(a) == IF a = 3 THEN 1 ELSE a + 1
(* rotation about an axis: the next axis turns towards the one after *)
Turn(axis, t) == [i \in Idx |-> LET r == Row(i) c == Col(i) u == Next3(axis) v == Next3(u)
                 IN CASE c = 4 -> 0
                      [] r = axis \/ c = axis -> IF r = c THEN U ELSE 0
                      [] r = c -> U * Cos(t)
                      [] r = u /\ c = v -> -U * Sin(t)
                      [] OTHER -> U * Sin(t)]
Mat(op) == CASE op[1] = "t" -> [i \in Idx |-> IF Col(i) = 4 THEN U * op[1 + Row(i)] ELSE IF Row(i) = Col(i) THEN U ELSE 0]
             [] op[1] = "s" -> [i \in Idx |-> IF Row(i) = Col(i) THEN (U \div 2) * op[1 + Row(i)] ELSE 0]
             [] op[1] = "r" -> Turn(op[2], op[3])
             [] OTHER -> [i \in Idx |-> U * op[1 + i]]
Dot3(m, r, x, y, z) == ((At(m, r, 1) * x + At(m, r, 2) * y) + At(m, r, 3) * z) \div U
Times(a, b) == [i \in Idx |-> Dot3(a, Row(i), At(b, 1, Col(i)), At(b, 2, Col(i)), At(b, 3, Col(i))) + (IF Col(i) = 4 THEN At(a, Row(i), 4) ELSE 0)]
(* points and vectors in fixed point *)
Vec(m, v) == [r \in 1..3 |-> Dot3(m, r, v[1], v[2], v[3])]
Pt(m, p) == [r \in 1..3 |-> Dot3(m, r, p[1], p[2], p[3]) + At(m, r, 4)]
=============================================================================
