------------------------------ MODULE Transforms ------------------------------
(* Transforms built by multiplying steps from either side, each carried with  *)
(* its inverse.                                                               *)
EXTENDS TransformCore, FiniteSets, TLC

CONSTANTS MaxN, Variant, Emitting

VARIABLES ops, m, inv
vars == <<ops, m, inv>>

Shear(k) == <<"m", 1, k, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0>>
Steps == {<<"t", 1, 0, 0>>, <<"t", 0, -2, 1>>, <<"s", 4, 2, 2>>, <<"s", -2, 2, 2>>, <<"s", 1, 2, 4>>, <<"r", 1, 1>>, <<"r", 2, 1>>, <<"r", 3, 1>>, <<"r", 3, 2>>, Shear(1)}
Recip(h) == CASE h = 1 -> 4 [] h = 2 -> 2 [] h = 4 -> 1 [] h = -1 -> -4 [] h = -2 -> -2 [] OTHER -> -1
Undo(op) == CASE op[1] = "t" -> <<"t", -op[2], -op[3], -op[4]>>
              [] op[1] = "s" -> <<"s", Recip(op[2]), Recip(op[3]), Recip(op[4])>>
              [] op[1] = "m" -> Shear(-op[3])
              [] OTHER -> <<"r", op[2], (4 - op[3]) % 4>>
Init == ops = <<>> /\ m = Unit /\ inv = Unit
Right(op) == /\ ops' = Append(ops, op)
             /\ m' = (IF Variant = "order" THEN Times(Mat(op), m) ELSE Times(m, Mat(op)))
             /\ inv' = (IF Variant \in {"order", "invorder"} THEN Times(inv, Mat(Undo(op))) ELSE Times(Mat(Undo(op)), inv))
Left(op) == /\ ops' = <<op>> \o ops
            /\ m' = Times(Mat(op), m)
            /\ inv' = (IF Variant = "transposed" /\ op[1] = "r" THEN Times(inv, Mat(op)) ELSE Times(inv, Mat(Undo(op))))
Next == Len(ops) < MaxN /\ \E op \in Steps : Right(op) \/ (~Emitting /\ Left(op))
Spec == Init /\ [][Next]_vars

Probes == {<<0, 0, 0>>, <<U, 0, 0>>, <<0, U, 0>>, <<0, 0, U>>, <<U, -2 * U, 3 * U>>}
RECURSIVE Through(_, _, _)
(* the factors one after another, the last one first *)
Through(k, x, pt) == IF k = 0 THEN x ELSE Through(k - 1, IF pt THEN Pt(Mat(ops[k]), x) ELSE Vec(Mat(ops[k]), x), pt)
Chained == \A p \in Probes : Pt(m, p) = Through(Len(ops), p, TRUE) /\ Vec(m, p) = Through(Len(ops), p, FALSE)
Undone == \A p \in Probes : Pt(inv, Pt(m, p)) = p /\ Vec(inv, Vec(m, p)) = p
Directions == \A p, q \in Probes : LET d(a, b) == [k \in 1..3 |-> a[k] - b[k]]
                                       v == IF Variant = "moved" THEN Pt(m, d(p, q)) ELSE Vec(m, d(p, q))
                                   IN v = d(Pt(m, p), Pt(m, q))
Normal(n) == LET k == IF Variant = "normal" THEN m ELSE inv
             IN IF Variant = "normal" THEN Vec(m, n) ELSE [c \in 1..3 |-> (At(k, 1, c) * n[1] + At(k, 2, c) * n[2] + At(k, 3, c) * n[3]) \div U]
Dot(a, b) == ((a[1] \div 4) * (b[1] \div 4) + (a[2] \div 4) * (b[2] \div 4)) + (a[3] \div 4) * (b[3] \div 4)
Perpendicular == \A n, v \in Probes : Dot(Normal(n), Vec(m, v)) = Dot(n, v)
Corners == {<<x, y, z>> \in {0, 2 * U} \X {-U, U} \X {0, U} : TRUE}
Two == {<<0, -U, 0>>, <<2 * U, U, U>>}
InBox == LET pts == {Pt(m, c) : c \in IF Variant = "corners" THEN Two ELSE Corners}
             lo(k) == CHOOSE x \in {p[k] : p \in pts} : \A q \in pts : x <= q[k]
             hi(k) == CHOOSE x \in {p[k] : p \in pts} : \A q \in pts : x >= q[k]
             all == {<<0, -U, U>>, <<U, 0, 0>>, <<2 * U, -U, 0>>, <<2 * U, U, 0>>, <<0, U, U \div 2>>, <<2 * U, 0, U>>}
         IN \A a \in all : \A k \in 1..3 : lo(k) <= Pt(m, a)[k] /\ Pt(m, a)[k] <= hi(k)
Emit == (Emitting /\ ops # <<>>) => PrintT("@@BEH " \o ToString(ops))
=============================================================================
