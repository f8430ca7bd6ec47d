------------------------------- MODULE Optics --------------------------------
(* The laws against each other.  Directions are Pythagorean (exact sines and  *)
(* cosines); a pair of them fixes the ratio of the indices.  The fraction     *)
(* that is transmitted is computed on its own from the transmitted            *)
(* amplitudes, and has to complement what is reflected.                       *)
EXTENDS OpticsCore, FiniteSets

CONSTANTS Variant

VARIABLES i, t, side
vars == <<i, t, side>>
Angles == {<<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<15, 8, 17>>, <<7, 24, 25>>, <<24, 7, 25>>, <<20, 21, 29>>, <<21, 20, 29>>}
Cos(x) == (x[2] * 8192 + x[3]) \div (2 * x[3])
Init == i \in Angles /\ t \in Angles /\ (i[1] = 0) = (t[1] = 0) /\ i[1] # 0 /\ side = "in"
Next == side = "in" /\ side' = "out" /\ i' = t /\ t' = i          \* the same path backwards
Spec == Init /\ [][Next]_vars

(* n sin is the same on both sides: no : ni = sin t : sin i, as multiples of 1/64 with no = 64 or ni = 64 *)
No == t[1] * i[3]
Ni == i[1] * t[3]
Gcd(a, b) == CHOOSE g \in 1..200 : a % g = 0 /\ b % g = 0 /\ \A x \in (g + 1)..200 : ~(a % x = 0 /\ b % x = 0)
Norm == LET g == Gcd(No, Ni) IN <<No \div g, Ni \div g>>
Mine(c, no, ni) == CASE Variant = "swapped" -> Dielectric(c, ni, no)
                     [] Variant = "unpolarised" -> Sq(Amp(no * c, ni * BentCos(c, no, ni))) \div 256
                     [] OTHER -> Dielectric(c, no, ni)
(* what gets through, by amplitudes: (ni ct / no ci) (4 no^2 ci^2) / (...)^2 *)
Through(c, ct, no, ni) ==
  LET f(x, y) == Scaled(Scaled(16384, 4 * x, x + y), y, x + y)
  IN (f((no * c) \div 64, (ni * ct) \div 64) + f((ni * c) \div 64, (no * ct) \div 64)) \div 2
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
InReach == Norm[1] <= 160 /\ Norm[2] <= 160
Bounded == InReach => LET r == Mine(Cos(i), Norm[1], Norm[2]) IN r >= 0 /\ r <= 16384 + 8
Snell == InReach => ~Total(Cos(i), Norm[1], Norm[2]) /\ Near(BentCos(Cos(i), Norm[1], Norm[2]), Cos(t), 24)
Balance == InReach => Near(Mine(Cos(i), Norm[1], Norm[2]) + Through(Cos(i), Cos(t), Norm[1], Norm[2]), 16384, 120)
BothWays == InReach => Near(Mine(Cos(i), Norm[1], Norm[2]), Mine(Cos(t), Norm[2], Norm[1]), 60)
(* without absorption a conductor is a dielectric *)
NoAbsorption == (InReach /\ Norm[1] * 4 >= Norm[2] /\ Norm[2] <= 3 * Norm[1]) =>
   LET e == (Norm[2] * 64) \div Norm[1] IN (e >= 32 /\ ~Total(Cos(i), 64, e)) => Near(Conductor(Cos(i), e, 0), Dielectric(Cos(i), 64, e), 500)
=============================================================================
