------------------------------ MODULE Microfacet -----------------------------
(* Sampling of a rough interface through its microfacet normals, on a circle  *)
(* of directions in 4 Q steps (the surface is at 0 and 2Q, its normal at Q).  *)
(* A microfacet normal is drawn with its weight and turned to the outgoing    *)
(* side; the direction is mirrored at it, or bent through it (an interface    *)
(* that halves angles on the way in and doubles them on the way out).  The    *)
(* ledger of produced directions has to agree with the density, which is      *)
(* computed backwards from the pair of directions.                            *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Q, MaxW, Variant

VARIABLES mode,      \* "reflect" or "transmit"
          w,         \* weight of each normal of the upper side
          wo, h,     \* outgoing direction; next normal to be drawn
          count
vars == <<mode, w, wo, h, count>>

Full == 4 * Q
Mod(a) == a % Full
Above(a) == LET b == Mod(a) IN b > 0 /\ b < 2 * Q
Below(a) == LET b == Mod(a) IN b > 2 * Q
SameSide(a, b) == (Above(a) /\ Above(b)) \/ (Below(a) /\ Below(b))
Apart(a, b) == (Above(a) /\ Below(b)) \/ (Below(a) /\ Above(b))
(* turn from b to a, in -2Q+1..2Q *)
Turn(a, b) == LET d == Mod(a - b) IN IF d > 2 * Q THEN d - Full ELSE d
Facing(a, m) == Turn(a, m) > -Q /\ Turn(a, m) < Q
Entering == Above(wo)
Weight(m) == IF Above(m) THEN w[Mod(m)] ELSE IF Below(m) THEN w[Mod(m + 2 * Q)] ELSE 0
OnSide(m) == IF Variant = "noflip" \/ SameSide(m, wo) THEN Mod(m) ELSE Mod(m + 2 * Q)
None == -1
Mirror(m) == Mod(2 * m - wo)
Bend(m) == LET d == Turn(wo, m)
           IN IF ~Facing(wo, m) /\ Variant # "nofacing" THEN None
              ELSE IF Entering THEN (IF d % 2 # 0 THEN None ELSE Mod(m + 2 * Q + d \div 2))
              ELSE IF 2 * d >= Q \/ 2 * d <= -Q THEN None ELSE Mod(m + 2 * Q + 2 * d)
Out(m) == LET x == IF mode = "reflect" THEN Mirror(m) ELSE Bend(m)
          IN IF x = None THEN None
             ELSE IF mode = "reflect" THEN (IF SameSide(wo, x) \/ (Variant = "noside" /\ ~Above(x) /\ ~Below(x) = FALSE) THEN x ELSE None)
             ELSE IF Apart(wo, x) THEN x ELSE None
(* the normal between two directions, on the outgoing side *)
Backwards(wi) ==
  IF mode = "reflect" THEN LET s == wo + wi IN IF s % 2 # 0 THEN None ELSE OnSide(s \div 2)
  ELSE LET a == Mod(wi - 2 * Q)
           in == IF Variant = "inverse" THEN ~Entering ELSE Entering
           (* a = m + d/2 = (wo + m)/2, or a = m + 2d = 2 wo - m *)
           m == IF in THEN Mod(2 * a - wo) ELSE Mod(2 * wo - a)
       IN IF SameSide(m, wo) THEN m ELSE Mod(m + 2 * Q)
Density(wi) ==
  IF mode = "reflect" THEN (IF ~SameSide(wo, wi) \/ Backwards(wi) = None THEN 0 ELSE Weight(Backwards(wi)))
  ELSE LET m == Backwards(wi)
       IN IF ~Apart(wo, wi) THEN 0
          ELSE IF Variant # "anyside" /\ ~(Facing(wo, m) /\ Bend(m) = Mod(wi)) THEN 0 ELSE Weight(m)

Dirs == {a \in 0..(Full - 1) : Above(a) \/ Below(a)}
Init == /\ mode \in {"reflect", "transmit"} /\ w \in [1..(2 * Q - 1) -> 0..MaxW] /\ wo \in Dirs
        /\ h = 1 /\ count = [d \in Dirs |-> 0]
Next == /\ h < 2 * Q /\ h' = h + 1 /\ UNCHANGED <<mode, w, wo>>
        /\ LET x == Out(OnSide(h)) IN count' = IF x = None THEN count ELSE [count EXCEPT ![x] = @ + w[h]]
Spec == Init /\ [][Next]_vars

Done == h = 2 * Q
Ledger == Done => \A d \in Dirs : count[d] = Density(d)
(* a mirrored pair is mirrored at the same normal both ways *)
Symmetric == (Done /\ mode = "reflect") => \A d \in Dirs : SameSide(wo, d) => (Backwards(d) = None \/ Mirror(Backwards(d)) = d)
=============================================================================
