-------------------------------- MODULE Lobes --------------------------------
(* A surface's scattering as the composition of lobes over a finite sphere of *)
(* direction cells.  A lobe turns the numbers 0..G-1 into cells (0: nothing); *)
(* its density of a cell is the share of numbers that lead there.  One call   *)
(* of the composition gets a number u of 0..nG-1, picks lobe u \div G and     *)
(* hands it the remaining number.  All numbers are tried one after another    *)
(* and what they return is added up in two ledgers: how often each cell is    *)
(* produced, and the estimate of the total scattered light (sum of            *)
(* value/density).                                                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS K, G, MaxN, Variant, Part

VARIABLES lobes,   \* sequence of [t: "R"/"T", spec: BOOLEAN, to: 0..G-1 -> 0..K]
          same,    \* cells on the geometric side of the outgoing direction
          u, count, total

vars == <<lobes, same, u, count, total>>

Unit == 60        \* least common multiple of all densities
Lobe == [t : {"R", "T"}, spec : BOOLEAN, to : [0..(G - 1) -> 0..K]]
ValueOf(k) == k   \* a lobe's value is the same for all cells
N == Len(lobes)
Members(d) == {i \in 1..N : IF d \in same THEN lobes[i].t = "R" ELSE lobes[i].t = "T"}
SumOver(S, f(_)) == MapThenSumSet(f, S)
(* specular lobes have neither value nor density for a pair of directions *)
F(d) == SumOver({i \in Members(d) : ~lobes[i].spec}, ValueOf)
Own(i, d) == IF lobes[i].spec THEN 0 ELSE Cardinality({g \in 0..(G - 1) : lobes[i].to[g] = d})
(* density times n G *)
Pdf(d) == SumOver(1..N, LAMBDA i : Own(i, d))

(* what one call returns: cell, value, density times n G *)
Sample(x) ==
  LET i == x \div G + 1
      g == IF Variant = "noremap" THEN x \div N ELSE x % G
      d == lobes[i].to[g]
  IN CASE d = 0 -> [d |-> 0]
       [] lobes[i].spec -> [d |-> d, spec |-> TRUE, f |-> ValueOf(i), m |-> IF Variant = "nodivide" THEN G * N ELSE G]
       [] N = 1 /\ Variant = "oneside" -> [d |-> d, spec |-> FALSE, f |-> ValueOf(i), m |-> Own(i, d)]
       [] Variant = "ownvalue" -> [d |-> d, spec |-> FALSE, f |-> ValueOf(i), m |-> Pdf(d)]
       [] Variant = "owndensity" -> [d |-> d, spec |-> FALSE, f |-> F(d), m |-> Own(i, d)]
       [] OTHER -> [d |-> d, spec |-> FALSE, f |-> F(d), m |-> Pdf(d)]

Lists == UNION {[1..n -> Lobe] : n \in 1..MaxN}
Init == /\ lobes \in Lists /\ same \in SUBSET (1..K) /\ (Cardinality(same) + Len(lobes)) % 2 \in Part
        /\ u = 0 /\ count = [d \in 1..K |-> 0] /\ total = 0
Next == /\ u < N * G /\ u' = u + 1 /\ UNCHANGED <<lobes, same>>
        /\ LET s == Sample(u)
           IN IF s.d = 0 THEN UNCHANGED <<count, total>>
              ELSE /\ count' = IF s.spec THEN count ELSE [count EXCEPT ![s.d] = @ + 1]
                   /\ total' = total + (s.f * Unit) \div s.m
Spec == Init /\ [][Next]_vars

Done == u = N * G
(* directions come out as often as the reported density says *)
Ledger == Done => \A d \in 1..K : count[d] = Pdf(d)
(* the mean of value/density is all the light from directions that can be produced, *)
(* and the specular lobes' share                                                    *)
Unbiased == Done => total = Unit * SumOver({d \in 1..K : Pdf(d) > 0}, F)
                            + SumOver({i \in 1..N : lobes[i].spec}, LAMBDA i : ValueOf(i) * Cardinality({g \in 0..(G - 1) : lobes[i].to[g] # 0}) * (Unit \div G))
=============================================================================
