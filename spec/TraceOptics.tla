----------------------------- MODULE TraceOptics -----------------------------
(* Smooth surfaces against the laws of optics: every direction they send      *)
(* light in (2^-14, the surface's normal is z) with what it carries (2^-14).  *)
(* Indices and colours are in 1/64.                                           *)
EXTENDS TraceBase, OpticsCore

tvars == <<l>>
TraceInit == l = 1

One == 16384
Reflected == 17
Transmitted == 18
(* indices on the side of the outgoing direction and on the other one *)
Dense == IF Ev.kind = "plastic" THEN 96 ELSE Ev.eta[1]
No(above) == IF above THEN 64 ELSE Dense
Ni(above) == IF above THEN Dense ELSE 64
(* what happens is decided by rounding next to the critical angle *)
Critical(c, above) == LET s == BentSin2(c, No(above), Ni(above)) IN s > 15700000 /\ s < 17000000
Fraction(c, above, k) ==
  CASE Ev.kind = "mirror" -> One
    [] Ev.kind = "metal" -> IF Ev.eta[k] = 64 /\ Ev.k[k] = 0 THEN 0 ELSE Conductor(c, Ev.eta[k], Ev.k[k])
    [] OTHER -> Dielectric(c, No(above), Ni(above))
Tol(x) == CASE Ev.kind = "mirror" -> 4
            [] Ev.kind = "metal" -> 150 + x \div 60
            [] OTHER -> 60 + x \div 150
Near(x, y) == Abs(x - y) <= Tol(Max2(Abs(x), Abs(y)))
Spread(no, ni) == IF no <= ni THEN 1 ELSE (no * no) \div (ni * ni) + 1
Colour == IF Ev.kind = "plastic" THEN Ev.b ELSE Ev.a
Reflects(c, above, k) == (Colour[k] * Fraction(c, above, k)) \div 64
(* radiance spreads over a different cone on the other side *)
Transmits(c, above, k) == IF Ev.kind # "glass" \/ Total(c, No(above), Ni(above)) THEN 0
                          ELSE Scaled((Ev.b[k] * (One - Fraction(c, above, k))) \div 64, No(above) * No(above), Ni(above) * Ni(above))

Of(flag) == {j \in 1..Len(Ev.rays) : Ev.rays[j][1] = flag}
CarriedBy(flag, k) == IF Of(flag) = {} THEN 0 ELSE LET j == CHOOSE j \in Of(flag) : TRUE IN Ev.rays[j][4 + k]
UnitLength(r) == LET n == (r[2] * r[2] + r[3] * r[3]) + r[4] * r[4] - One * One IN n < 100000 /\ n > -100000
Bent(r, above) == LET no == No(above) ni == Ni(above) wo == Ev.wo
                  IN Abs(no * wo[1] + ni * r[2]) <= no + ni + 16 /\ Abs(no * wo[2] + ni * r[3]) <= no + ni + 16
Optic ==
  /\ Is("optic") /\ Step
  /\ \E above \in {Ev.wo[3] > 0}, c \in {Abs(Ev.wo[3]) \div 4} :
     /\ Chk("light leaves in another way than by reflection or transmission", \A j \in 1..Len(Ev.rays) : Ev.rays[j][1] \in {Reflected, Transmitted})
     /\ Chk("reflection in more than one direction", Cardinality(Of(Reflected)) <= 1 /\ Cardinality(Of(Transmitted)) <= 1)
     /\ ChkX("not reflected about the normal", \A j \in Of(Reflected) : LET r == Ev.rays[j] IN Abs(r[2] + Ev.wo[1]) <= 2 /\ Abs(r[3] + Ev.wo[2]) <= 2 /\ Abs(r[4] - Ev.wo[3]) <= 2, Ev.rays)
     /\ ChkX("not refracted by the ratio of the indices", \A j \in Of(Transmitted) : LET r == Ev.rays[j] IN Bent(r, above) /\ UnitLength(r) /\ (r[4] < 0) = above, Ev.rays)
     /\ \A j \in Of(Reflected) \cup Of(Transmitted) : Chk("a carried amount is negative or not a number", \A k \in 1..3 : Ev.rays[j][4 + k] >= 0 /\ Ev.rays[j][4 + k] # NaNI)
     /\ Chk("more is reflected than arrives", \A k \in 1..3 : CarriedBy(Reflected, k) <= Colour[k] * 256 + 4)
     /\ (Ev.kind \in {"mirror", "metal"} \/ ~Critical(c, above)) =>
          /\ \E f \in {<<Reflects(c, above, 1), Reflects(c, above, 2), Reflects(c, above, 3)>>} :
               ChkX("not Fresnel's fraction is reflected", \A k \in 1..3 : Near(CarriedBy(Reflected, k), f[k]), <<f, Ev.rays>>)
          /\ (Total(c, No(above), Ni(above)) /\ Ev.kind \in {"glass", "plastic"}) => Chk("transmission beyond the critical angle", Of(Transmitted) = {})
          /\ \E f \in {<<Transmits(c, above, 1), Transmits(c, above, 2), Transmits(c, above, 3)>>} :
               ChkX("not the rest of Fresnel's fraction is transmitted", \A k \in 1..3 : Abs(CarriedBy(Transmitted, k) - f[k]) <= Tol(f[k]) * (IF No(above) > 2 * Ni(above) THEN Spread(No(above), Ni(above)) ELSE 1), <<f, Ev.rays>>)

(* glass that hardly differs from what is around it *)
SubtleGlass ==
  /\ Is("subtle") /\ Step
  /\ \E f \in {Subtle(Ev.c, Ev.over, Ev.below)} :
     LET n == IF Ev.below THEN C1 + Ev.over ELSE C1
         m == IF Ev.below THEN C1 ELSE C1 + Ev.over
         near(x, y) == Abs(x - y) <= 40 + f \div 25
     IN /\ Chk("light leaves in another way than by reflection or transmission", \A j \in 1..Len(Ev.rays) : Ev.rays[j][1] \in {Reflected, Transmitted})
        /\ Chk("reflection in more than one direction", Cardinality(Of(Reflected)) <= 1 /\ Cardinality(Of(Transmitted)) <= 1)
        /\ ChkX("not reflected about the normal", \A j \in Of(Reflected) : LET r == Ev.rays[j] IN Abs(r[2] + Ev.wo[1]) <= 2 /\ Abs(r[3] + Ev.wo[2]) <= 2 /\ Abs(r[4] - Ev.wo[3]) <= 2, Ev.rays)
        /\ ChkX("not refracted by the ratio of the indices", \A j \in Of(Transmitted) : LET r == Ev.rays[j] IN
              /\ \A k \in 1..2 : Abs(n * Ev.wo[k] + m * r[k + 1]) <= 3 * C1
              /\ UnitLength(r) /\ (r[4] > 0) = Ev.below, Ev.rays)
        /\ ChkX("not Fresnel's fraction is reflected", near(CarriedBy(Reflected, 1), f), <<f, Ev.rays>>)
        /\ ChkX("not the rest of Fresnel's fraction is transmitted",
                near(CarriedBy(Transmitted, 1), IF f = One THEN 0 ELSE Scaled(Scaled(One - f, n, m), n, m)), <<f, Ev.rays>>)
(* nearly smooth surfaces: all they send out on each side *)
Limit ==
  /\ Is("limit") /\ Step
  /\ \E above \in {Ev.z > 0}, c \in {Abs(Ev.z) \div 4} :
     LET tol(x) == IF Max2(Ev.ru, Ev.rv) > 5 THEN One \div 60 + x \div 20 ELSE IF Ev.kind = "metal" THEN 160 + x \div 40 ELSE 40 + x \div 60
         far == Ev.kind = "metal" \/ LET s == BentSin2(c, No(above), Ni(above)) 
                                                       IN IF Max2(Ev.ru, Ev.rv) > 5 THEN s < 8000000 \/ s > 34000000 ELSE s < 11000000 \/ s > 25000000
     IN far =>
          /\ \E f \in {<<Reflects(c, above, 1), Reflects(c, above, 2), Reflects(c, above, 3)>>} :
               ChkX("a nearly smooth surface does not reflect Fresnel's fraction", \A k \in 1..3 : Abs(Ev.refl[k] - f[k]) <= tol(f[k]), <<f, Ev.refl>>)
          /\ \E f \in {<<Transmits(c, above, 1), Transmits(c, above, 2), Transmits(c, above, 3)>>} :
               ChkX("a nearly smooth surface does not transmit the rest of Fresnel's fraction", \A k \in 1..3 : Abs(Ev.trans[k] - f[k]) <= tol(f[k]) * Spread(No(above), Ni(above)), <<f, Ev.trans>>)
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what)
TraceNext == Optic \/ SubtleGlass \/ Limit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
