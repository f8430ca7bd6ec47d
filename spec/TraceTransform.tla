---------------------------- MODULE TraceTransform ----------------------------
(* Recorded transforms: the factors, and what the product does with points,   *)
(* vectors, normals, rays, boxes and interactions (in 1/256 for factors on    *)
(* the lattice, in 2^-12 of the magnitude for arbitrary ones).                *)
EXTENDS TraceBase, TransformCore

VARIABLES m
tvars == <<l, m>>
TraceInit == l = 1 /\ m = Unit

New == Is("new") /\ Step /\ m' = Unit
Factor == Is("step") /\ Step /\ \E op \in {Ev.op} : m' = Times(m, Mat(op))
Big(v) == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3]))
Near(a, b) == \A k \in 1..3 : Abs(a[k] - b[k]) <= 2 + Max2(Big(a), Big(b)) \div 4096
Fix(p) == [k \in 1..3 |-> U * p[k]]
Point == /\ Is("point") /\ Step /\ UNCHANGED m
         /\ \E img \in {Pt(m, Fix(Ev.p))} :
              /\ ChkX("a point is not mapped by the factors one after another", Near(Ev.img, img), <<img, Ev.img>>)
              /\ ChkX("a point is mapped elsewhere by the factors themselves", Near(Ev.chain, img), <<img, Ev.chain>>)
         /\ ChkX("the inverse does not take a point back", \A k \in 1..3 : Abs(Ev.back[k] - U * Ev.p[k]) <= 4 /\ Abs(Ev.away[k] - U * Ev.p[k]) <= 4, <<Ev.back, Ev.away>>)
Vector == /\ Is("vector") /\ Step /\ UNCHANGED m
          /\ \E img \in {Vec(m, Fix(Ev.v))} :
               /\ ChkX("a vector is not mapped by the factors one after another", Near(Ev.img, img), <<img, Ev.img>>)
               /\ ChkX("a vector is mapped elsewhere by the factors themselves", Near(Ev.chain, img), <<img, Ev.chain>>)
          /\ ChkX("the inverse does not take a vector back", \A k \in 1..3 : Abs(Ev.back[k] - U * Ev.v[k]) <= 4, Ev.back)
(* n.w before and after, for a normal n and a vector w: perpendicular stays so, and sides are kept *)
Normal == /\ Is("normal") /\ Step /\ UNCHANGED m
          /\ \E d \in {(Ev.n[1] * Ev.w[1] + Ev.n[2] * Ev.w[2]) + Ev.n[3] * Ev.w[3]} :
               ChkX("a normal does not stay perpendicular to its surface", Abs(Ev.dot - U * d) <= 6, <<Ev.n, Ev.w, Ev.dot>>)
          /\ Chk("the inverse does not take a normal back", \A k \in 1..3 : Abs(Ev.back[k] - U * Ev.n[k]) <= 4)
Box == /\ Is("box") /\ Step /\ UNCHANGED m
       /\ LET bad == {c \in {1, 4} \X {2, 5} \X {3, 6} :
                        LET p == Pt(m, <<U * Ev.b[c[1]], U * Ev.b[c[2]], U * Ev.b[c[3]]>>)
                        IN \E k \in 1..3 : p[k] < Ev.lo[k] - 2 \/ p[k] > Ev.hi[k] + 2}
          IN ChkX("a transformed box does not contain a transformed corner", bad = {}, <<Ev.lo, Ev.hi, bad>>)
RayEv == /\ Is("ray") /\ Step /\ UNCHANGED m
         /\ ChkX("a ray's origin is not mapped as a point", Near(Ev.o, Pt(m, Fix(Ev.p))), Ev.o)
         /\ ChkX("a ray's direction is not mapped as a vector", Near(Ev.d, Vec(m, Fix(Ev.v))), Ev.d)
         /\ Chk("a ray's length changes", Ev.keep)
Reach(e) == [r \in 1..3 |-> ((Abs(At(m, r, 1)) * e[1] + Abs(At(m, r, 2)) * e[2]) + Abs(At(m, r, 3)) * e[3])]
Inter == /\ Is("inter") /\ Step /\ UNCHANGED m
         /\ ChkX("an interaction's point is not mapped as a point", Near(Ev.p2, Pt(m, Fix(Ev.p))), Ev.p2)
         /\ Chk("an interaction's vectors are not mapped as vectors", Near(Ev.wo2, Vec(m, Fix(Ev.wo))) /\ Near(Ev.du2, Vec(m, Fix(Ev.du))) /\ Near(Ev.dv2, Vec(m, Fix(Ev.dv))))
         /\ Chk("an interaction's normal is not mapped as a normal", Ev.ndot = 0 \/ Abs(Ev.ndot) <= 6)
         /\ Chk("an interaction's shading normal is not mapped as a normal", Abs(Ev.sndot) <= 6)
         /\ Chk("an interaction's surface coordinates change", Ev.uv)
         /\ ChkX("an interaction's position error does not cover the mapped error", \A k \in 1..3 : Ev.err2[k] >= Reach(Ev.err)[k] - 3 - Reach(Ev.err)[k] \div 4096, <<Ev.err, Ev.err2, Reach(Ev.err)>>)
(* arbitrary factors *)
Close == /\ Is("close") /\ Step /\ UNCHANGED m
         /\ ChkX(Ev.what, \A k \in 1..3 : Abs(Ev.x[k] - Ev.y[k]) <= 20, <<Ev.x, Ev.y>>)
(* where the image of a point of a box is between the sides of the transformed box *)
Within == /\ Is("within") /\ Step /\ UNCHANGED m
          /\ ChkX("a transformed box does not contain the image of a point of it", \A k \in 1..3 : Ev.at[k] >= -8 /\ Ev.at[k] <= 4096 + 8, Ev.at)
TurnEv == /\ Is("turn") /\ Step /\ UNCHANGED m
          /\ \E u \in {Next3(Ev.axis)} : \E v \in {Next3(u)} :
               LET want(j) == [k \in 1..3 |-> IF j = Ev.axis THEN (IF k = j THEN 4096 ELSE 0)
                                              ELSE IF j = u THEN (IF k = u THEN Ev.c ELSE IF k = v THEN Ev.s ELSE 0)
                                              ELSE (IF k = v THEN Ev.c ELSE IF k = u THEN -Ev.s ELSE 0)]
               IN ChkX("a rotation does not turn the axes by its angle", \A j, k \in 1..3 : Abs(Ev.img[j][k] - want(j)[k]) <= 4, Ev.img)
(* what a single factor does, as shares (2^-12) of what it should do *)
Share == /\ Is("share") /\ Step /\ UNCHANGED m
         /\ ChkX("something is not " \o Ev.what \o " as much as the factor says", \A k \in DOMAIN Ev.x : Abs(Ev.x[k] - 4096) <= 4, <<Ev.what, Ev.x>>)
(* a matrix of four rows of four: homogeneous coordinates *)
Project == /\ Is("project") /\ Step /\ UNCHANGED m
           /\ LET row(j) == ((Ev.m[4 * j + 1] * Ev.p[1] + Ev.m[4 * j + 2] * Ev.p[2]) + Ev.m[4 * j + 3] * Ev.p[3]) + Ev.m[4 * j + 4]
                  w == row(3)
              IN ChkX("a point is not mapped by its homogeneous coordinates", \A k \in 1..3 : Abs(Ev.img[k] * w - U * row(k - 1)) <= Abs(w), <<Ev.m, Ev.p, Ev.img>>)
           /\ ChkX("the inverse does not take a point back", \A k \in 1..3 : Abs(Ev.back[k] - U * Ev.p[k]) <= 16, <<Ev.m, Ev.p, Ev.back>>)
Nearly == /\ Is("nearly") /\ Step /\ UNCHANGED m
          /\ LET row(j) == ((Ev.m[4 * j + 1] * Ev.p[1] + Ev.m[4 * j + 2] * Ev.p[2]) + Ev.m[4 * j + 3] * Ev.p[3]) + Ev.m[4 * j + 4]
                 w == row(3)
             IN ChkX("a point is not mapped by its homogeneous coordinates", \A k \in 1..3 : Abs(Ev.img[k] * w - 64 * 4096 * row(k - 1)) <= 2 * Abs(w), <<Ev.m, Ev.p, Ev.img>>)
Panic == Is("panic") /\ Step /\ UNCHANGED m /\ ChkX("panic", FALSE, Ev.what)
TraceNext == New \/ Factor \/ Point \/ Vector \/ Normal \/ Box \/ RayEv \/ Inter \/ Close \/ Within \/ TurnEv \/ Share \/ Project \/ Nearly \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
