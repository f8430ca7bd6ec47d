----------------------------- MODULE TraceShape ------------------------------
(* Answers of the real triangles and spheres to single rays.  Scenes on       *)
(* integer points are decided exactly (Geometry); floating point scenes are   *)
(* measured, and deviations come in units of the rounding they may have.      *)
EXTENDS TraceBase, Geometry

tvars == <<l>>
TraceInit == l = 1

One == 1024
U == 4096
Big(w) == Abs(w[1]) + Abs(w[2]) + Abs(w[3])
Cell(w) == <<w[1] * One, w[2] * One, w[3] * One>>
Small(w, tol) == Abs(w[1]) <= tol /\ Abs(w[2]) <= tol /\ Abs(w[3]) <= tol
AllFinite(w) == \A i \in 1..Len(w) : Finite(w[i])
UnitLen(w) == AllFinite(w) /\ Abs(w[1]) <= 4200 /\ Abs(w[2]) <= 4200 /\ Abs(w[3]) <= 4200 /\ Abs(GDot(w, w) - U * U) <= 8 * U
(* frame: |sn|, length of dpdu and of dpdv (0 none, 1 proper), cosine and sine of dpdu and sn, sine of dpdu and dpdv *)
Frame(f) ==
  /\ Chk("the shading normal is not a finite unit vector", Finite(f[1]) /\ Abs(f[1] - U) <= 8)
  /\ Chk("a tangent is not finite", f[2] # NaNI /\ f[3] # NaNI)
  /\ Chk("a tangent has no length", f[2] # 0 /\ f[3] # 0)
  /\ Chk("the shading frame is degenerate", (f[2] = 1 /\ f[3] = 1) => (Finite(f[4]) /\ Finite(f[5]) /\ Finite(f[6]) /\ Abs(f[4]) <= 64 /\ f[5] >= 4000 /\ f[6] >= 16))
Same == Chk("the two queries of a shape disagree", Ev.yes = Ev.hit)
Decide(what, must, mustnot) ==
  /\ ChkX("a hit is missed", must => Ev.hit, what)
  /\ ChkX("a hit is reported where there is none", mustnot => ~Ev.hit, what)

(* a unit vector in direction w *)
Along(u, w) == AllFinite(u) /\ Small(GCross(w, u), 4 * Big(w)) /\ GDot(u, w) > 0
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Weighted(e, w, c) == e[1] * w[1][c] + e[2] * w[2][c] + e[3] * w[3][c]
(* the corners (or corner normals) that an index triple picks *)
Chosen(pool, ix) == <<pool[ix[1]], pool[ix[2]], pool[ix[3]]>>
Tri ==
  /\ Is("tri") /\ Step
  /\ LET v == TLCEval(Chosen(Ev.vs, Ev.ix[Ev.at])) o == Ev.o d == Ev.d m == Ev.m
         vn == TLCEval(IF Ev.at <= Len(Ev.nx) THEN Chosen(Ev.ns, Ev.nx[Ev.at]) ELSE <<>>)
         e == Edges(v, o, d)
         mx == Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3])))
         clean == mx \in {1, 2, 4} \/ \A i \in 1..3 : e[i] # 0     \* otherwise the slopes are rounded and the edge is not decided
         crosses == TriCrosses(v, o, d)
         beyond == m >= 0 /\ TriDen(v, d) # 0 /\ TriBeyond(v, o, d, m) > 0
         within == m < 0 \/ (TriDen(v, d) # 0 /\ TriBeyond(v, o, d, m) < 0)
         n == TriNormal(v)
     IN /\ Same
        /\ Chk("a mesh does not have its triangles", Ev.made = Len(Ev.ix))
        /\ Decide("triangle", clean /\ crosses /\ within, (clean /\ ~crosses) \/ beyond)
        /\ \A c \in 1..3 : Chk("the bounding box does not contain the triangle", \A i \in 1..3 : Ev.box[1][c] <= v[i][c] * One /\ v[i][c] * One <= Ev.box[2][c])
        /\ Ev.hit =>
             LET p == Ev.p t == Ev.t
                 S == <<Weighted(e, vn, 1), Weighted(e, vn, 2), Weighted(e, vn, 3)>>
                 es == SgnI(e[1] + e[2] + e[3]) * (IF Ev.rev THEN -1 ELSE 1)
                 ss == <<es * S[1], es * S[2], es * S[3]>>           \* the shading normal wanted, if any
             IN /\ Chk("the reported point or distance is not finite", AllFinite(p) /\ Finite(t))
                /\ (AllFinite(p) /\ Finite(t)) =>
                   /\ Chk("the point is not at the reported distance", \A c \in 1..3 : Abs(p[c] - (o[c] * One + t * d[c])) <= 2 + Abs(d[c]))
                   /\ Chk("the point is not on the triangle's plane", Abs(GDot(n, GSub(p, Cell(v[1])))) <= 2 * Big(n))
                   /\ Chk("the point is outside the bounding box", \A c \in 1..3 : Ev.box[1][c] - 2 <= p[c] /\ p[c] <= Ev.box[2][c] + 2)
                /\ Chk("the normal is not a finite unit vector", UnitLen(Ev.n))
                /\ UnitLen(Ev.n) => Chk("the normal is not perpendicular to the surface", Small(GCross(n, Ev.n), 3 * Big(n)))
                /\ Frame(Ev.frame)
                /\ Chk("the outgoing direction is not the ray's reversed", Ev.wo)
                /\ AllFinite(Ev.uv) /\ AllFinite(p) =>
                     Chk("the surface coordinates are not those of the point", \A c \in 1..3 :
                        Abs(4 * p[c] - (v[1][c] * U + Ev.uv[1] * (v[2][c] - v[1][c]) + Ev.uv[2] * (v[3][c] - v[2][c]))) <= 40)
                /\ UnitLen(Ev.n) /\ UnitLen(Ev.sn) =>
                   IF vn # <<>> /\ S = <<0, 0, 0>> THEN TRUE       \* the vertex normals cancel out: any frame
                   ELSE IF vn = <<>> THEN /\ Chk("the tangents do not follow the surface coordinates", Along(Ev.du, GSub(v[2], v[1])) /\ Along(Ev.dv, GSub(v[3], v[2])))
                        /\ Chk("the normal points to the wrong side", SgnI(GDot(n, Ev.n)) = (IF Ev.rev THEN -1 ELSE 1))
                        /\ Chk("the shading normal differs from the normal", Small(GSub(Ev.n, Ev.sn), 4))
                   ELSE /\ Chk("the shading normal is not the interpolated one", Small(GCross(ss, Ev.sn), 3 * Big(ss)) /\ GDot(ss, Ev.sn) > 0)
                        /\ Chk("the normal points to the wrong side", LET k == GDot(n, ss) IN k # 0 => SgnI(GDot(n, Ev.n)) = SgnI(k))

Sph ==
  /\ Is("sph") /\ Step
  /\ LET c == Ev.c r == Ev.r o == Ev.o d == Ev.d m == Ev.m
         a == SphA(d) b == SphB(c, o, d) cc == SphC(c, r, o) disc == SphDisc(c, r, o, d)
         w == SphWithin(a, b, cc, disc, m)
     IN /\ Same
        /\ Decide("sphere", w \in {"first", "second"}, w = "none")
        /\ \A k \in 1..3 : Chk("the bounding box does not contain the sphere", Ev.box[1][k] <= (c[k] - r) * One /\ (c[k] + r) * One <= Ev.box[2][k])
        /\ Ev.hit =>
             LET p == Ev.p t == Ev.t q == GSub(p, Cell(c)) IN
                /\ Chk("the reported point or distance is not finite", AllFinite(p) /\ Finite(t))
                /\ (AllFinite(p) /\ Finite(t)) =>
                   /\ Chk("the point is not at the reported distance", \A k \in 1..3 : Abs(p[k] - (o[k] * One + t * d[k])) <= 2 + Abs(d[k]))
                   /\ Chk("the point is not on the sphere", Small(q, (r + 1) * One) /\ Abs(GDot(q, q) - r * r * One * One) <= 6 * r * One)
                   /\ Chk("the hit is not the nearest one", LET s == GDot(q, d) IN IF w = "first" THEN s <= 2 * Big(d) ELSE IF w = "second" THEN s >= -2 * Big(d) ELSE TRUE)
                   /\ Chk("the surface coordinates are not those of the point", AllFinite(Ev.uv) /\ \A k \in 1..3 : Abs(Ev.polar[k] * r - 4 * q[k]) <= 8 + 8 * r)
                   /\ Chk("the surface coordinates are out of range", Ev.uv[1] >= 0 /\ Ev.uv[1] <= 25737 /\ Ev.uv[2] >= 0 /\ Ev.uv[2] <= 12869)
                   /\ (AllFinite(Ev.du) /\ AllFinite(Ev.dv) /\ Abs(q[1]) + Abs(q[2]) >= 16) =>
                         Chk("the tangents do not follow the surface coordinates", Abs(Ev.du[3]) <= 4 /\ q[1] * Ev.du[2] - q[2] * Ev.du[1] > 0
                              /\ Ev.dv[3] < 0)
                   /\ Chk("the point is outside the bounding box", \A k \in 1..3 : Ev.box[1][k] - 2 <= p[k] /\ p[k] <= Ev.box[2][k] + 2)
                   /\ Chk("the normal is not the outward one", AllFinite(Ev.n) /\ \A k \in 1..3 : Abs(Ev.n[k] * r - 4 * q[k]) <= 8 + 4 * r)
                /\ Chk("the normal is not a finite unit vector", UnitLen(Ev.n))
                /\ Frame(Ev.frame)
                /\ Chk("the outgoing direction is not the ray's reversed", Ev.wo)
                /\ UnitLen(Ev.n) /\ UnitLen(Ev.sn) => Chk("the shading normal differs from the normal", Small(GSub(Ev.n, Ev.sn), 4))

(* b: barycentric coordinates, ahead: distance, room: limit minus distance; dt, dp, ... : deviations in sixteenths of their rounding *)
M == 4
FTri ==
  /\ Is("ftri") /\ Step
  /\ Same
  /\ LET inside == \A i \in 1..3 : Ev.b[i] >= M
         outside == \E i \in 1..3 : Ev.b[i] <= -M
     IN Decide("triangle", inside /\ Ev.ahead >= M /\ Ev.room >= M, outside \/ Ev.ahead <= -M \/ Ev.room <= -M)
  /\ Ev.hit => /\ Chk("the distance is wrong", Ev.dt <= 64)
               /\ Chk("the point is not where the ray meets the plane", Ev.dp <= 64)
               /\ Chk("the point is not on the triangle's plane", Ev.plane <= 16 * 64)
               /\ Chk("the point is not in the triangle", Ev.inside <= 64)
               /\ Chk("the point is outside the bounding box", Ev.boxed <= 16 * 16)
               /\ Chk("the normal is wrong", Ev.dn <= 200)
               /\ Frame(Ev.frame)
FSph ==
  /\ Is("fsph") /\ Step
  /\ Same
  /\ LET deep == Ev.depth >= M
         in(i) == deep /\ Ev.ahead[i] >= M /\ Ev.room[i] >= M
         out(i) == Ev.depth <= -M \/ Ev.ahead[i] <= -M \/ Ev.room[i] <= -M
         which == IF Ev.hit THEN (IF Ev.dt[1] <= Ev.dt[2] THEN 1 ELSE 2) ELSE 0
     IN /\ Decide("sphere", in(1) \/ in(2), out(1) /\ out(2))
        /\ Ev.hit => /\ Chk("the distance is wrong", Ev.dt[which] <= 64)
                     /\ Chk("the hit is not the nearest one", in(1) => Ev.dt[1] <= 64)
                     /\ Chk("the point is not at the reported distance", Ev.dp <= 64)
                     /\ Chk("the point is not on the sphere", Ev.on <= 16 * 64)
                     /\ Chk("the point is outside the bounding box", Ev.boxed <= 16 * 16)
                     /\ Chk("the normal is wrong", Ev.dn <= 16 * 64)
                     /\ Chk("the surface coordinates are not those of the point", Ev.uv <= 64)
                     /\ Chk("the tangents do not follow the surface coordinates", \A i \in 1..2 : Ev.turn[i] <= 100)
                     /\ Frame(Ev.frame)
Seal ==
  /\ Is("seal") /\ Step
  /\ Chk("a ray slips between the triangles of a closed mesh", Ev.hits >= 1)
  /\ Chk("a ray slips between the triangles of a closed mesh (yes/no query)", Ev.yes >= 1)
Flat ==
  /\ Is("flat") /\ Step
  /\ Same
  /\ Ev.hit => /\ Chk("a hit of a degenerate triangle has no normal", Finite(Ev.n) /\ Abs(Ev.n - U) <= 8)
               /\ Chk("a tangent is not finite", Ev.frame[2] # NaNI /\ Ev.frame[3] # NaNI)
Unit == Is("unit") /\ Step
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what)
TraceNext == Tri \/ Sph \/ FTri \/ FSph \/ Seal \/ Flat \/ Unit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
