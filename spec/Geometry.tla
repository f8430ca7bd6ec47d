------------------------------ MODULE Geometry -------------------------------
(* Exact geometry on integer points: which rays meet which triangles and     *)
(* spheres.  Used by the design specification and to judge the real shapes.  *)
EXTENDS Integers, Sequences

GSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
GDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
GCross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
GDet(a, b, c) == GDot(a, GCross(b, c))

(* ---- triangles: v = <<v0, v1, v2>>, ray o + t d ---- *)
TriNormal(v) == GCross(GSub(v[2], v[1]), GSub(v[3], v[1]))
(* signed volumes spanned by the ray and each edge *)
Edges(v, o, d) == LET a == GSub(v[1], o) b == GSub(v[2], o) c == GSub(v[3], o)
                  IN <<GDet(d, b, c), GDet(d, c, a), GDet(d, a, b)>>
OnOneSide(e) == (e[1] >= 0 /\ e[2] >= 0 /\ e[3] >= 0) \/ (e[1] <= 0 /\ e[2] <= 0 /\ e[3] <= 0)
(* t = TriNum / TriDen *)
TriDen(v, d) == GDot(TriNormal(v), d)
TriNum(v, o) == GDot(TriNormal(v), GSub(v[1], o))
Positive(n, d) == (n > 0 /\ d > 0) \/ (n < 0 /\ d < 0)
TriCrosses(v, o, d) == TriDen(v, d) # 0 /\ OnOneSide(Edges(v, o, d)) /\ Positive(TriNum(v, o), TriDen(v, d))
(* the sign of t - m/2 *)
TriBeyond(v, o, d, m) == LET n == 2 * TriNum(v, o) k == TriDen(v, d) IN IF k > 0 THEN n - m * k ELSE m * k - n

(* ---- spheres: a t^2 + 2 b t + c = 0 ---- *)
SphA(d) == GDot(d, d)
SphB(cen, o, d) == GDot(d, GSub(o, cen))
SphC(cen, r, o) == GDot(GSub(o, cen), GSub(o, cen)) - r * r
SphDisc(cen, r, o, d) == LET b == SphB(cen, o, d) IN b * b - SphA(d) * SphC(cen, r, o)
(* the first root is ahead; the second root is ahead *)
Root0Ahead(b, c, disc) == disc >= 0 /\ b < 0 /\ c > 0
Root1Ahead(b, c, disc) == disc >= 0 /\ (b < 0 \/ c < 0)
(* the sign of x + sqrt(disc) *)
RootCmp(x, disc) == IF x >= 0 THEN (IF x = 0 /\ disc = 0 THEN 0 ELSE 1) ELSE IF disc > x * x THEN 1 ELSE IF disc = x * x THEN 0 ELSE -1
(* signs of root - m/2 *)
Root0Cmp(a, b, disc, m) == -RootCmp(2 * b + m * a, 4 * disc)
Root1Cmp(a, b, disc, m) == RootCmp(-2 * b - m * a, 4 * disc)
(* which root is hit within 0..m/2 (m < 0: no limit); "edge": a root at the limit itself *)
SphWithin(a, b, c, disc, m) ==
  LET try(ahead, cmp) == IF ~ahead THEN "none" ELSE IF m < 0 THEN "hit" ELSE IF cmp < 0 THEN "hit" ELSE IF cmp = 0 THEN "edge" ELSE "none"
      r0 == try(Root0Ahead(b, c, disc), Root0Cmp(a, b, disc, m))
      r1 == try(Root1Ahead(b, c, disc), Root1Cmp(a, b, disc, m))
  IN IF r0 = "hit" THEN "first" ELSE IF r0 = "edge" THEN "edge" ELSE IF r1 = "hit" THEN "second" ELSE r1
=============================================================================
