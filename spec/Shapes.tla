------------------------------- MODULE Shapes --------------------------------
(* The decision procedures of the shapes, step by step as the code takes      *)
(* them but in exact arithmetic, against what "the ray meets the surface"     *)
(* means.  Every state is one triangle, fan of triangles or sphere and a ray. *)
EXTENDS Geometry, FiniteSets, TLC

CONSTANTS Kind, Variant, Part

VARIABLES v, o, d, m
vars == <<v, o, d, m>>

Grid == IF Kind = "seal" THEN {<<x, y, 0>> : x, y \in -2..2} ELSE {<<x, y, z>> : x, y \in 0..2, z \in 0..1}
Dirs == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<-1, 0, 2>>, <<1, -2, 1>>, <<1, 1, 1>>, <<0, 2, -1>>}
Init ==
  CASE Kind = "tri"    -> /\ v \in {<<a, b, c>> : a, b, c \in Grid} /\ o \in {<<-1, 0, 1>>, <<1, 1, -1>>, <<1, 3, 2>>, <<0, 1, 0>>} /\ d \in Dirs /\ m \in {-1, 2, 3}
                          /\ (v[1][1] + v[2][2] + v[3][1] + o[1] + d[2] + m) % 8 \in Part
    [] Kind = "seal"   -> \* a quadrilateral cut along its diagonal, seen along z
                          /\ v \in {<<a, b, c, e>> : a \in {p \in Grid : p[1] < 0}, b, c, e \in Grid} /\ o = <<0, 0, -1>> /\ d = <<0, 0, 1>> /\ m = -1
                          /\ (v[1][1] + 2 * v[2][2] + v[3][1]) % 8 \in Part
    [] Kind = "sphere" -> /\ v \in {<<c, r>> : c \in {<<0, 0, 0>>, <<1, 0, 0>>}, r \in 1..3} /\ o \in {<<x, y, z>> : x \in -4..4, y \in -3..3, z \in 0..2}
                          /\ d \in Dirs /\ m \in {-1, 1, 2, 4, 8}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- the code's way for triangles: permute, shear, edge functions ---- *)
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxAxis == IF AbsI(d[1]) >= AbsI(d[2]) /\ AbsI(d[1]) >= AbsI(d[3]) THEN 1 ELSE IF AbsI(d[2]) >= AbsI(d[3]) THEN 2 ELSE 3
Perm == CASE MaxAxis = 1 -> <<3, 2, 1>> [] MaxAxis = 2 -> <<1, 3, 2>> [] OTHER -> <<2, 1, 3>>
(* sheared coordinates times d.z *)
Flat(p) == LET q == GSub(p, o) z == Perm[3] k == d[z] IN <<q[Perm[1]] * k - q[z] * d[Perm[1]], q[Perm[2]] * k - q[z] * d[Perm[2]], q[z]>>
CodeTri(w) ==
  LET a == Flat(w[1]) b == Flat(w[2]) c == Flat(w[3])
      e0 == b[1] * c[2] - b[2] * c[1]
      e1 == c[1] * a[2] - c[2] * a[1]
      e2 == a[1] * b[2] - a[2] * b[1]
      mixed == IF Variant = "strict" THEN (e0 <= 0 \/ e1 <= 0 \/ e2 <= 0) /\ (e0 >= 0 \/ e1 >= 0 \/ e2 >= 0)
               ELSE IF Variant = "twoedges" THEN (e0 < 0 \/ e1 < 0) /\ (e0 > 0 \/ e1 > 0)
               ELSE (e0 < 0 \/ e1 < 0 \/ e2 < 0) /\ (e0 > 0 \/ e1 > 0 \/ e2 > 0)
      det == e0 + e1 + e2
      k == d[Perm[3]]
      ts == (a[3] * e0 + b[3] * e1 + c[3] * e2)                   \* t = ts / (det k)
      kd == IF Variant = "unsigned" THEN AbsI(det * k) ELSE det * k
      tpos == IF kd > 0 THEN ts > 0 ELSE ts < 0
      inm == m < 0 \/ (IF kd > 0 THEN 2 * ts <= m * kd ELSE 2 * ts >= m * kd)
  IN ~mixed /\ det # 0 /\ tpos /\ inm

(* ---- what it means: the point on the ray in the triangle's plane is a mixture of its corners ---- *)
InPlaneInside(w) ==
  LET n == TriNormal(w) k == GDot(n, d) num == TriNum(w, o) s == IF k > 0 THEN 1 ELSE -1
      P == <<o[1] * k + num * d[1], o[2] * k + num * d[2], o[3] * k + num * d[3]>>      \* times k
      side(i, j) == s * GDot(n, GCross(GSub(w[j], w[i]), <<P[1] - k * w[i][1], P[2] - k * w[i][2], P[3] - k * w[i][3]>>))
  IN k # 0 /\ side(1, 2) >= 0 /\ side(2, 3) >= 0 /\ side(3, 1) >= 0
MeetsTri(w) == InPlaneInside(w) /\ Positive(TriNum(w, o), TriDen(w, d)) /\ (m < 0 \/ TriBeyond(w, o, d, m) <= 0)
TriangleRight == Kind = "tri" => (CodeTri(v) = MeetsTri(v) /\ CodeTri(v) = (TriCrosses(v, o, d) /\ (m < 0 \/ TriBeyond(v, o, d, m) <= 0)))

(* ---- no gap along the shared edge ---- *)
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Convex == Turn(v[1], v[2], v[3]) > 0 /\ Turn(v[2], v[3], v[4]) > 0 /\ Turn(v[3], v[4], v[1]) > 0 /\ Turn(v[4], v[1], v[2]) > 0
ZeroIn == \A i \in 1..4 : Turn(v[i], v[(i % 4) + 1], <<0, 0, 0>>) > 0
Sealed == Kind = "seal" /\ Convex /\ ZeroIn => CodeTri(<<v[1], v[2], v[3]>>) \/ CodeTri(<<v[1], v[3], v[4]>>)

(* ---- spheres: the code's root choice against the sign of the quadratic ---- *)
F4(a, b, c, x) == a * x * x + 4 * b * x + 4 * c          \* 4 f(x / 2)
SphereRight ==
  Kind = "sphere" =>
    LET a == SphA(d) b == SphB(v[1], o, d) c == SphC(v[1], v[2], o) disc == SphDisc(v[1], v[2], o, d)
        w == SphWithin(a, b, c, disc, m)
        code == IF Variant = "nearonly" THEN (IF w = "second" THEN "none" ELSE w) ELSE IF Variant = "farfirst" THEN (IF w = "first" /\ SphWithin(a, b, -1, disc, m) = "second" THEN "second" ELSE w) ELSE w
        touch == m >= 0 /\ F4(a, b, c, m) = 0
        vertexin == b < 0 /\ (m < 0 \/ -2 * b < m * a)
        first == c > 0 /\ disc >= 0 /\ ((m >= 0 /\ F4(a, b, c, m) < 0) \/ vertexin)
        second == c < 0 /\ (m < 0 \/ F4(a, b, c, m) > 0)
        tangentin == c = 0 /\ b < 0 /\ (m < 0 \/ F4(a, b, c, m) > 0)
    IN touch \/ (code = IF first THEN "first" ELSE IF second \/ tangentin THEN "second" ELSE "none")
=============================================================================
