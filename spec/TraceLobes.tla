----------------------------- MODULE TraceLobes ------------------------------
(* Scripted lobes inside the real composition.  m: rows s, t, n of a rotation *)
(* over q; g: geometric normal; directions are integer vectors with their     *)
(* length in 1/1024; recorded directions are in 1/4096.                         *)
EXTENDS TraceBase, Geometry

VARIABLES s
tvars == <<l, s>>
TraceInit == l = 1 /\ s = [q |-> 0]

Bit(x, b) == (x \div b) % 2 = 1
Lobes == s.lobes
N == Len(Lobes)
Reflects(x) == Bit(x[1], 1)
Transmits(x) == Bit(x[1], 2)
Specular(x) == Bit(x[1], 16)
Close(a, scale, b, tol) == Abs(a * scale - b) <= tol * scale
(* local coordinates of direction w, compared with recorded v *)
Local(v, w) == \A i \in 1..3 : Close(v[i], s.q * w[4], 4096 * 1024 * GDot(s.m[i], w), 4)
(* world coordinates of local direction w *)
World(v, w) == \A i \in 1..3 : Close(v[i], s.q * w[4], 4096 * 1024 * (s.m[1][i] * w[1] + s.m[2][i] * w[2] + s.m[3][i] * w[3]), 4)
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Same(x, y) == SgnI(x) * SgnI(y) > 0
RECURSIVE Add(_, _, _)
Add(same, c, i) == IF i > N THEN 0
                   ELSE (IF ~Specular(Lobes[i]) /\ (IF same THEN Reflects(Lobes[i]) ELSE Transmits(Lobes[i])) THEN Lobes[i][c + 1] ELSE 0) + Add(same, c, i + 1)
F(same) == <<16 * Add(same, 1, 1), 16 * Add(same, 2, 1), 16 * Add(same, 3, 1)>>
RECURSIVE Densities(_)
Densities(i) == IF i > N THEN 0 ELSE (IF Specular(Lobes[i]) THEN 0 ELSE Lobes[i][5]) + Densities(i + 1)
Tangent(w) == GDot(s.m[3], w) = 0

Surface == Is("surface") /\ Step /\ s' = Ev
Asked(wo) == Chk("a lobe is asked for a direction that is not the outgoing one in its frame", \A i \in 1..Len(Ev.asked) : Local(SubSeq(Ev.asked[i], 1, 3), wo))
Pair ==
  /\ Is("pair") /\ Step /\ UNCHANGED s
  /\ LET same == Same(GDot(s.g, Ev.wo), GDot(s.g, Ev.wi))
         none == N = 0 \/ Tangent(Ev.wo)
         f == IF none THEN <<0, 0, 0>> ELSE F(same)
         d == IF none THEN 0 ELSE Densities(1)
     IN /\ ChkX("value is not the sum of the lobes for this side", Ev.f = f, f)
        /\ ChkX("density is not the mean of the lobes' densities", Abs(Ev.pdf * N - 4096 * d) <= 2 * N, d)
  /\ Asked(Ev.wo)
  /\ Chk("a lobe is asked for a direction that is not the incoming one in its frame", \A i \in 1..Len(Ev.asked) : Local(SubSeq(Ev.asked[i], 4, 6), Ev.wi))
Sample ==
  /\ Is("sample") /\ Step /\ UNCHANGED s
  /\ Asked(Ev.wo)
  /\ Chk("more than one lobe is sampled", Len(Ev.sampled) <= 1)
  /\ IF N = 0 \/ Tangent(Ev.wo) THEN Chk("a direction is sampled where nothing scatters", Ev.pdf = 0)
     ELSE /\ Chk("no lobe is sampled", Len(Ev.sampled) >= 1)
          /\ (Len(Ev.sampled) = 1) =>
             LET c == Ev.sampled[1]
                 x == Lobes[c[1]]
                 wi == SubSeq(x, 6, 9)
                 wiw == [k \in 1..3 |-> s.m[1][k] * wi[1] + s.m[2][k] * wi[2] + s.m[3][k] * wi[3]]
                 side == GDot(s.g, wiw)
             IN /\ Chk("a lobe gets numbers outside 0..1", c[7] = 1)
                /\ Chk("a lobe is sampled for a direction that is not the outgoing one in its frame", Local(SubSeq(c, 4, 6), Ev.wo))
                /\ IF x[10] = 1 THEN Chk("a direction although the lobe gave none", Ev.pdf = 0)
                   ELSE /\ Chk("the sampled direction is not the lobe's in world space", World(Ev.wi, wi))
                        /\ Chk("the flag is not the sampled lobe's", Ev.flag = x[1])
                        /\ IF Specular(x) THEN /\ Chk("value of a specular lobe", Ev.f = <<16 * x[2], 16 * x[3], 16 * x[4]>>)
                                               /\ Chk("density of a specular lobe", Abs(Ev.pdf * N - 4096) <= 2 * N)
                           ELSE /\ (side # 0) => LET f == F(Same(side, GDot(s.g, Ev.wo))) IN ChkX("value of a sample is not the composition's", Ev.f = f, f)
                                /\ ChkX("density of a sample is not the composition's", Abs(Ev.pdf * N - 4096 * Densities(1)) <= 2 * N, Densities(1))
Shares ==
  /\ Is("shares") /\ Step /\ UNCHANGED s
  /\ Chk("a lobe gets numbers outside 0..1", Ev.off = 0)
  /\ Chk("the lobes do not get even shares of the numbers", \A i \in 1..N : Sum(Ev.count[i]) = 16 * Ev.each)
  /\ Chk("the numbers a lobe gets are not evenly spread", \A i \in 1..N : \A k \in 1..16 : Abs(Ev.count[i][k] - Ev.each) <= 2)
Unit == Is("unit") /\ Step /\ UNCHANGED s
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED s
TraceNext == Surface \/ Pair \/ Sample \/ Shares \/ Unit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
