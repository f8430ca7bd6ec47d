------------------------------ MODULE TraceLamp ------------------------------
(* Real lights.  A triangle light's density for a direction d (an integer     *)
(* vector that ends on the triangle's plane) is |d|^2 / (cos A) with the area *)
(* A = |N|/2, that is 2 |d|^3 / |N.d|.                                        *)
EXTENDS TraceBase, Geometry

tvars == <<l>>
TraceInit == l = 1

RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
MulDiv(x, p, r) == (x \div r) * p + ((x % r) * p) \div r
(* in 2^-15 *)
Wanted(v, d) == LET d2 == TLCEval(GDot(d, d)) IN MulDiv(2 * d2 * 64, TLCEval(Root(d2 * 262144, 0, 46340)), TLCEval(Abs(GDot(TriNormal(v), d))))
Strict(e) == (\A i \in 1..3 : e[i] > 0) \/ (\A i \in 1..3 : e[i] < 0)
Outside(e) == (\E i \in 1..3 : e[i] > 0) /\ (\E i \in 1..3 : e[i] < 0)
Dens ==
  /\ Is("dens") /\ Step
  /\ \E v \in {Ev.v}, o \in {Ev.o}, d \in {Ev.d}, pdf \in {Ev.pdf} :
       LET e == Edges(v, o, d) den == TriDen(v, d) num == TriNum(v, o)
       IN IF den = 0 \/ Outside(e) \/ ~Positive(num, den)
          THEN Chk("a density where the direction misses the light", pdf = 0)
          ELSE (Strict(e) /\ num = den) => LET x == TLCEval(Wanted(v, d)) IN ChkX("the density is not the one per solid angle", Abs(pdf - x) <= 3 + x \div 128, x)
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Lit ==
  /\ Is("lit") /\ Step
  /\ LET n == TriNormal(Ev.v)
         side == (IF Ev.vn = <<>> THEN 1 ELSE SgnI(GDot(n, Ev.vn[1]))) * (IF Ev.rev THEN -1 ELSE 1)
         faces == SgnI(GDot(n, GSub(Ev.o, Ev.v[1]))) = side
         want == IF faces THEN <<4 * Ev.c[1], 4 * Ev.c[2], 4 * Ev.c[3]>> ELSE <<0, 0, 0>>
     IN /\ Chk("the direction to a light is not a unit vector", Abs(Ev.len - 65536) <= 2)
        /\ Chk("a light sample is not on the light", Ev.in >= -20 /\ Ev.ahead >= 0)
        /\ ChkX("a light sample's radiance (the light's, or nothing behind it)", Ev.l = want, want)
        /\ Chk("a light sample's density is not the density of its direction", Ev.same <= 64)
        /\ (Ev.in >= 100) => Chk("a light sample has no density", Ev.pdf > 0)
        /\ Ev.hit => ChkX("a light that is hit does not show what its samples show", Ev.s = want, want)
Spread ==
  /\ Is("spread") /\ Step
  /\ Chk("light samples are off the light", Ev.off = 0)
  /\ Chk("light samples are not spread evenly", \A i \in 1..64 : Abs(Ev.count[i] - Ev.n \div 64) <= Ev.n \div 512)
(* shares of 2^20 samples: 4^-k next to a corner, 2 2^-k - 4^-k next to an edge *)
RECURSIVE Halved(_, _)
Halved(x, k) == IF k = 0 THEN x ELSE Halved(x \div 2, k - 1)
Corners ==
  /\ Is("corners") /\ Step
  /\ LET n == 1048576
         far(x, y) == Abs(x - y) > 80 + y \div 20
     IN /\ ChkX("light samples are not spread evenly next to a corner", \A c \in 1..3, k \in 1..8 : ~far(Ev.corner[c][k], Halved(n, 2 * k)), Ev.corner)
        /\ ChkX("light samples are not spread evenly next to an edge", \A c \in 1..3, k \in 1..8 : ~far(Ev.edge[c][k], Halved(n, k - 1) - Halved(n, 2 * k)), Ev.edge)
(* ways: least barycentric coordinate (1e-6), distance and room up to the light (1e-4) of everything in the scene *)
Shade ==
  /\ Is("shade") /\ Step
  /\ LET in(x) == x[1] >= Ev.blur /\ x[2] >= 30 /\ x[3] >= 30
         out(x) == x[1] <= -Ev.blur \/ x[2] <= -30 \/ x[3] <= -30
     IN /\ (\E i \in 1..Len(Ev.ways) : in(Ev.ways[i])) => Chk("something in the way does not block the light", ~Ev.clear)
        /\ (\A i \in 1..Len(Ev.ways) : out(Ev.ways[i])) => Chk("nothing is in the way of the light, but it is blocked", Ev.clear)
  /\ Chk("a light is not in the scene once", Ev.n = IF Ev.distant THEN 2 ELSE 1)
  /\ Ev.distant => /\ Chk("a distant light is not in its direction", Ev.turn <= 4)
                   /\ Chk("a distant light's radiance", Ev.l = <<4, 8, 12>>)
                   /\ Chk("a distant light's density", Ev.pdf = 32768 /\ Ev.other = 0 /\ Ev.again = 0)
Unit == Is("unit") /\ Step
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what)
TraceNext == Dens \/ Lit \/ Spread \/ Corners \/ Shade \/ Unit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
