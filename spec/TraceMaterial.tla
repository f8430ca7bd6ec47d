---------------------------- MODULE TraceMaterial ----------------------------
(* Real materials: how often a direction cell is sampled (share) against the  *)
(* integral of the reported density over it (mass), both in 2^-20; energy in  *)
(* 2^-12; ratios in 2^-16.                                                    *)
EXTENDS TraceBase

tvars == <<l>>
TraceInit == l = 1

One == 1048576
(* radiance transmitted from index no to index ni is scaled by (no/ni)^2; this undoes it *)
Unscaled(e, above, eta) == IF above THEN (e * (eta * eta)) \div 4096 ELSE (((e * 64) \div eta) * 64) \div eta
Ledger ==
  /\ Is("ledger") /\ Step
  /\ Chk("a sample is negative, infinite or not a number", Ev.odd = 0)
  /\ LET bad == {c \in 1..Len(Ev.share) : Abs(Ev.share[c] - Ev.mass[c]) > One \div 400 + Max2(Ev.share[c], Ev.mass[c]) \div 25}
         c == CHOOSE c \in bad : TRUE
     IN ChkX("directions are not sampled with the reported density", bad = {}, IF bad = {} THEN <<>> ELSE <<c, Ev.share[c], Ev.mass[c]>>)
  /\ ChkX("the reported density is not the share of directions sampled at all", Abs(Sum(Ev.mass) - (One - Ev.none - Ev.spec)) < One \div 100, Sum(Ev.mass))
  /\ LET e == [k \in 1..3 |-> Ev.refl[k] + Unscaled(Ev.trans[k], Ev.above, Ev.eta[k])]
     IN ChkX("more light leaves than arrives", \A k \in 1..3 : e[k] <= 4096 + 50, e)
  /\ (Ev.kind = "lambert") => Chk("a diffuse surface does not reflect its reflectance", \A k \in 1..3 : Abs(Ev.refl[k] - 64 * Ev.a[k]) <= 30)
  /\ (Ev.kind # "glass") => Chk("an opaque surface transmits", Ev.trans = <<0, 0, 0>>)
Same ==
  /\ Is("same") /\ Step
  /\ ChkX("a sample's density is not the density of its direction", Abs(Ev.pdf - 65536) <= 400, Ev.what)
  /\ ChkX("a sample's value is not the value of its direction", \A k \in 1..3 : Abs(Ev.f[k] - 65536) <= 400, Ev.what)
Close(x, y) == Abs(x - y) <= 3 + Max2(Abs(x), Abs(y)) \div 150
Pair ==
  /\ Is("pair") /\ Step
  /\ Chk("a value is negative or not a number", \A k \in 1..3 : Ev.f[k] >= 0 /\ Ev.f[k] # NaNI /\ Ev.g[k] >= 0 /\ Ev.g[k] # NaNI)
  /\ Chk("a density is negative or not a number", Ev.pdf >= 0 /\ Ev.pdf # NaNI)
  /\ ~Ev.wild => Chk("a value or density is infinite", Ev.pdf # InfI /\ \A k \in 1..3 : Ev.f[k] # InfI)
  /\ (~Ev.wild /\ Ev.same) => Chk("reflection is not symmetric", \A k \in 1..3 : Close(Ev.f[k], Ev.g[k]))
  /\ (~Ev.wild /\ ~Ev.same /\ Ev.kind = "glass" /\ \A k \in 1..3 : Ev.f[k] < 20000000 /\ Ev.g[k] < 20000000) =>
       LET e == Ev.eta[1]
           up(x) == (((x * e) \div 64) * e) \div 64
       IN Chk("transmission is not symmetric up to the squared index", \A k \in 1..3 : IF Ev.above THEN Abs(up(Ev.f[k]) - Ev.g[k]) <= 16 + Ev.g[k] \div 100 ELSE Abs(Ev.f[k] - up(Ev.g[k])) <= 16 + Ev.f[k] \div 100)
  /\ (~Ev.same /\ Ev.kind # "glass") => Chk("an opaque surface transmits", Ev.f = <<0, 0, 0>>)
  /\ (Ev.same /\ Ev.kind = "lambert") => Chk("a diffuse surface does not scatter evenly", \A k \in 1..3 : Abs(Ev.f[k] - (Ev.a[k] * 1024 * 113) \div 355) <= 2)
(* Normals of the microfacets, by their slopes (x, y) in units of the roughness: with s = x^2 + y^2 the level  *)
(* s / (1 + s) and the turn of (x, y) are both uniform (GGX); nine levels times eight turns.                  *)
Levels == <<0, 20, 50, 100, 200, 350, 500, 650, 800, 900>>
Lobes == CASE Ev.kind = "glass" -> (IF Ev.a = <<0, 0, 0>> THEN 0 ELSE 1) + (IF Ev.b = <<0, 0, 0>> THEN 0 ELSE 1)
           [] OTHER -> 1
Has == CASE Ev.what = "reflected" -> IF Ev.kind = "plastic" THEN Ev.b # <<0, 0, 0>> ELSE Ev.a # <<0, 0, 0>>
         [] OTHER -> Ev.kind = "glass" /\ Ev.b # <<0, 0, 0>>
(* slope up to which every facet sends light to the right side, in 1/1000 *)
Reach == CASE Ev.kind = "glass" -> IF Ev.tilted THEN 200 ELSE 350
           [] OTHER -> IF Ev.tilted THEN 500 ELSE 900
Inside(rough, num, den) == LET r2 == TLCEval((rough * rough) \div 100) IN r2 * num <= ((Reach * Reach) \div 100) * den
Facets ==
  /\ Is("facets") /\ Step
  /\ LET want(c) == LET k == (c - 1) \div 8 + 1 IN IF Has THEN (((Levels[k + 1] - Levels[k]) * 131) \div Lobes) ELSE 0
         cells == {c \in 1..72 : LET h == Levels[(c - 1) \div 8 + 2] IN Inside(Max2(Ev.ru, Ev.rv), h, 1000 - h)}
         rings == Ev.ru < 5 \/ Ev.rv < 5
         tol(w) == w \div 25 + 200
         bad == {c \in cells : Abs(Ev.mass[c] - want(c)) > tol(want(c))}
         odd == {c \in cells : ~rings /\ Abs(Ev.share[c] - want(c)) > tol(want(c)) + 131072 \div 360}
     IN /\ ChkX("the density of the facets is not that of the roughness", bad = {}, {<<c, want(c), Ev.mass[c]>> : c \in bad})
        /\ ChkX("facets are not sampled by the roughness", odd = {}, {<<c, want(c), Ev.share[c]>> : c \in odd})
(* diffuse surfaces: shares in 2^-22 of ever smaller shells at the rim and around the normal *)
Shells ==
  /\ Is("shells") /\ Step
  /\ Chk("a sampled direction is not a unit vector", Ev.odd = 0)
  /\ LET far(x, y) == Abs(x - y) > 150 + Max2(x, y) \div 25
     IN /\ ChkX("directions next to the surface are not sampled with the reported density", \A k \in 1..Len(Ev.rim) : ~far(Ev.rim[k], Ev.massrim[k]), <<Ev.rim, Ev.massrim>>)
        /\ ChkX("directions around the normal are not sampled with the reported density", \A k \in 1..Len(Ev.top) : ~far(Ev.top[k], Ev.masstop[k]), <<Ev.top, Ev.masstop>>)
(* rough along one axis only: with the slope x there, x / sqrt(1 + x^2) is uniform *)
Oneway ==
  /\ Is("oneway") /\ Step
  /\ LET want == IF Has THEN 65536 \div Lobes ELSE 0
         cells == {c \in 1..16 : LET j == IF c > 8 THEN c - 8 ELSE 9 - c IN j < 8 /\ Inside(Max2(Ev.ru, Ev.rv), j * j, 64 - j * j)}
         odd == {c \in cells : Abs(Ev.share[c] - want) > want \div 15 + 200}
     IN ChkX("facets are not sampled by the roughness along one axis", odd = {}, {<<c, want, Ev.share[c]>> : c \in odd})
(* light leaving close to the surface *)
Edge ==
  /\ Is("edge") /\ Step
  /\ Chk("a sample is negative, infinite or not a number", Ev.odd = 0)
  /\ LET e == [k \in 1..3 |-> Ev.refl[k] + Unscaled(Ev.trans[k], Ev.above, Ev.eta[k])]
     IN ChkX("more light leaves than arrives", \A k \in 1..3 : e[k] <= 4096 + 300, e)
  /\ (Ev.kind = "lambert") => Chk("a diffuse surface does not reflect its reflectance", \A k \in 1..3 : Abs(Ev.refl[k] - 64 * Ev.a[k]) <= 30)
Unit == Is("unit") /\ Step
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what)
TraceNext == Ledger \/ Same \/ Pair \/ Facets \/ Shells \/ Oneway \/ Edge \/ Unit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
