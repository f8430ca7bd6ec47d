----------------------------- MODULE TraceTexture -----------------------------
(* Recorded textures.  A mapping is a matrix of three rows over 4 q and a      *)
(* column of offsets in quarters; points of the surface come in eighths.  The  *)
(* recorded walk jumps from point to point; the value shown is carried along   *)
(* by counting faces, from the origin of the texture, where the first shows.   *)
EXTENDS TraceBase, TextureCore

VARIABLES map, m, shown
tvars == <<l, map, m, shown>>
TraceInit == l = 1 /\ map = <<>> /\ m = <<0, 0, 0>> /\ shown = 1

TextureEv == Is("texture") /\ Step /\ map' = Ev /\ m' = <<0, 0, 0>> /\ shown' = 1
(* in units of 1 / (32 q) *)
Mapped(p) == [k \in 1..3 |-> IF k > map.dim THEN 0 ELSE ((map.m[k][1] * p[1] + map.m[k][2] * p[2]) + map.m[k][3] * p[3]) + 8 * map.q * map.o[k]]
Clear(x) == map.q = 1 \/ (x % (32 * map.q) >= map.q /\ x % (32 * map.q) <= 31 * map.q)
At == /\ Is("at") /\ Step /\ UNCHANGED map
      /\ \E to \in {Mapped(Ev.p)} :
           /\ m' = to
           /\ shown' = IF ((Faces(m[1], to[1], 32 * map.q) + Faces(m[2], to[2], 32 * map.q)) + Faces(m[3], to[3], 32 * map.q)) % 2 = 1 THEN 3 - shown ELSE shown
           /\ (\A k \in 1..3 : Clear(to[k])) =>
                /\ ChkX("not one of the two values", Ev.val \in {1, 2}, Ev)
                /\ ChkX("neighbouring cells do not alternate from the origin", Ev.val \notin {1, 2} \/ Ev.val = shown', <<Ev.p, to, Ev.val>>)
                /\ ChkX("a material does not take the value of its texture", Ev.mat \in {0, shown'}, <<Ev.p, Ev.mat, Ev.by>>)
(* a coordinate of the texture is c[1] times 2 to the c[2]: of any magnitude *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Cell(c) == IF c[2] > 0 THEN 0 ELSE IF c[2] < -28 THEN (IF c[1] < 0 THEN 1 ELSE 0) ELSE (c[1] \div Pow2(-c[2])) % 2
RECURSIVE Cells(_, _)
Cells(c, k) == IF k = 0 THEN 0 ELSE Cell(c[k]) + Cells(c, k - 1)
Far == Is("far") /\ Step /\ UNCHANGED <<map, m, shown>>
       /\ ChkX("neighbouring cells do not alternate from the origin", Ev.val = 1 + (Cells(Ev.c, Len(Ev.c)) % 2), Ev)
Constant == Is("constant") /\ Step /\ UNCHANGED <<map, m, shown>> /\ ChkX("a constant texture is not constant", Ev.same, Ev)
Panic == Is("panic") /\ Step /\ UNCHANGED <<map, m, shown>> /\ ChkX("panic", FALSE, Ev.what)
TraceNext == TextureEv \/ At \/ Far \/ Constant \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
