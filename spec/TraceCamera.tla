----------------------------- MODULE TraceCamera ------------------------------
(* Recorded cameras: the frame of a camera is given by the integer rows of a  *)
(* rotation over q (to the right, upwards, to the target), the tangent of     *)
(* half its field of view as tn/td, its window in quarters, raster positions  *)
(* in 1/16 of a pixel; directions come in 2^-14, origins in 1/256.            *)
EXTENDS TraceBase

VARIABLES cam
tvars == <<l, cam>>
TraceInit == l = 1 /\ cam = <<>>

Scaled(xx, pp, rr) == LET x == TLCEval(xx) p == TLCEval(pp) r == TLCEval(rr) IN (x \div r) * p + (((x % r) * p) \div r)
CameraEv == Is("camera") /\ Step /\ cam' = Ev
(* window coordinates in 2^-12 of raster position (1/16 pixel) *)
Across(x) == cam.win[1] * 1024 + Scaled(x, (cam.win[3] - cam.win[1]) * 1024, 16 * cam.res[1])
Downwards(y) == cam.win[4] * 1024 - Scaled(y, (cam.win[4] - cam.win[2]) * 1024, 16 * cam.res[2])
(* unnormalised direction in 2^-12 *)
Toward(x, y) ==
  LET u == TLCEval((Across(x) * cam.tn) \div cam.td)
      v == TLCEval((Downwards(y) * cam.tn) \div cam.td)
  IN [k \in 1..3 |-> ((cam.f[1][k] * u + cam.f[2][k] * v) + cam.f[3][k] * 4096) \div cam.q]
Big(v) == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3]))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == (a[1] * b[1] + a[2] * b[2]) + a[3] * b[3]
RECURSIVE Shrink(_)
Shrink(e) == IF Big(e) > 30000 THEN Shrink(TLCEval([k \in 1..3 |-> e[k] \div 4])) ELSE e
Along(dir, e) ==
  LET g == TLCEval(Shrink(e))
      tol == (((5 + 3 * (cam.tn \div cam.td)) * 16384) + Big(g) * 2) +     \* the window's coordinates are rounded
              (IF Big(e) > 30000 THEN 0 ELSE 7 * Big(e))
  IN Big(dir) <= 16400 /\ Big(Cross(dir, g)) <= tol /\ Dot([k \in 1..3 |-> dir[k] \div 4], [k \in 1..3 |-> g[k] \div 4]) > 0
UnitLength(dir) == Big(dir) <= 16400 /\ LET n == Dot(dir, dir) - 16384 * 16384 IN n < 150000 /\ n > -150000
RayEv ==
  /\ Is("ray") /\ Step /\ UNCHANGED cam
  /\ ChkX("a ray does not start at the camera", \A k \in 1..3 : Abs(Ev.o[k] - 256 * cam.pos[k]) <= 1, <<Ev.o, cam.pos>>)
  /\ ChkX("a direction is not of unit length", UnitLength(Ev.dir), Ev.dir)
  /\ \E e \in {Toward(Ev.x, Ev.y)} : ChkX("a ray does not pass through its point of the window", Along(Ev.dir, e), <<Ev.dir, e>>)
  /\ Chk("a ray ends", Ev.endless)
(* the middle of a symmetric window; the first and last row *)
Centre == /\ Is("centre") /\ Step /\ UNCHANGED cam
          /\ ChkX("the middle of the window does not look at the target", Along(Ev.dir, [k \in 1..3 |-> (cam.f[3][k] * 4096) \div cam.q]), Ev.dir)
          /\ Chk("up is not upwards", Ev.top > Ev.bottom)
(* depth from the near plane (0) to the far plane (1), 2^-12; planes and point in 1/16 *)
Project ==
  /\ Is("project") /\ Step /\ UNCHANGED cam
  /\ LET n == Ev.n f == Ev.f z == Ev.p[3]
         xs(c) == Scaled(Scaled(4096, Ev.p[c], z), cam.td, cam.tn)
         zs == Scaled(Scaled(4096, f, f - n), z - n, z)
     IN /\ ChkX("perspective does not shrink with depth", Abs(Ev.img[1] - xs(1)) <= (8 + cam.td \div cam.tn) + Abs(xs(1)) \div 500 /\ Abs(Ev.img[2] - xs(2)) <= (8 + cam.td \div cam.tn) + Abs(xs(2)) \div 500, <<xs(1), xs(2), Ev.img>>)
        /\ ChkX("depth is not between the planes as it should be", Abs(Ev.img[3] - zs) <= 8, <<zs, Ev.img>>)
        /\ ChkX("perspective is not undone by its inverse", \A k \in 1..3 : Abs(Ev.back[k] - Ev.p[k] * 256) <= 16 + Abs(Ev.p[k]), <<Ev.back, Ev.p>>)
Panic == Is("panic") /\ Step /\ UNCHANGED cam /\ ChkX("panic", FALSE, Ev.what)
TraceNext == CameraEv \/ RayEv \/ Centre \/ Project \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
