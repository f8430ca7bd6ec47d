------------------------------ MODULE TraceWalk ------------------------------
(* Recorded paths through convex solids: the inside/outside state follows the *)
(* directions taken, and the queries must agree with it.  Shadow rays between *)
(* two surfaces that face each other.                                         *)
EXTENDS TraceBase

VARIABLES inside
tvars == <<l, inside>>
TraceInit == l = 1 /\ inside = FALSE

Solid == Is("solid") /\ Step /\ inside' = FALSE
First == /\ Is("first") /\ Step
         /\ Chk("a ray at the solid misses it", Ev.hit /\ Ev.yes)
         /\ Ev.hit => Chk("the ray enters through the back", Ev.out < 0)
         /\ inside' = FALSE
(* chord, went, blur: in 2^-12 of the solid's size; blur: how well positions are known *)
Spawn == /\ Is("spawn") /\ Step
         /\ Chk("the two queries disagree", Ev.yes = Ev.hit)
         /\ inside' = Ev.inward
         /\ ~inside' => Chk("a ray leaving the solid hits it again", ~Ev.hit)
         /\ (inside' /\ Ev.chord >= 8 + 4 * Ev.blur) =>
              /\ Chk("a ray going into the solid does not leave it", Ev.hit)
              /\ Ev.hit => /\ Chk("a ray going into the solid hits the surface it started from", Abs(Ev.went - Ev.chord) <= 4 + Ev.chord \div 8 + (IF Ev.out > 0 THEN (1024 * Ev.blur) \div Ev.out ELSE 0))
                           /\ Chk("a ray leaves the solid from the outside", Ev.out > 0)
Shadow ==
  /\ Is("shadow") /\ Step
  /\ (Ev.c1 >= 30 /\ Ev.c2 >= 30) => Chk("a shadow ray is blocked by the surfaces it connects", Ev.ends = 0)
  /\ Ev.between => Chk("something in between does not block the shadow ray", Ev.blocked = 2)
  /\ UNCHANGED inside
(* off: how far beyond the surface, in 2^-10 of the rounding of its corners *)
Side ==
  /\ Is("side") /\ Step
  /\ Chk("a spawned ray starts behind the surface", Ev.off >= 0)
  /\ Chk("a spawned ray starts far from the surface", Ev.moved <= 1000)
  /\ Chk("a spawned ray does not go where it is sent", Ev.along /\ Ev.open)
  /\ UNCHANGED inside
Unit == Is("unit") /\ Step /\ UNCHANGED inside
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED inside
TraceNext == Solid \/ First \/ Spawn \/ Shadow \/ Side \/ Unit \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
