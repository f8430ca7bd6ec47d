------------------------------ MODULE TraceImage ------------------------------
(* Several renders of one scene: what is drawn at a position is a function   *)
(* of the position, and the image is the same whoever rendered what.         *)
EXTENDS TraceBase, FilmCore

VARIABLES cfg, seen, first
tvars == <<l, cfg, seen, first>>
TraceInit == l = 1 /\ cfg = [w |-> 0] /\ seen = <<>> /\ first = <<>>

Config == Is("config") /\ Step /\ cfg' = Ev /\ seen' = <<>> /\ first' = <<>>
(* h: hash of the drawn values; n: how many; f: hash of the first n values a fresh sampler gives there *)
Draw == /\ Is("draw") /\ Step
        /\ LET k == <<Ev.x, Ev.y, Ev.k>> IN
           /\ ChkX("the values drawn at a position depend on more than the position", Ev.h = Ev.f, k)
           /\ k \in DOMAIN seen => ChkX("the same position drew other values in another render", seen[k] = <<Ev.n, Ev.h>>, k)
           /\ seen' = IF k \in DOMAIN seen THEN seen ELSE seen @@ (k :> <<Ev.n, Ev.h>>)
        /\ UNCHANGED <<cfg, first>>
(* the image may differ by one level where samples of several tiles meet in a pixel *)
Tol == IF cfg.exact THEN 0 ELSE 1
Image == /\ Is("image") /\ Step
         /\ Chk("the image has the wrong size", Len(Ev.px) = 3 * cfg.w * cfg.h)
         /\ IF Ev.run = 0 THEN first' = Ev.px
            ELSE /\ UNCHANGED first
                 /\ Len(Ev.px) = Len(first) =>
                      ChkX("the image depends on the thread count or the schedule",
                           \A i \in 1..Len(first) : Abs(first[i] - Ev.px[i]) <= Tol, <<Ev.threads, Ev.run>>)
         /\ UNCHANGED <<cfg, seen>>
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED <<cfg, seen, first>>
TraceNext == Config \/ Draw \/ Image \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
