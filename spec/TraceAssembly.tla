---------------------------- MODULE TraceAssembly ----------------------------
(* Recorded assemblies: the calls made, what each light was told, the lists   *)
(* handed on, and shadow rays of distant lights through the finished scene.   *)
(* Boxes are <<min, max>> on integer points; a shape is a plate at the far    *)
(* face of its box, seen along an axis.                                       *)
EXTENDS TraceBase

VARIABLES calls, told, handed, done
tvars == <<l, calls, told, handed, done>>
TraceInit == l = 1 /\ calls = <<>> /\ told = <<>> /\ handed = <<>> /\ done = FALSE

New == Is("new") /\ Step /\ calls' = <<>> /\ told' = <<>> /\ handed' = <<>> /\ done' = FALSE
Add == /\ Is("add") /\ Step
       /\ Chk("calls are numbered", Ev.id = Len(calls) + 1)
       /\ calls' = Append(calls, <<Ev.kind, Ev.lo, Ev.hi>>) /\ told' = Append(told, 0)
       /\ UNCHANGED <<handed, done>>
Solid(k) == calls[k][1] # "light"
Holds(lo, hi, k) == \A x \in 1..3 : lo[x] <= calls[k][2][x] /\ hi[x] >= calls[k][3][x]
Told == /\ Is("told") /\ Step
        /\ Chk("a light that was never added is told", Ev.id \in 1..Len(calls) /\ calls[Ev.id][1] = "light")
        /\ ChkX("a light is told a box that does not contain everything", \A k \in 1..Len(calls) : Solid(k) => Holds(Ev.lo, Ev.hi, k), <<Ev.lo, Ev.hi>>)
        /\ told' = [told EXCEPT ![Ev.id] = @ + 1]
        /\ UNCHANGED <<calls, handed, done>>
Count(s, k) == Cardinality({j \in 1..Len(s) : s[j] = k})
Handed == /\ Is("handed") /\ Step
          /\ Chk("shapes are handed on once", handed = <<>>)
          /\ ChkX("an added shape is missing, doubled or invented", Len(Ev.shapes) = Cardinality({k \in 1..Len(calls) : Solid(k)}) /\ \A k \in 1..Len(calls) : Count(Ev.shapes, k) = (IF Solid(k) THEN 1 ELSE 0), Ev.shapes)
          /\ handed' = <<Ev.shapes>> /\ UNCHANGED <<calls, told, done>>
Done == /\ Is("done") /\ Step
        /\ Chk("no shapes were handed on", handed # <<>>)
        /\ ChkX("an added light is missing, doubled or invented", Len(Ev.lights) = Cardinality({k \in 1..Len(calls) : calls[k][1] # "shape"}) /\ \A k \in 1..Len(calls) : Count(Ev.lights, k) = (IF calls[k][1] = "shape" THEN 0 ELSE 1), Ev.lights)
        /\ Chk("an area light is not the same object as light and as shape", \A j \in 1..Len(Ev.lights) : calls[Ev.lights[j]][1] = "area" => Ev.same[j])
        /\ ChkX("a light was not told exactly once", \A k \in 1..Len(calls) : calls[k][1] = "light" => told[k] = 1, told)
        /\ done' = TRUE /\ UNCHANGED <<calls, told, handed>>
(* the plate is crossed along the direction's first largest component *)
Main(w) == CHOOSE x \in 1..3 : (\A y \in 1..3 : Abs(w[y]) <= Abs(w[x])) /\ (\A y \in 1..(x - 1) : Abs(w[y]) < Abs(w[x]))
InFront(k, p, w) ==
  LET x == Main(w)
      s == IF w[x] > 0 THEN 1 ELSE -1
      away == calls[k][3][x] - p[x]
      at(y) == (p[y] * Abs(w[x])) + (away * w[y]) * s
  IN /\ away * s > 0
     /\ \A y \in (1..3) \ {x} : calls[k][2][y] * Abs(w[x]) <= at(y) /\ at(y) <= calls[k][3][y] * Abs(w[x])
Shadow == /\ Is("shadow") /\ Step
          /\ Chk("asked before it was assembled", done)
          /\ \E blocked \in {\E k \in 1..Len(calls) : Solid(k) /\ InFront(k, Ev.p, Ev.way)} :
               /\ Chk("light shines through something in front of it", blocked => ~Ev.free)
               /\ Chk("light is blocked by nothing", ~blocked => Ev.free)
          /\ UNCHANGED <<calls, told, handed, done>>
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED <<calls, told, handed, done>>
TraceNext == New \/ Add \/ Told \/ Handed \/ Done \/ Shadow \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
