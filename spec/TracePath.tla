------------------------------ MODULE TracePath ------------------------------
(* Recorded radiance of paths through scripted worlds. *)
EXTENDS TraceBase, PathCore

VARIABLES w
tvars == <<l, w>>
TraceInit == l = 1 /\ w = [k |-> 0]

All(n) == [x \in 1..n |-> x]
Near(a, b) == \A c \in C : Abs(a[c] - b[c]) <= 64 + 4 * Len(w.lights) + Abs(a[c]) \div 1500
World == Is("world") /\ Step /\ w' = Ev
(* one point for all 2-D draws, one light *)
One == /\ Is("one") /\ Step /\ UNCHANGED w
       /\ LET x == Radiance(w, w.start, w.dir, TRUE, 0, IF Len(w.lights) = 0 THEN <<>> ELSE <<Ev.i>>, <<Ev.j>>)
          IN ChkX("radiance of a path", Near(x, Ev.l), x)
(* all sequences of draws, each with its probability *)
Mean == /\ Is("mean") /\ Step /\ UNCHANGED w
        /\ LET x == Radiance(w, w.start, w.dir, TRUE, 0, All(Len(w.lights)), All(w.j))
           IN ChkX("expected radiance", Near(x, Ev.l), x)

(* random termination: for the m-th deciding draw find the bounce it comes after *)
NearQ(a, b) == \A c \in C : Abs(a[c] - b[c]) <= 200 + Abs(a[c]) \div 200
Lights1 == IF Len(w.lights) = 0 THEN <<>> ELSE <<1>>
IsVast(a) == \E c \in C : a[c] >= Vast
(* qs[b]: probability to survive bounce b, in 2^-15; from: the next bounce that may be decided *)
RECURSIVE FirstFit(_, _, _, _)
FirstFit(chain, b, qs, dm) ==
  IF b > 65 THEN 0
  ELSE LET x == TLCEval(Cut(chain, 0, b - 1, qs)) IN IF IsVast(x) THEN -1 ELSE IF NearQ(x, dm) THEN b ELSE FirstFit(chain, b + 1, qs, dm)
RECURSIVE Place(_, _, _, _, _, _)
(* <<>> if one of the deciding draws fits nowhere, <<0>> if it cannot be told *)
Place(chain, m, from, qs, q, ds) ==
  IF m > Len(q) THEN qs
  ELSE LET b == TLCEval(FirstFit(chain, from, qs, ds[m]))
       IN IF b = 0 THEN <<>> ELSE IF b = -1 THEN <<0>> ELSE Place(chain, m + 1, b + 1, TLCEval([qs EXCEPT ![b] = q[m]]), q, ds)
Ends == /\ Is("ends") /\ Step /\ UNCHANGED w
        /\ LET chain == TLCEval(Chain(w, w.start, w.dir, TRUE, 0, Lights1, Ev.j, <<>>))
               qs == TLCEval(Place(chain, 1, 4, TLCEval([b \in 1..65 |-> 32768]), Ev.q, Ev.d))
               x == TLCEval(IF Len(qs) = 1 THEN <<Vast, 0, 0>> ELSE Cut(chain, 0, 65, qs))
           IN /\ Chk("a path ends at random before the fourth bounce or twice at one place", qs # <<>>)
              /\ qs # <<>> /\ ~IsVast(x) => ChkX("a surviving path is not compensated by its probability to survive", NearQ(x, Ev.l), x)
Lost == Is("lost") /\ Step /\ ChkX("samples are lost", FALSE, Ev.what) /\ UNCHANGED w
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED w
TraceNext == World \/ One \/ Mean \/ Ends \/ Lost \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
