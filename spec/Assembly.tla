------------------------------ MODULE Assembly --------------------------------
(* Assembling a scene: calls add shapes, lights and area lights in any order; *)
(* construction measures everything, tells every light the measure and hands  *)
(* the lists on.  The scene is an interval on a line; a distant light's       *)
(* shadow ray starts anywhere in it and goes to the right by twice the radius *)
(* of the interval the light was told.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, Top, Variant, Emitting

VARIABLES calls, phase, box, i, told, lights, shapes
vars == <<calls, phase, box, i, told, lights, shapes>>

Kinds == {"shape", "light", "area"}
Spans == {<<x, y>> \in (0..Top) \X (0..Top) : x <= y}
None == <<0, 0>>
Join(p, q) == <<IF p[1] < q[1] THEN p[1] ELSE q[1], IF p[2] > q[2] THEN p[2] ELSE q[2]>>
RECURSIVE Hull(_, _, _)
Hull(k, kinds, acc) == IF k > Len(calls) THEN acc
                       ELSE Hull(k + 1, kinds, IF calls[k][1] \in kinds THEN (IF acc = <<>> THEN calls[k][2] ELSE Join(acc, calls[k][2])) ELSE acc)
Measured == LET h == Hull(1, IF Variant = "shapesonly" THEN {"shape"} ELSE {"shape", "area"}, <<>>) IN IF h = <<>> THEN None ELSE h
Of(kinds) == SelectSeq([k \in 1..Len(calls) |-> k], LAMBDA k : calls[k][1] \in kinds)

Init == calls = <<>> /\ phase = "adding" /\ box = None /\ i = 1 /\ told = <<>> /\ lights = <<>> /\ shapes = <<>>
Add(kind, span) ==
  /\ phase = "adding" /\ Len(calls) < MaxN /\ calls' = Append(calls, <<kind, span>>)
  /\ told' = Append(told, IF Variant = "early" /\ kind = "light" THEN <<Measured>> ELSE <<>>)
  /\ UNCHANGED <<phase, box, i, lights, shapes>>
Construct ==
  /\ phase = "adding" /\ phase' = "telling" /\ box' = Measured /\ i' = 1
  /\ lights' = Of({"light"}) /\ shapes' = Of({"shape"})
  /\ UNCHANGED <<calls, told>>
Tell ==
  /\ phase = "telling" /\ i <= Len(calls) /\ i' = i + 1
  /\ told' = IF calls[i][1] = "shape" \/ Variant = "early" \/ (Variant = "notlast" /\ i = Len(calls)) THEN told
             ELSE [told EXCEPT ![i] = IF Variant = "twice" THEN @ \o <<box, box>> ELSE Append(@, box)]
  /\ UNCHANGED <<calls, phase, box, lights, shapes>>
HandOver ==
  /\ phase = "telling" /\ i > Len(calls) /\ phase' = "done"
  /\ lights' = (IF Variant = "shapeonly" THEN lights ELSE lights \o Of({"area"}))
  /\ shapes' = (IF Variant = "lightonly" THEN shapes ELSE shapes \o Of({"area"}))
  /\ UNCHANGED <<calls, box, i, told>>
Next == (\E kind \in Kinds, span \in Spans : (kind = "light" => span = None) /\ Add(kind, span)) \/ Construct \/ Tell \/ HandOver
Spec == Init /\ [][Next]_vars /\ WF_vars(Construct \/ Tell \/ HandOver)

Done == phase = "done"
Count(s, k) == Cardinality({j \in 1..Len(s) : s[j] = k})
EachOnce == Done => \A k \in 1..Len(calls) :
  /\ Count(lights, k) = (IF calls[k][1] = "shape" THEN 0 ELSE 1)
  /\ Count(shapes, k) = (IF calls[k][1] = "light" THEN 0 ELSE 1)
Solid == {k \in 1..Len(calls) : calls[k][1] # "light"}
AllTold == Done => \A k \in 1..Len(calls) : calls[k][1] = "light" =>
  /\ Len(told[k]) = 1
  /\ \A s \in Solid : told[k][1][1] <= calls[s][2][1] /\ told[k][1][2] >= calls[s][2][2]
(* from the left end of any shape to past the right end of every other *)
Reach(b) == IF Variant = "short" THEN (b[2] - b[1]) \div 2 ELSE b[2] - b[1]
ReachesOut == Done => \A k \in 1..Len(calls) : calls[k][1] = "light" => \A s, t \in Solid : \A b \in {told[k][j] : j \in 1..Len(told[k])} : calls[s][2][1] + Reach(b) >= calls[t][2][2]
Assembled == <>Done
Emit == (Emitting /\ phase = "adding") => PrintT("@@BEH " \o ToString(calls))
=============================================================================
