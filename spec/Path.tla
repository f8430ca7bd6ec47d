--------------------------------- MODULE Path ---------------------------------
(* A camera path as the integrator walks it: at every place emission is looked *)
(* at, one light is sampled, the scattering is sampled for that light, a step  *)
(* is taken and the path may end at random.  Every light path (steps of given  *)
(* last, then an emitter) must be counted once in all.                        *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxV,        \* places visited
          MinRR,       \* bounces before which paths do not end at random
          Pdfs,        \* densities of the two strategies
          NLights, Variant, Emitting

VARIABLES n, type, last, hist, seen, counted, phase, a, b, beta, truth, prob
vars == <<n, type, last, hist, seen, counted, phase, a, b, beta, truth, prob>>

Den == a * a + b * b
Types == {"spec", "diff", "both"}
Lobes(t) == IF t = "both" THEN {"spec", "diff"} ELSE {t}
Init == /\ n = 0 /\ type = "none" /\ last = "spec" /\ hist = <<>> /\ seen = TRUE /\ phase = "ray" /\ beta = 0 /\ truth = 0 /\ prob = 0
        /\ a \in Pdfs /\ b \in Pdfs /\ (a + b > 0)
        /\ counted = [spec |-> 0, diff |-> 0]       \* weights of the light paths that end with the step about to be taken, in 1/(Den * NLights)
Full == Den * NLights

(* the next place; what it emits is added if nothing else has accounted for it *)
Hit(t) ==
  /\ phase = "ray" /\ n < MaxV
  /\ type' = t /\ phase' = "light" /\ n' = n + 1
  /\ LET add == IF n = 0 \/ seen \/ Variant = "always" THEN Full ELSE 0
         k == last
     IN counted' = [counted EXCEPT ![k] = @ + add]
  /\ UNCHANGED <<last, hist, seen, a, b, beta, truth, prob>>
Miss == /\ phase = "ray" /\ n > 0 /\ phase' = "over" /\ UNCHANGED <<n, type, last, hist, seen, counted, a, b, beta, truth, prob>>
(* light sampling: one light, chosen uniformly; its weight stands for the mean over the choice *)
Light ==
  /\ phase = "light" /\ phase' = "scatter"
  /\ counted' = LET scale == IF Variant = "noscale" THEN 1 ELSE NLights
                    wl == IF Variant = "nomis" THEN Den ELSE a * a
                    ok == "diff" \in Lobes(type) /\ a > 0
                    base == [spec |-> 0, diff |-> 0]
                IN IF ok THEN [base EXCEPT !.diff = wl * scale] ELSE base
  /\ UNCHANGED <<n, type, last, hist, seen, a, b, beta, truth, prob>>
(* scattering sampled for the light: its mean over the lobe picked *)
Scatter ==
  /\ phase = "scatter" /\ phase' = "step"
  /\ counted' = LET scale == IF Variant = "noscale" THEN 1 ELSE NLights
                    wb == IF Variant = "nomis" THEN Den ELSE b * b
                    x == IF "diff" \in Lobes(type) /\ b > 0 THEN [counted EXCEPT !.diff = @ + wb * scale] ELSE counted
                IN IF Variant = "doublespec" /\ "spec" \in Lobes(type) THEN [x EXCEPT !.spec = @ + Den * scale] ELSE x
  /\ UNCHANGED <<n, type, last, hist, seen, a, b, beta, truth, prob>>
Go(k, g) ==
  /\ phase = "step" /\ k \in Lobes(type)
  /\ last' = k /\ hist' = (IF Emitting THEN Append(hist, <<type, k>>) ELSE hist)
  /\ seen' = (IF Variant = "noflag" THEN FALSE ELSE IF Variant = "stuck" THEN seen \/ k = "spec" ELSE k = "spec")
  /\ beta' = beta + g /\ truth' = truth + g
  /\ phase' = IF n >= MinRR THEN "roulette" ELSE "ray"
  /\ UNCHANGED <<n, type, counted, a, b, prob>>
(* survival with probability 2^-q *)
Survive(q) ==
  /\ phase = "roulette" /\ phase' = "ray"
  /\ prob' = prob + q
  /\ beta' = beta + (IF Variant = "nocomp" THEN 0 ELSE IF Variant = "late" THEN (IF n > MinRR THEN q ELSE 0) ELSE q)
  /\ UNCHANGED <<n, type, last, hist, seen, counted, a, b, truth>>
Die == /\ phase = "roulette" /\ phase' = "over" /\ UNCHANGED <<n, type, last, hist, seen, counted, a, b, beta, truth, prob>>
Next == (\E t \in Types : Hit(t)) \/ Miss \/ Light \/ Scatter \/ (\E k \in {"spec", "diff"}, g \in {-1, 0, 1} : (~Emitting \/ g = 0) /\ Go(k, g)) \/ (\E q \in {0, 1, 2} : (~Emitting \/ q = 0) /\ Survive(q)) \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* having arrived: emission there has been counted exactly once by all strategies together *)
Once == phase = "light" => counted[last] = Full
Compensated == beta = truth + prob
Ends == <>(phase = "over" \/ n = MaxV)
Emit == (Emitting /\ phase = "ray" /\ n > 0) => PrintT("@@BEH " \o ToString(hist))
=============================================================================
