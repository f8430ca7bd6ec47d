------------------------------- MODULE Sampler -------------------------------
(* The sampler protocol: counters of one sampler under any call sequence.    *)
(* Used as a generator of call histories and as the design of the counters.  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLen, NPix, MaxSpp, MaxS, Emitting

VARIABLES spp, s, hist
vars == <<spp, s, hist>>
(* s: the samplers, each [pix, k, d, over] *)
Fresh == [pix |-> 0, k |-> 0, d |-> 0, over |-> TRUE]
Init == spp \in 1..MaxSpp /\ s = <<Fresh>> /\ hist = <<>>
Log(op, i, a) == hist' = Append(hist, <<op, i, a>>)
Bound == Len(hist) < MaxLen
StartPixel(i, p) == Bound /\ s' = [s EXCEPT ![i] = [pix |-> p, k |-> 0, d |-> 0, over |-> FALSE]] /\ Log("start", i, p) /\ UNCHANGED spp
Get(i, n) == Bound /\ ~s[i].over /\ s' = [s EXCEPT ![i].d = @ + n] /\ Log("get", i, n) /\ UNCHANGED spp
NextSample(i) == Bound /\ s[i].pix > 0 /\ s' = [s EXCEPT ![i].k = @ + 1, ![i].d = 0, ![i].over = @ \/ s[i].k + 1 >= spp] /\ Log("next", i, 0) /\ UNCHANGED spp
Clone(i) == Bound /\ Len(s) < MaxS /\ s' = Append(s, s[i]) /\ Log("clone", i, 0) /\ UNCHANGED spp
Next == \E i \in 1..Len(s) : (\E p \in 1..NPix : StartPixel(i, p)) \/ Get(i, 1) \/ Get(i, 2) \/ NextSample(i) \/ Clone(i)
Spec == Init /\ [][Next]_vars

(* as many samples as requested: the sampler is over exactly when spp samples were started *)
Count == \A i \in 1..Len(s) : s[i].pix > 0 => (s[i].over <=> s[i].k >= spp)
RECURSIVE Str(_)
Str(h) == IF h = <<>> THEN "" ELSE "[\"" \o h[1][1] \o "\"," \o ToString(h[1][2]) \o "," \o ToString(h[1][3]) \o "]" \o (IF Len(h) = 1 THEN "" ELSE ",") \o Str(Tail(h))
Emit == Emitting /\ Len(hist) = MaxLen => PrintT("@@BEH {\"spp\":" \o ToString(spp) \o ",\"ops\":[" \o Str(hist) \o "]}")
=============================================================================
