----------------------------- MODULE RenderSched -----------------------------
(* Generator: every order in which waiting workers can be let go on (or made *)
(* to fail) when NW workers share NT tiles.  Workers take tiles eagerly.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxW, MaxT, MaxFail

VARIABLES nw, nt, left, waiting, steps, fails
vars == <<nw, nt, left, waiting, steps, fails>>

Init == /\ nw \in 1..MaxW /\ nt \in 1..MaxT
        /\ waiting = 1..(IF nt < nw THEN nt ELSE nw)
        /\ left = nt - (IF nt < nw THEN nt ELSE nw)
        /\ steps = <<>> /\ fails = 0

Go(w) == /\ w \in waiting
         /\ IF left > 0 THEN left' = left - 1 /\ waiting' = waiting
            ELSE left' = 0 /\ waiting' = waiting \ {w}
         /\ steps' = Append(steps, <<"go", w>>) /\ UNCHANGED <<nw, nt, fails>>
Crash(w) == /\ w \in waiting /\ fails < MaxFail /\ fails' = fails + 1
            /\ waiting' = waiting \ {w} /\ steps' = Append(steps, <<"fail", w>>) /\ UNCHANGED <<nw, nt, left>>
Next == \E w \in 1..nw : Go(w) \/ Crash(w)
Spec == Init /\ [][Next]_vars

Q(s) == "\"" \o s \o "\""
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN ""
          ELSE "[" \o Q(s[1][1]) \o "," \o ToString(s[1][2]) \o "]" \o (IF Len(s) = 1 THEN "" ELSE ",") \o Str(Tail(s))
Emit == waiting = {} /\ (MaxFail = 0 \/ fails > 0) =>
          PrintT("@@BEH {\"threads\":" \o ToString(nw) \o ",\"tiles\":" \o ToString(nt) \o ",\"steps\":[" \o Str(steps) \o "]}")
=============================================================================
