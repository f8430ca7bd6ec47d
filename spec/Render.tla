------------------------------- MODULE Render --------------------------------
(* The parallel render: a shared cursor over tiles, workers that take a      *)
(* tile, render its samples into a private tile, merge it into the shared    *)
(* film, and a main thread that joins every worker before it writes the      *)
(* image.  A worker may fail at any sample (or inside the merge).            *)
(* Variant selects the code's design or a deliberately broken one.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NW, NT, NS, Variant, MaxFail

W == 1..NW
T == 1..NT
P == 1..NT                                   \* pixel groups; tile t reaches groups t-1, t, t+1
Reach(t) == {p \in P : p >= t - 1 /\ p <= t + 1}

VARIABLES cursor,    \* next tile
          pc,        \* worker state: take, got (cursor read, not yet advanced), render, merge, done, dead
          tile,      \* the worker's tile
          sample,    \* samples of the tile rendered so far
          todo,      \* pixel groups still to merge
          read,      \* value read from the film in an unfinished merge of one group
          taken,     \* [t |-> how often tile t was handed out]
          film,      \* [p |-> [t |-> merged contributions of t]]
          lockIter, lockFilm,   \* 0 free, w held, -1 poisoned
          main,      \* join i, write, returned, failed
          out,       \* old, partial, new
          fails
vars == <<cursor, pc, tile, sample, todo, read, taken, film, lockIter, lockFilm, main, out, fails>>

Zero == [p \in P |-> [t \in T |-> 0]]
Init == /\ cursor = 1 /\ pc = [w \in W |-> "take"] /\ tile = [w \in W |-> 0] /\ sample = [w \in W |-> 0]
        /\ todo = [w \in W |-> {}] /\ read = [w \in W |-> <<>>] /\ taken = [t \in T |-> 0] /\ film = Zero
        /\ lockIter = 0 /\ lockFilm = 0 /\ main = <<"join", 1>> /\ out = "old" /\ fails = 0

(* ---- worker ---- *)
Take(w) ==                                   \* next() under the iterator's lock
  /\ Variant # "nolock-iter"
  /\ pc[w] = "take" /\ lockIter \in {0, -1}
  /\ IF lockIter = -1 THEN /\ pc' = [pc EXCEPT ![w] = "dead"] /\ UNCHANGED <<cursor, tile, sample, taken, fails>>
     ELSE IF cursor > NT THEN /\ pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED <<cursor, tile, sample, taken, fails>>
     ELSE /\ tile' = [tile EXCEPT ![w] = cursor] /\ cursor' = cursor + 1 /\ sample' = [sample EXCEPT ![w] = 0]
          /\ taken' = [taken EXCEPT ![cursor] = @ + 1] /\ pc' = [pc EXCEPT ![w] = "render"] /\ UNCHANGED fails
  /\ UNCHANGED <<todo, read, film, lockIter, lockFilm, main, out>>

TakeRead(w) ==                               \* broken: cursor read and advanced in two steps
  /\ Variant = "nolock-iter" /\ pc[w] = "take"
  /\ IF cursor > NT THEN pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED tile
     ELSE pc' = [pc EXCEPT ![w] = "got"] /\ tile' = [tile EXCEPT ![w] = cursor]
  /\ UNCHANGED <<cursor, sample, todo, read, taken, film, lockIter, lockFilm, main, out, fails>>
TakeWrite(w) ==
  /\ pc[w] = "got" /\ cursor' = tile[w] + 1 /\ sample' = [sample EXCEPT ![w] = 0]
  /\ taken' = [taken EXCEPT ![tile[w]] = @ + 1] /\ pc' = [pc EXCEPT ![w] = "render"]
  /\ UNCHANGED <<tile, todo, read, film, lockIter, lockFilm, main, out, fails>>

Sample(w) ==
  /\ pc[w] = "render"
  /\ IF sample[w] < NS THEN sample' = [sample EXCEPT ![w] = @ + 1] /\ UNCHANGED <<pc, todo>>
     ELSE pc' = [pc EXCEPT ![w] = "merge"] /\ todo' = [todo EXCEPT ![w] = Reach(tile[w])] /\ UNCHANGED sample
  /\ UNCHANGED <<cursor, tile, read, taken, film, lockIter, lockFilm, main, out, fails>>

Fail(w) ==
  /\ fails < MaxFail /\ fails' = fails + 1
  /\ pc[w] = "render" \/ (pc[w] = "merge" /\ lockFilm = w)
  /\ IF Variant = "skip-failed"              \* broken: the failure is caught and the tile dropped
     THEN pc' = [pc EXCEPT ![w] = "take"] /\ UNCHANGED lockFilm
     ELSE pc' = [pc EXCEPT ![w] = "dead"] /\ lockFilm' = IF lockFilm = w THEN -1 ELSE lockFilm
  /\ UNCHANGED <<cursor, tile, sample, todo, read, taken, film, lockIter, main, out>>

LockFilm(w) ==
  /\ pc[w] = "merge" /\ Variant # "nolock-merge" /\ todo[w] = Reach(tile[w]) /\ lockFilm \in {0, -1}
  /\ IF lockFilm = -1 THEN pc' = [pc EXCEPT ![w] = "dead"] /\ UNCHANGED lockFilm
     ELSE lockFilm' = w /\ UNCHANGED pc
  /\ UNCHANGED <<cursor, tile, sample, todo, read, taken, film, lockIter, main, out, fails>>

MergeRead(w) ==
  /\ pc[w] = "merge" /\ (lockFilm = w \/ Variant = "nolock-merge") /\ read[w] = <<>> /\ todo[w] # {}
  /\ LET p == CHOOSE p \in todo[w] : \A q \in todo[w] : p <= q
     IN read' = [read EXCEPT ![w] = <<p, film[p]>>]
  /\ UNCHANGED <<cursor, pc, tile, sample, todo, taken, film, lockIter, lockFilm, main, out, fails>>
MergeWrite(w) ==
  /\ pc[w] = "merge" /\ read[w] # <<>>
  /\ film' = [film EXCEPT ![read[w][1]] = [read[w][2] EXCEPT ![tile[w]] = @ + sample[w]]]
  /\ todo' = [todo EXCEPT ![w] = @ \ {read[w][1]}] /\ read' = [read EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<cursor, pc, tile, sample, taken, lockIter, lockFilm, main, out, fails>>
MergeEnd(w) ==
  /\ pc[w] = "merge" /\ todo[w] = {} /\ read[w] = <<>>
  /\ pc' = [pc EXCEPT ![w] = "take"] /\ lockFilm' = IF lockFilm = w THEN 0 ELSE lockFilm
  /\ UNCHANGED <<cursor, tile, sample, todo, read, taken, film, lockIter, main, out, fails>>

(* ---- main ---- *)
Join ==
  /\ main[1] = "join"
  /\ LET i == main[2] IN
     \/ /\ Variant = "nojoin" /\ main' = <<"write", 0>>
     \/ /\ Variant = "join-first" /\ pc[1] \in {"done", "dead"}
        /\ main' = IF pc[1] = "dead" THEN <<"failed", 0>> ELSE <<"write", 0>>
     \/ /\ Variant \notin {"nojoin", "join-first"}
        /\ pc[i] \in {"done", "dead"}
        /\ main' = IF pc[i] = "dead" /\ Variant # "swallow" THEN <<"failed", 0>>
                   ELSE IF i = NW THEN <<"write", 0>> ELSE <<"join", i + 1>>
  /\ out' = IF Variant = "open-early" THEN "partial" ELSE out
  /\ UNCHANGED <<cursor, pc, tile, sample, todo, read, taken, film, lockIter, lockFilm, fails>>
Write ==
  /\ main[1] = "write" /\ lockFilm \in {0, -1}
  /\ IF lockFilm = -1 /\ Variant # "swallow" THEN main' = <<"failed", 0>> /\ out' = "partial"
     ELSE main' = <<"returned", 0>> /\ out' = "new"
  /\ UNCHANGED <<cursor, pc, tile, sample, todo, read, taken, film, lockIter, lockFilm, fails>>

WorkerStep(w) == Take(w) \/ TakeRead(w) \/ TakeWrite(w) \/ Sample(w) \/ LockFilm(w) \/ MergeRead(w) \/ MergeWrite(w) \/ MergeEnd(w)
Next == Join \/ Write \/ \E w \in W : WorkerStep(w) \/ Fail(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Join \/ Write) /\ \A w \in W : WF_vars(WorkerStep(w))

Over == main[1] \in {"returned", "failed"}
OneWorkerEach == \A t \in T : taken[t] <= 1
Complete == main[1] = "returned" => \A p \in P : \A t \in T : film[p][t] = IF p \in Reach(t) THEN NS ELSE 0
NeverTwice == \A p \in P : \A t \in T : film[p][t] <= NS
FailureShows == fails > 0 /\ Over => main[1] = "failed"
FailureLeavesFile == fails > 0 => out = "old"
Terminates == <>Over
=============================================================================
