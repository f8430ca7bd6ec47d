----------------------------- MODULE OutputFile -----------------------------
(* Writing the image: open, buffered writes, flush, close.  The device takes  *)
(* any part of a write, may be interrupted, and takes no byte beyond Limit.   *)
EXTENDS Integers, Sequences

CONSTANTS N,        \* bytes of the new image
          MaxOld,   \* longest old file
          Cap,      \* buffer capacity
          Variant

VARIABLES old, limit, file, pos, buf, next, state
vars == <<old, limit, file, pos, buf, next, state>>

Image == [i \in 1..N |-> <<"new", i>>]
Init == /\ old \in 0..MaxOld /\ limit \in 0..(N + 1)
        /\ file = [i \in 1..old |-> <<"old", i>>] /\ pos = 0 /\ buf = <<>> /\ next = 1 /\ state = "open"

Min(a, b) == IF a < b THEN a ELSE b
Open == /\ state = "open" /\ state' = "write"
        /\ file' = IF Variant = "notrunc" THEN file ELSE <<>>
        /\ UNCHANGED <<old, limit, pos, buf, next>>
(* the image is handed over in pieces *)
Put == /\ state = "write" /\ next <= N /\ Len(buf) < Cap
       /\ \E k \in 1..Min(Cap - Len(buf), N + 1 - next) :
            buf' = buf \o SubSeq(Image, next, next + k - 1) /\ next' = next + k
       /\ UNCHANGED <<old, limit, file, pos, state>>
(* the device accepts k bytes of the buffer *)
Over(s, p, t) == [i \in 1..(IF Len(s) > p + Len(t) THEN Len(s) ELSE p + Len(t)) |-> IF i > p /\ i <= p + Len(t) THEN t[i - p] ELSE s[i]]
Drain == \/ state = "flush"
         \/ state = "close"
         \/ state = "write" /\ Len(buf) = Cap
Accept == /\ Drain /\ buf # <<>>
          /\ \E k \in 1..Len(buf) :
               /\ pos + k <= limit
               /\ file' = Over(file, pos, SubSeq(buf, 1, k)) /\ pos' = pos + k
               /\ buf' = IF Variant = "short" THEN <<>> ELSE SubSeq(buf, k + 1, Len(buf))
          /\ UNCHANGED <<old, limit, next, state>>
Refuse == /\ Drain /\ buf # <<>> /\ pos + 1 > limit
          /\ IF state = "close" THEN buf' = <<>> /\ UNCHANGED state     \* errors of the closing flush are ignored
             ELSE IF Variant = "ignore" THEN buf' = <<>> /\ UNCHANGED state
             ELSE state' = "failed" /\ UNCHANGED buf
          /\ UNCHANGED <<old, limit, file, pos, next>>
Flush == /\ state = "write" /\ next > N /\ Len(buf) < Cap
         /\ state' = IF Variant = "noflush" THEN "close" ELSE "flush"
         /\ UNCHANGED <<old, limit, file, pos, buf, next>>
Done == /\ state \in {"flush", "close"} /\ buf = <<>> /\ state' = "returned" /\ UNCHANGED <<old, limit, file, pos, buf, next>>
Next == Open \/ Put \/ Accept \/ Refuse \/ Flush \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ExactlyTheImage == state = "returned" => file = Image
FaultShows == limit < N => state # "returned"
NoFaultReturns == state = "failed" => limit < N
Terminates == <>(state \in {"returned", "failed"})
=============================================================================
