--------------------------- MODULE TraceContainer ----------------------------
(* Ray queries of the real containers, judged by the answers each shape gave  *)
(* on its own to the same ray (exhaustive search).                            *)
EXTENDS TraceBase

VARIABLES n, exact, names
tvars == <<l, n, exact, names>>
TraceInit == l = 1 /\ n = 0 /\ exact = FALSE /\ names = <<>>

Scene == /\ Is("scene") /\ Step /\ n' = Ev.n /\ exact' = Ev.exact /\ names' = <<"linear">> \o [i \in 1..Len(Ev.depths) |-> "tree"]

(* own: <<shape, yes/no answer, hit, distance, what was hit>>; only shapes that answered *)
Tie == 16                    \* last places in which two distances count as one
Query ==
  /\ Is("query") /\ Step
  /\ LET hits == {i \in 1..Len(Ev.own) : Ev.own[i][3] = 1}
         near == IF hits = {} THEN 0 ELSE CHOOSE t \in {Ev.own[i][4] : i \in hits} : \A i \in hits : t <= Ev.own[i][4]
     IN /\ \A i \in 1..Len(Ev.own) : Chk("a shape's two queries disagree", Ev.own[i][2] = Ev.own[i][3])
        /\ \A c \in 1..Len(Ev.got) :
             LET g == Ev.got[c] IN
             /\ ChkX("a container misses or invents a hit", (g[2] = 1) = (hits # {}), names[c])
             /\ ChkX("the occlusion query disagrees with exhaustive search", (g[1] = 1) = (hits # {}), names[c])
             /\ (g[2] = 1 /\ hits # {}) =>
                  LET of == {i \in hits : Ev.own[i][1] = g[3]} IN
                  /\ ChkX("the hit names a shape that was not hit", of # {}, names[c])
                  /\ \A i \in of : /\ ChkX("the hit is not a nearest one", Ev.own[i][4] <= near + Tie, <<names[c], Ev.own[i][4] - near>>)
                                   /\ ChkX("the hit is not the named shape's hit", Ev.own[i][5] = g[4], names[c])
  /\ UNCHANGED <<n, exact, names>>
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED <<n, exact, names>>
TraceNext == Scene \/ Query \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
