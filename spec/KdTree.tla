------------------------------- MODULE KdTree --------------------------------
(* A k-d tree over boxes on a small integer grid (two dimensions), built by   *)
(* any sequence of admissible splits, and its traversal with IEEE-like        *)
(* values (infinities, NaN, signed zero).  The answer must be that of         *)
(* exhaustive search.  Variant names the code's design or a broken one.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Family,     \* which family of shapes
          NShapes, MaxDepth, Variant, TMaxes, Part

INF == 1000
NINF == -1000
NAN == 9999
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Le(a, b) == a # NAN /\ b # NAN /\ a <= b
NZ == 99                                   \* the direction -0
IsZero(d) == d = 0 \/ d = NZ
(* n / d in half units *)
Div(n, d) == IF d = 0 THEN (IF n > 0 THEN INF ELSE IF n < 0 THEN NINF ELSE NAN)
             ELSE IF d = NZ THEN (IF n > 0 THEN NINF ELSE IF n < 0 THEN INF ELSE NAN)
             ELSE IF d > 0 THEN (2 * n) \div d ELSE (-2 * n) \div (-d)

(* a shape: <<min, max>> per axis *)
Shapes ==
  IF Family = "flat"       \* segments and a few boxes sharing planes
  THEN {<<<<0, 0>>, <<0, 2>>>>, <<<<1, 1>>, <<0, 2>>>>, <<<<2, 2>>, <<0, 2>>>>, <<<<1, 1>>, <<1, 2>>>>, <<<<1, 1>>, <<0, 1>>>>,
        <<<<0, 2>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<2, 2>>>>, <<<<0, 2>>, <<0, 0>>>>, <<<<1, 2>>, <<0, 1>>>>, <<<<0, 1>>, <<0, 1>>>>, <<<<1, 1>>, <<2, 2>>>>}
  ELSE IF Family = "tall"  \* three heights: something lies behind the first hit in the same half
  THEN {<<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<2, 3>>>>, <<<<1, 2>>, <<0, 0>>>>, <<<<1, 1>>, <<2, 2>>>>, <<<<0, 2>>, <<3, 3>>>>}
  ELSE {<<x, y>> : x \in {<<0, 1>>, <<1, 2>>, <<0, 3>>, <<1, 1>>, <<2, 3>>}, y \in {<<0, 1>>, <<1, 3>>, <<2, 2>>}}
Lattice == 0..3
Dirs == {<<1, 0>>, <<1, NZ>>, <<0, 1>>, <<NZ, 1>>, <<NZ, -1>>, <<-1, 0>>, <<-1, NZ>>, <<1, 1>>, <<1, -1>>, <<-1, 2>>, <<2, 1>>, <<-1, -1>>}

VARIABLES shapes, ray,                       \* the scene and the question
          nodes, work,                       \* the tree, and what is left to build
          phase, node, tmin, tmax, rmax, todo, best
vars == <<shapes, ray, nodes, work, phase, node, tmin, tmax, rmax, todo, best>>

Ids == 1..NShapes
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
World == [a \in 1..2 |-> <<SetMin({shapes[i][a][1] : i \in Ids}), SetMax({shapes[i][a][2] : i \in Ids})>>]

(* ---- the shape's own answer: entry or exit of the closed box, 0 for none ---- *)
Enter(b, a) == IF IsZero(ray.d[a]) THEN (IF b[a][1] <= ray.o[a] /\ ray.o[a] <= b[a][2] THEN NINF ELSE INF)
               ELSE Min2(Div(b[a][1] - ray.o[a], ray.d[a]), Div(b[a][2] - ray.o[a], ray.d[a]))
Leave(b, a) == IF IsZero(ray.d[a]) THEN (IF b[a][1] <= ray.o[a] /\ ray.o[a] <= b[a][2] THEN INF ELSE NINF)
               ELSE Max2(Div(b[a][1] - ray.o[a], ray.d[a]), Div(b[a][2] - ray.o[a], ray.d[a]))
Own(i, lim) ==
  LET t0 == Max2(Enter(shapes[i], 1), Enter(shapes[i], 2))
      t1 == Min2(Leave(shapes[i], 1), Leave(shapes[i], 2))
      t == IF t0 > t1 THEN 0 ELSE IF t0 > 0 THEN t0 ELSE IF t1 > 0 THEN t1 ELSE 0
  IN IF t > 0 /\ t < INF /\ t <= lim THEN t ELSE 0
Brute == LET H == {Own(i, ray.tmax) : i \in Ids} \ {0} IN IF H = {} THEN 0 ELSE SetMin(H)

(* ---- bounding box test ---- *)
AxisTest(b, a, t0t1) ==
  IF t0t1 = <<>> THEN <<>>
  ELSE IF Variant # "negzero" /\ IsZero(ray.d[a])
       THEN IF ray.o[a] < b[a][1] \/ ray.o[a] > b[a][2] THEN <<>> ELSE t0t1
  ELSE LET n == Div(b[a][1] - ray.o[a], ray.d[a])
           f == Div(b[a][2] - ray.o[a], ray.d[a])
           near == IF Lt(f, n) THEN f ELSE n
           far == IF Lt(f, n) THEN n ELSE f
           t0 == IF Lt(t0t1[1], near) THEN near ELSE t0t1[1]
           t1 == IF Lt(far, t0t1[2]) THEN far ELSE t0t1[2]
       IN IF Lt(t1, t0) THEN <<>> ELSE <<t0, t1>>
BoxHit(b) == AxisTest(b, 2, AxisTest(b, 1, <<0, ray.tmax>>))

(* ---- build: nodes in preorder, as in the code ---- *)
Init ==
  /\ shapes \in [Ids -> Shapes]
  /\ ray \in [o : {<<x, y>> : x \in {-1, 0, 1, 2}, y \in {-1, 0, 1, 2, 4}}, d : Dirs, tmax : TMaxes]
  /\ (ray.o[1] + ray.o[2] + ray.d[1] + ray.d[2] + ray.tmax + Cardinality({shapes[i] : i \in Ids})) % 4 \in Part
  /\ nodes = <<>> /\ work = <<[ids |-> Ids, box |-> World, parent |-> 0, depth |-> MaxDepth]>>
  /\ phase = "build" /\ node = 0 /\ tmin = 0 /\ tmax = 0 /\ rmax = 0 /\ todo = <<>> /\ best = 0

Attach(ns, parent) == IF parent = 0 THEN ns ELSE [ns EXCEPT ![parent].above = Len(ns) + 1]
Leaf ==
  /\ phase = "build" /\ work # <<>>
  /\ LET w == work[1] IN
     /\ nodes' = Append(Attach(nodes, w.parent), [leaf |-> TRUE, ids |-> w.ids, axis |-> 0, t |-> 0, above |-> 0])
     /\ work' = Tail(work)
  /\ UNCHANGED <<shapes, ray, phase, node, tmin, tmax, rmax, todo, best>>
Split ==
  /\ phase = "build" /\ work # <<>>
  /\ LET w == work[1] IN
     /\ w.depth > 0 /\ Cardinality(w.ids) > 1
     /\ \E a \in 1..2, s \in w.ids, end \in {1, 2} :
          LET t == shapes[s][a][end]
              start(i) == shapes[i][a][1]
              stop(i) == shapes[i][a][2]
              ties == {i \in w.ids \ {s} : IF end = 1 THEN start(i) = t ELSE stop(i) = t}
          IN /\ w.box[a][1] < t /\ t < w.box[a][2]
             /\ \E B \in SUBSET ties :
                  LET below == IF end = 1 THEN {i \in w.ids : start(i) < t} \cup B
                               ELSE IF Variant = "losestart" THEN {i \in w.ids : start(i) < t} ELSE {i \in w.ids : start(i) <= t}
                      above == IF end = 1 THEN (IF Variant = "loseend" THEN {i \in w.ids : stop(i) > t} ELSE {i \in w.ids : stop(i) >= t})
                               ELSE {i \in w.ids : stop(i) > t} \cup B
                      ns == Append(Attach(nodes, w.parent), [leaf |-> FALSE, ids |-> {}, axis |-> a, t |-> t, above |-> 0])
                      me == Len(ns)
                  IN /\ nodes' = ns
                     /\ work' = <<[ids |-> below, box |-> [w.box EXCEPT ![a] = <<@[1], t>>], parent |-> 0, depth |-> w.depth - 1],
                                  [ids |-> above, box |-> [w.box EXCEPT ![a] = <<t, @[2]>>], parent |-> me, depth |-> w.depth - 1]>> \o Tail(work)
  /\ UNCHANGED <<shapes, ray, phase, node, tmin, tmax, rmax, todo, best>>
Ask ==
  /\ phase = "build" /\ work = <<>>
  /\ LET b == BoxHit(World) IN
     IF b = <<>> THEN phase' = "done" /\ UNCHANGED <<node, tmin, tmax, rmax>>
     ELSE phase' = "walk" /\ node' = 1 /\ tmin' = b[1] /\ tmax' = b[2] /\ rmax' = ray.tmax
  /\ UNCHANGED <<shapes, ray, nodes, work, todo, best>>

(* ---- traversal ---- *)
Pop == IF todo = <<>> THEN phase' = "done" /\ UNCHANGED <<node, tmin, tmax, todo>>
       ELSE /\ node' = todo[1][1] /\ tmin' = todo[1][2] /\ tmax' = todo[1][3] /\ todo' = Tail(todo) /\ UNCHANGED phase
Beyond ==                                    \* the node starts behind the nearest hit
  /\ phase = "walk" /\ Lt(rmax, tmin)
  /\ IF Variant = "break" THEN phase' = "done" /\ UNCHANGED <<node, tmin, tmax, todo>> ELSE Pop
  /\ UNCHANGED <<shapes, ray, nodes, work, rmax, best>>
Inner ==
  /\ phase = "walk" /\ ~Lt(rmax, tmin) /\ ~nodes[node].leaf
  /\ LET n == nodes[node]
         ts == Div(n.t - ray.o[n.axis], ray.d[n.axis])
         down == ray.o[n.axis] < n.t \/ (ray.o[n.axis] = n.t /\ (IsZero(ray.d[n.axis]) \/ ray.d[n.axis] < 0))
         first == IF down THEN node + 1 ELSE n.above
         second == IF down THEN n.above ELSE node + 1
     IN IF Lt(tmax, ts) \/ Le(ts, 0) THEN node' = first /\ UNCHANGED <<tmin, tmax, todo>>
        ELSE IF (IF Variant = "tie" THEN Le(ts, tmin) ELSE Lt(ts, tmin)) THEN node' = second /\ UNCHANGED <<tmin, tmax, todo>>
        ELSE node' = first /\ todo' = <<<<second, ts, tmax>>>> \o todo /\ tmax' = ts /\ UNCHANGED tmin
  /\ UNCHANGED <<shapes, ray, nodes, work, phase, rmax, best>>
AtLeaf ==
  /\ phase = "walk" /\ ~Lt(rmax, tmin) /\ nodes[node].leaf
  /\ LET H == {Own(i, rmax) : i \in nodes[node].ids} \ {0} IN
     IF H = {} THEN UNCHANGED <<rmax, best>>
     ELSE IF Variant = "lastwins" THEN best' = SetMax(H) /\ rmax' = SetMax(H) ELSE best' = SetMin(H) /\ rmax' = SetMin(H)
  /\ IF Variant = "firstleaf" /\ best' # 0 THEN phase' = "done" /\ UNCHANGED <<node, tmin, tmax, todo>> ELSE Pop
  /\ UNCHANGED <<shapes, ray, nodes, work>>

Next == Leaf \/ Split \/ Ask \/ Beyond \/ Inner \/ AtLeaf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameAnswer == phase = "done" => best = Brute
NothingLost == phase # "build" => {i \in Ids : \E n \in 1..Len(nodes) : nodes[n].leaf /\ i \in nodes[n].ids} = Ids
Ends == <>(phase = "done")
=============================================================================
