---------------------------- MODULE TraceSampler -----------------------------
(* Recorded call histories of the real samplers against the protocol.        *)
(* Values are recorded as their bit patterns (order preserving integers).    *)
EXTENDS TraceBase

VARIABLES kind, spp,
          s,        \* the samplers: [x, y, k, d, over]
          memo,     \* low discrepancy: <<x, y, k, d>> -> value
          drawn     \* random: values drawn by each sampler
tvars == <<l, kind, spp, s, memo, drawn>>
TraceInit == l = 1 /\ kind = "" /\ spp = 0 /\ s = <<>> /\ memo = <<>> /\ drawn = <<>>

One == 1065353216          \* bit pattern of 1.0
New == /\ Is("new") /\ Step /\ kind' = Ev.kind /\ spp' = Ev.spp
       /\ s' = <<[x |-> 0, y |-> 0, k |-> 0, d |-> 0, over |-> TRUE]>> /\ memo' = <<>> /\ drawn' = <<<<>>>>
Start == /\ Is("start") /\ Step /\ s' = [s EXCEPT ![Ev.s] = [x |-> Ev.x, y |-> Ev.y, k |-> 0, d |-> 0, over |-> FALSE]]
         /\ UNCHANGED <<kind, spp, memo, drawn>>
NextS == /\ Is("next") /\ Step
         /\ LET k1 == s[Ev.s].k + 1 IN
            /\ ChkX("the sampler does not offer exactly the requested number of samples", Ev.more = (k1 < spp), <<k1, spp>>)
            /\ s' = [s EXCEPT ![Ev.s].k = k1, ![Ev.s].d = 0, ![Ev.s].over = (k1 >= spp)]
         /\ UNCHANGED <<kind, spp, memo, drawn>>
Clone == /\ Is("clone") /\ Step /\ s' = Append(s, s[Ev.s]) /\ drawn' = Append(drawn, <<>>) /\ UNCHANGED <<kind, spp, memo>>

Key(t, j) == <<t.x, t.y, t.k, t.d + j - 1>>
RECURSIVE Learn(_, _, _, _)
Learn(m, t, v, j) == IF j > Len(v) THEN m ELSE Learn(IF Key(t, j) \in DOMAIN m THEN m ELSE m @@ (Key(t, j) :> v[j]), t, v, j + 1)
Get == /\ Is("get") /\ Step
       /\ LET t == s[Ev.s] IN
          /\ \A j \in 1..Len(Ev.v) : ChkX("a value outside [0,1)", Ev.v[j] >= 0 /\ Ev.v[j] < One, Ev.v[j])
          /\ kind = "halton" => \A j \in 1..Len(Ev.v) :
               Key(t, j) \in DOMAIN memo => ChkX("a value is not a function of pixel, sample number and dimension", memo[Key(t, j)] = Ev.v[j], Key(t, j))
          /\ memo' = IF kind = "halton" THEN Learn(memo, t, Ev.v, 1) ELSE memo
          /\ drawn' = IF kind = "random" THEN [drawn EXCEPT ![Ev.s] = @ \o Ev.v] ELSE drawn
          /\ s' = [s EXCEPT ![Ev.s].d = @ + Len(Ev.v)]
       /\ UNCHANGED <<kind, spp>>
(* get_camera_sample: the pixel plus the next two dimensions, in 2^-12 pixel; v: the same two, drawn from a clone *)
Cam == /\ Is("cam") /\ Step
       /\ Chk("a camera sample is not the pixel plus the next two values", kind = "halton" => Abs(Ev.fx - Ev.vx) <= 2 /\ Abs(Ev.fy - Ev.vy) <= 2)
       /\ Chk("a camera sample leaves its pixel", Ev.fx >= 0 /\ Ev.fx <= 4096 /\ Ev.fy >= 0 /\ Ev.fy <= 4096)
       /\ s' = [s EXCEPT ![Ev.s].d = @ + 2]
       /\ UNCHANGED <<kind, spp, memo, drawn>>

Triples(q) == {<<q[i], q[i + 1], q[i + 2]>> : i \in 1..(Len(q) - 2)}
End == /\ Is("end") /\ Step
       /\ kind = "random" => \A i, j \in 1..Len(drawn) : i < j =>
            ChkX("clones of the random sampler repeat one another's values", Triples(drawn[i]) \cap Triples(drawn[j]) = {}, <<i, j>>)
       /\ UNCHANGED <<kind, spp, s, memo, drawn>>
(* n: samples offered for a pixel, the same again and another *)
Count == /\ Is("count") /\ Step /\ UNCHANGED <<kind, spp, s, memo, drawn>>
         /\ ChkX("the sampler does not offer exactly the requested number of samples", \A i \in 1..3 : Ev.n[i] = Ev.spp, <<Ev.kind, Ev.spp, Ev.n>>)
(* counts of n values in 4096 equal cells: more than eight standard deviations off is no chance *)
Uniform == /\ Is("uniform") /\ Step /\ UNCHANGED <<kind, spp, s, memo, drawn>>
           /\ LET mean == Ev.n \div 4096
                  odd == {i \in 1..4096 : (Ev.c[i] - mean) * (Ev.c[i] - mean) > 72 * mean}
              IN ChkX("values of the random sampler are not uniform", odd = {}, <<Ev.what, mean, {<<i, Ev.c[i]>> : i \in odd}>>)
           /\ Chk("the random sampler repeats itself", Ev.same <= 40)
(* the first three values of n samplers, each new or a clone *)
Crowd == /\ Is("crowd") /\ Step /\ UNCHANGED <<kind, spp, s, memo, drawn>>
         /\ LET seen == {Ev.h[i] : i \in DOMAIN Ev.h}
            IN ChkX("clones of the random sampler repeat one another's values", Cardinality(seen) = Ev.n, <<Ev.n, Cardinality(seen)>>)
(* bit patterns of the smallest and the largest of very many values *)
Extent == /\ Is("extent") /\ Step /\ UNCHANGED <<kind, spp, s, memo, drawn>>
          /\ ChkX("a value outside [0,1)", Ev.lo >= 0 /\ Ev.hi < One, <<Ev.lo, Ev.hi>>)
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED <<kind, spp, s, memo, drawn>>
TraceNext == New \/ Start \/ NextS \/ Clone \/ Get \/ Cam \/ End \/ Count \/ Uniform \/ Crowd \/ Extent \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
