----------------------------- MODULE TraceHalton -----------------------------
(* Values of the real low-discrepancy sampler against the definition.        *)
(* v is the value times 2^30, rounded.                                       *)
EXTENDS TraceBase, HaltonCore

VARIABLES cfg,     \* e2, e3 of the region
          pix      \* current pixel: [x, y, first]
tvars == <<l, cfg, pix>>
TraceInit == l = 1 /\ cfg = [e2 |-> 0, e3 |-> 0, stride |-> 1] /\ pix = [x |-> 0, y |-> 0, first |-> 0]

Max == 128
IsPrime(n) == \A k \in 2..90 : k * k > n \/ n % k # 0
PrimeSet == {n \in 2..8161 : IsPrime(n)}
RECURSIVE PrimesFrom(_, _)
PrimesFrom(n, acc) == IF n > 8161 THEN acc ELSE PrimesFrom(n + 1, IF IsPrime(n) THEN Append(acc, n) ELSE acc)
Primes == PrimesFrom(2, <<>>)

Config == /\ Is("region") /\ Step
          /\ LET e2 == ExpFor(2, Min2(Ev.w, Max), 0)  e3 == ExpFor(3, Min2(Ev.h, Max), 0)
             IN cfg' = [e2 |-> e2, e3 |-> e3, stride |-> Pow(2, e2) * Pow(3, e3)]
          /\ UNCHANGED pix

(* first point in the cell: search along the column of the first coordinate *)
FirstIndex(x, y) ==
  LET c == CellOfPixel(x, y, Max, cfg.e2, cfg.e3)
      a == Reverse(2, c[1], cfg.e2)
      b == Reverse(3, c[2], cfg.e3)
      p2 == Pow(2, cfg.e2)  p3 == Pow(3, cfg.e3)
      t == CHOOSE t \in 0..(p3 - 1) : (a + p2 * t) % p3 = b
  IN a + p2 * t
Pixel == /\ Is("pixel") /\ Step /\ pix' = [x |-> Ev.x, y |-> Ev.y, first |-> FirstIndex(Ev.x, Ev.y)] /\ UNCHANGED cfg

Want(i, d) == CASE d = 0 -> RI(2, i \div Pow(2, cfg.e2))
                [] d = 1 -> RI(3, i \div Pow(3, cfg.e3))
                [] OTHER -> RI(Primes[d + 1], i)
Tol == 260
(* k: sample number; d: first dimension; v: consecutive dimensions *)
Vals == /\ Is("vals") /\ Step
        /\ LET i == pix.first + Ev.k * cfg.stride IN
           \A j \in 1..Len(Ev.v) :
             LET d == Ev.d[j] IN
             ChkX(CASE d < 2 -> "the sample is not the point of the pixel's cell" [] OTHER -> "not the radical inverse of the point's index",
                  Abs(Ev.v[j] - Want(i, d)) <= Tol, <<d, Ev.v[j], Want(i, d)>>)
        /\ UNCHANGED <<cfg, pix>>
Panic == Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what) /\ UNCHANGED <<cfg, pix>>
TraceNext == Config \/ Pixel \/ Vals \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
