----------------------------- MODULE OpticsCore ------------------------------
(* Laws of optics in fixed point: cosines in 2^-12, indices in 1/64, the      *)
(* reflected fraction in 2^-14.                                               *)
EXTENDS Integers, Sequences, TLC

RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN RootIn(x, m, hi) ELSE RootIn(x, lo, m)
Root(xx) == LET x == TLCEval(xx) IN RootIn(x, 0, 46341)
(* x p / r without leaving 32 bits *)
Scaled(xx, pp, rr) == LET x == TLCEval(xx) p == TLCEval(pp) r == TLCEval(rr) IN (x \div r) * p + ((x % r) * p) \div r
Sq(xx) == LET x == TLCEval(xx) IN x * x

C1 == 4096
(* squared sine of the refracted direction, in 2^-24, from the side with index no to the side with ni *)
BentSin2(c, no, ni) == Scaled(C1 * C1 - c * c, no * no, ni * ni)
Total(c, no, ni) == BentSin2(c, no, ni) >= C1 * C1
BentCos(c, no, ni) == Root(C1 * C1 - BentSin2(c, no, ni))
(* amplitudes in 2^-11 *)
Amp(a, b) == LET x == TLCEval(a) y == TLCEval(b) IN ((x - y) * 2048) \div (x + y)
DielectricAt(c, ct, no, ni) == (Sq(Amp(no * c, ni * ct)) + Sq(Amp(ni * c, no * ct))) \div 512
Dielectric(c, no, ni) == IF Total(c, no, ni) THEN 16384 ELSE LET ct == TLCEval(BentCos(c, no, ni)) IN DielectricAt(c, ct, no, ni)

(* Media that hardly differ: one has index 1, the other one 1 + e / 4096 with e below 64.                    *)
(* cos'^2 = c^2 + s^2 (1 - 1 / n^2) from outside, and c^2 - s^2 (n^2 - 1) from inside, in 2^-24.             *)
Excess(c, e) == (((C1 * C1 - c * c) \div 4096) * (8192 * e + e * e)) \div 4096
SubtleCos2(c, e, below) == IF below THEN c * c - Excess(c, e) ELSE c * c + Scaled(Scaled(Excess(c, e), C1, C1 + e), C1, C1 + e)
(* amplitudes in 2^-14 *)
Amp14(a, b) == LET x == TLCEval(a) y == TLCEval(b) IN ((x - y) * 16384) \div (x + y)
SubtleAt(ct, c, e, below) == LET no == IF below THEN C1 + e ELSE C1
                                 ni == IF below THEN C1 ELSE C1 + e
                                 (* n c and n' c' in 2^-14 *)
                                 p(n, x) == (n * x) \div 1024
                             IN (Sq(Amp14(p(no, c), p(ni, ct))) \div 32768) + (Sq(Amp14(p(ni, c), p(no, ct))) \div 32768)
Subtle(c, e, below) == LET x == TLCEval(SubtleCos2(c, e, below)) IN IF x <= 0 THEN 16384 ELSE SubtleAt(TLCEval(Root(x)), c, e, below)

(* conductor: index eta + i k seen from index 1, everything below in 2^-10 *)
Conductor(cos, eta, k) ==
  LET c == cos \div 4
      c2 == TLCEval((cos * cos) \div 16384)
      s2 == 1024 - c2
      e2 == (eta * eta) \div 4
      k2 == (k * k) \div 4
      t0 == TLCEval(e2 - k2 - s2)
      m == TLCEval(Root(t0 * t0 + 4 * e2 * k2))
      t1 == m + c2
      a == TLCEval(Root(((m + t0) \div 2) * 1024))
      t2 == TLCEval((2 * a * c) \div 1024)
      rs == TLCEval(((t1 - t2) * 16384) \div (t1 + t2))
      t3 == TLCEval((m * c2) \div 1024 + (s2 * s2) \div 1024)
      t4 == TLCEval((t2 * s2) \div 1024)
      rp == IF t3 + t4 = 0 THEN rs ELSE Scaled(rs, t3 - t4, t3 + t4)
  IN (rs + rp) \div 2
=============================================================================
