----------------------------- MODULE HaltonCore -----------------------------
(* Digits, radical inverses and the block of a sample region, in exact       *)
(* integer arithmetic.                                                       *)
EXTENDS Integers, Sequences

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Digits(_, _, _)                 \* n lowest digits of a, lowest first
Digits(b, a, n) == IF n = 0 THEN <<>> ELSE <<a % b>> \o Digits(b, a \div b, n - 1)
RECURSIVE FromHigh(_, _, _, _)            \* value of a digit sequence, highest digit first
FromHigh(b, ds, i, v) == IF i > Len(ds) THEN v ELSE FromHigh(b, ds, i + 1, v * b + ds[i])
Reverse(b, a, n) == FromHigh(b, Digits(b, a, n), 1, 0)

(* smallest power of b that covers n cells (at most Max cells) *)
RECURSIVE ExpFor(_, _, _)
ExpFor(b, n, e) == IF Pow(b, e) >= n THEN e ELSE ExpFor(b, n, e + 1)

(* cell of a point of the sequence: leading digits of its two coordinates *)
CellOf(i, e2, e3) == <<Reverse(2, i % Pow(2, e2), e2), Reverse(3, i % Pow(3, e3), e3)>>
CellOfPixel(x, y, Max, e2, e3) == <<(x % Max) % Pow(2, e2), (y % Max) % Pow(3, e3)>>

(* radical inverse of a in base b as a multiple of 2^-30, up to 2 units.     *)
(* Horner from the highest digit: v := (d + v) / b, in two 15-bit limbs.     *)
RI1(b, d, v) ==
  LET h == d * 32768 + v \div 32768
      qh == h \div b
      lo == (h % b) * 32768 + (v % 32768)
  IN qh * 32768 + lo \div b
RECURSIVE RI(_, _)
RI(b, a) == IF a = 0 THEN 0 ELSE RI1(b, a % b, RI(b, a \div b))
=============================================================================
