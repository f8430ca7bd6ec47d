------------------------------- MODULE PathCore -------------------------------
(* The radiance a path must bring back, over tables that say what every ray    *)
(* meets, how every place scatters, what every light sends and what is blocked.*)
(* Fixed point: radiance in 2^-16; tables: emission in 1/4, scattering values  *)
(* in 1/16, densities in 1/4, cosines in 1/5.                                  *)
EXTENDS Integers, Sequences, TLC

Cos5 == <<5, 5, 4, 4, 4, 4, 3, 3, 3, 3>>
IsUp(d) == d % 2 = 1
Opp(d) == IF IsUp(d) THEN d + 1 ELSE d - 1
MulDiv(xx, pp, rr) == LET x == TLCEval(xx) p == TLCEval(pp) r == TLCEval(rr) IN (x \div r) * p + ((x % r) * p) \div r
C == 1..3
Zero == <<0, 0, 0>>
Black(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] = 0
Plus(aa, bb) == LET a == TLCEval(aa) b == TLCEval(bb) IN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Scaled(vv, pp, rr) == LET v == TLCEval(vv) p == TLCEval(pp) r == TLCEval(rr) IN <<MulDiv(v[1], p, r), MulDiv(v[2], p, r), MulDiv(v[3], p, r)>>
(* channel by channel f (1/16) times x *)
Times(ff, xx) == LET f == TLCEval(ff) x == TLCEval(xx) IN <<MulDiv(x[1], f[1], 16), MulDiv(x[2], f[2], 16), MulDiv(x[3], f[3], 16)>>
RECURSIVE PlusAll(_, _)
PlusAll(s, i) == IF i > Len(s) THEN Zero ELSE Plus(s[i], PlusAll(s, i + 1))
RECURSIVE SumUp(_, _)
SumUp(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumUp(s, i + 1)

(* ---- a place's scattering as a whole: lobes that are not specular *)
Value(w, k, wo, wi) == PlusAll([n \in 1..Len(w.lobes[k]) |-> LET b == w.lobes[k][n] IN
                          IF b.spec THEN Zero ELSE [c \in C |-> b.f[wi][c] * b.wf[wo]]], 1)
(* sum of the lobes' densities, to be divided by their number *)
Density(w, k, wi) == SumUp([n \in 1..Len(w.lobes[k]) |-> IF w.lobes[k][n].spec THEN 0 ELSE w.lobes[k][n].pdf[wi]], 1)
Picked(w, k, j) == ((2 * j - 1) * Len(w.lobes[k])) \div (2 * w.j) + 1

(* ---- emission of what a ray along d meets at place k *)
Light4(v) == <<16384 * v[1], 16384 * v[2], 16384 * v[3]>>
(* the directions in fifths; none is in the plane of another *)
Fifths == <<<<0, 0, 5>>, <<0, 0, -5>>, <<3, 0, 4>>, <<-3, 0, -4>>, <<-3, 0, 4>>, <<3, 0, -4>>, <<0, 4, 3>>, <<0, -4, -3>>, <<0, -4, 3>>, <<0, 4, -3>>>>
Faces(w, k, d) == LET n == Fifths[w.gs[k]] v == Fifths[d] IN (n[1] * v[1] + n[2] * v[2]) + n[3] * v[3] < 0
Emitted(w, k, d) == IF w.emit[k] = 0 THEN Light4(w.glow[k])
                    ELSE IF Faces(w, k, d) THEN Light4(w.lights[w.emit[k]].l) ELSE Zero

(* ---- direct light at place k, arrived along d, from light i by sample point j *)
ByLight(w, k, d, i, j) ==
  LET t == w.lights[i]
      wi == IF t.area THEN t.dirs[k][j] ELSE t.dir
      li == IF ~t.area \/ t.face[k][j] = 1 THEN Light4(t.l) ELSE Zero
      f == Value(w, k, Opp(d), wi)
      n == Len(w.lobes[k])
      a == IF t.area THEN t.pdf[k][wi] * n ELSE 0
      b == Density(w, k, wi)
      x == Scaled(Times(f, li), Cos5[wi], 5)
  IN IF n = 0 \/ Black(f) \/ Black(li) \/ w.blk[k][wi] = 1 THEN Zero
     ELSE IF ~t.area THEN x
     ELSE IF a = 0 THEN Zero
     ELSE Scaled(Scaled(x, 4, t.pdf[k][wi]), a * a, a * a + b * b)
ByScattering(w, k, d, i, j) ==
  LET t == w.lights[i]
      n == Len(w.lobes[k])
      lobe == w.lobes[k][Picked(w, k, j)]
      wi == lobe.out[j]
      f == Value(w, k, Opp(d), wi)
      a == t.pdf[k][wi] * n
      b == Density(w, k, wi)
      hit == w.next[k][wi]
      li == IF hit > 0 THEN (IF w.emit[hit] = i THEN Emitted(w, hit, wi) ELSE Zero) ELSE Zero
  IN IF n = 0 THEN Zero
     ELSE IF ~t.area \/ lobe.spec THEN Zero
     ELSE IF a = 0 \/ b = 0 \/ Black(f) \/ Black(li) THEN Zero
     ELSE Scaled(Scaled(Scaled(Times(f, li), Cos5[wi], 5), 4 * n, b), b * b, a * a + b * b)

(* ---- what one draw j takes the path along: direction and gain *)
Step1(w, k, d, j) ==
  LET n == Len(w.lobes[k])
      lobe == w.lobes[k][Picked(w, k, j)]
      wi == lobe.out[j]
      f == IF lobe.spec THEN [c \in C |-> lobe.f[wi][c] * lobe.wf[Opp(d)]] ELSE Value(w, k, Opp(d), wi)
      p == IF lobe.spec THEN lobe.pdf[wi] ELSE Density(w, k, wi)
  IN IF n = 0 THEN [ends |-> TRUE] ELSE IF p = 0 \/ Black(f) THEN [ends |-> TRUE]
     ELSE [ends |-> FALSE, wi |-> wi, f |-> f, num |-> Cos5[wi] * 4 * n, den |-> 5 * p, spec |-> lobe.spec]
Gain(s, x) == Scaled(Times(s.f, x), s.num, s.den)

MeanOver(vals) == LET n == Len(vals) IN Scaled(PlusAll(vals, 1), 1, n)
(* direct light: over the sample points js and the lights is, each chosen with *)
(* probability one over their number                                           *)
Direct(w, k, d, is, js) ==
  IF Len(w.lights) = 0 THEN Zero ELSE
  LET n == Len(w.lights)
      one(i) == Plus(MeanOver([x \in 1..Len(js) |-> ByLight(w, k, d, i, js[x])]), MeanOver([x \in 1..Len(js) |-> ByScattering(w, k, d, i, js[x])]))
  IN Scaled(PlusAll([x \in 1..Len(is) |-> one(is[x])], 1), n, Len(is))

(* the radiance that comes along d from place k; b: bounces so far *)
RECURSIVE Radiance(_, _, _, _, _, _, _)
Radiance(w, k, d, seen, b, is, js) ==
  IF k = 0 THEN Zero ELSE
  LET e == IF seen THEN Emitted(w, k, d) ELSE Zero IN
  IF b > 64 THEN e ELSE
  LET on(j) == LET s == Step1(w, k, d, j) IN
               IF s.ends THEN Zero ELSE Gain(s, Radiance(w, w.next[k][s.wi], s.wi, s.spec, b + 1, is, js))
  IN Plus(e, Plus(Direct(w, k, d, is, js), MeanOver([x \in 1..Len(js) |-> on(js[x])])))

(* a path whose 2-D draws are all point j: what each place on it adds by itself, *)
(* and the step that leads on from it                                            *)
RECURSIVE Chain(_, _, _, _, _, _, _, _)
Chain(w, k, d, seen, b, is, j, acc) ==
  IF k = 0 THEN acc ELSE
  LET e == TLCEval(IF seen THEN Emitted(w, k, d) ELSE Zero) IN
  IF b > 64 THEN Append(acc, [own |-> e, step |-> [ends |-> TRUE]]) ELSE
  LET s == TLCEval(Step1(w, k, d, j))
      here == TLCEval(Append(acc, [own |-> Plus(e, Direct(w, k, d, is, <<j>>)), step |-> s]))
  IN IF s.ends THEN here ELSE Chain(w, TLCEval(w.next[k][s.wi]), TLCEval(s.wi), TLCEval(s.spec), b + 1, is, j, here)
(* places b.. up to `last` (0 is the first); the path's weight is divided by     *)
(* qs[m]/2^15 where bounce m is survived at random                               *)
(* Vast: too great to be followed in 32 bits, whatever is made of it *)
Vast == 67108864
Led(o, x, f, num, den, q) ==
  IF x >= Vast THEN Vast
  ELSE LET y == TLCEval(MulDiv(MulDiv(x, f, 16), num, den))
       IN IF y \div q >= Vast \div 32768 THEN Vast ELSE LET r == TLCEval(o + MulDiv(y, 32768, q)) IN IF r >= Vast THEN Vast ELSE r
RECURSIVE Cut(_, _, _, _)
Cut(chain, b, last, qs) ==
  IF b >= Len(chain) \/ b > last THEN Zero ELSE
  IF b + 1 >= Len(chain) \/ b = last THEN chain[b + 1].own ELSE
  LET x == TLCEval(Cut(chain, b + 1, last, qs))
      s == TLCEval(chain[b + 1].step)
      o == TLCEval(chain[b + 1].own)
      q == TLCEval(qs[b + 1])
  IN TLCEval(<<Led(o[1], x[1], s.f[1], s.num, s.den, q), Led(o[2], x[2], s.f[2], s.num, s.den, q), Led(o[3], x[3], s.f[3], s.num, s.den, q)>>)
=============================================================================
