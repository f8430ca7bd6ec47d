----------------------------- MODULE TraceFilm ------------------------------
(* Recorded film histories against the definition of a pixel (FilmCore).     *)
EXTENDS TraceBase, FilmCore

VARIABLES cfg,      \* current film
          open,     \* samples of unmerged tiles: [tile id -> sequence]
          merged    \* samples merged into the film
tvars == <<l, cfg, open, merged>>

FU == 32

TraceInit == l = 1 /\ cfg = [kind |-> "none"] /\ open = <<>> /\ merged = <<>>

Film ==
  /\ Is("film") /\ Step
  /\ cfg' = [kind |-> IF Ev.u = "sparse" THEN "sparse" ELSE "film", w |-> Ev.w, h |-> Ev.h, r |-> Ev.r, tab |-> Ev.tab]
  /\ open' = <<>> /\ merged' = <<>>

Add ==
  /\ Is("add") /\ Step
  /\ open' = LET s == IF Ev.ok THEN <<[x |-> Ev.x, y |-> Ev.y, c |-> Ev.c]>> ELSE <<>>
             IN IF Ev.t \in DOMAIN open THEN [open EXCEPT ![Ev.t] = @ \o s] ELSE open @@ (Ev.t :> s)
  /\ UNCHANGED <<cfg, merged>>

Merge ==
  /\ Is("merge") /\ Step
  /\ merged' = IF Ev.t \in DOMAIN open THEN merged \o open[Ev.t] ELSE merged
  /\ open' = [t \in DOMAIN open \ {Ev.t} |-> open[t]]
  /\ UNCHANGED cfg

(* <<sum of weights, sums of weight * colour>> of one pixel *)
RECURSIVE Acc(_, _, _, _, _)
Acc(row, px, py, i, a) ==
  IF i > Len(row) THEN a
  ELSE LET s == row[i] IN
       IF Reaches(FU, cfg.r, px, s.x)
       THEN LET w == Weight(FU, cfg.r, cfg.tab, px, py, s.x, s.y)
            IN Acc(row, px, py, i + 1, <<a[1] + w, a[2] + w * s.c[1], a[3] + w * s.c[2], a[4] + w * s.c[3]>>)
       ELSE Acc(row, px, py, i + 1, a)

(* weights may be negative and cancel *)
MeanOK(num, den, k) == IF den = 0 THEN num # 0 \/ k = 0
                       ELSE IF den < 0 THEN (IF num > 0 THEN k = 0 ELSE LevelOK(-num, -den, k))
                       ELSE IF num < 0 THEN k = 0 ELSE LevelOK(num, den, k)
ValueOK(px, py, row, k) ==
  LET a == Acc(row, px, py, 1, <<0, 0, 0, 0>>)
  IN \A c \in 1..3 : MeanOK(a[c + 1], a[1], k[c])
PixelOK(px, py, row) ==
  LET o == 3 * (py * cfg.w + px)
  IN ValueOK(px, py, row, <<Ev.px[o + 1], Ev.px[o + 2], Ev.px[o + 3]>>)

(* a large image is given as runs <<length, r, g, b>> of equal pixels *)
RECURSIVE RunAt(_, _, _)
RunAt(runs, i, k) == IF i > Len(runs) THEN <<-1, -1, -1>> ELSE IF k < runs[i][1] THEN <<runs[i][2], runs[i][3], runs[i][4]>> ELSE RunAt(runs, i + 1, k - runs[i][1])
RECURSIVE Lit(_, _, _)
Lit(runs, i, a) == IF i > Len(runs) THEN a
                   ELSE LET r == runs[i] IN Lit(runs, i + 1, <<a[1] + r[1], a[2] + IF r[2] = 0 /\ r[3] = 0 /\ r[4] = 0 THEN 0 ELSE r[1]>>)
(* pixels that some sample may reach *)
Touched == LET R == cfg.r \div FU + 1 IN
  UNION {{<<px, py>> : px \in {x \in ((s.x \div FU) - R)..((s.x \div FU) + R) : x >= 0 /\ x < cfg.w /\ Reaches(FU, cfg.r, x, s.x)},
                      py \in {y \in ((s.y \div FU) - R)..((s.y \div FU) + R) : y >= 0 /\ y < cfg.h /\ Reaches(FU, cfg.r, y, s.y)}} : s \in {merged[i] : i \in 1..Len(merged)}}
Sparse ==
  LET n == Lit(Ev.runs, 1, <<0, 0>>)
      T == TLCEval(Touched)
  IN /\ Chk("C06 header is P3, width, height, 255", Ev.magic = "P3" /\ Ev.w = cfg.w /\ Ev.h = cfg.h /\ Ev.max = 255)
     /\ ChkX("C06 exactly width*height triples of integers 0..255", Ev.bad = 0 /\ Ev.n = 3 * cfg.w * cfg.h /\ n[1] = cfg.w * cfg.h, <<Ev.n, n>>)
     /\ \A p \in T : LET row == SelectSeq(merged, LAMBDA s : Reaches(FU, cfg.r, p[2], s.y))
                     IN ChkX("pixel is not the filter-weighted mean of the samples within the radius", ValueOK(p[1], p[2], row, RunAt(Ev.runs, 1, p[2] * cfg.w + p[1])), p)
     \* no pixel is lit but these
     /\ Chk("a pixel no sample reached is not black", n[2] = Cardinality({p \in T : RunAt(Ev.runs, 1, p[2] * cfg.w + p[1]) # <<0, 0, 0>>}))

Shape(w, h) ==
  /\ Chk("C06 header is P3, width, height, 255", Ev.magic = "P3" /\ Ev.w = w /\ Ev.h = h /\ Ev.max = 255)
  /\ Chk("C06 exactly width*height triples of integers 0..255", Ev.bad = 0 /\ Len(Ev.px) = 3 * w * h /\ \A i \in 1..Len(Ev.px) : Ev.px[i] \in 0..255)

Img ==
  /\ Is("img") /\ Step
  /\ CASE cfg.kind = "film" ->
           /\ Shape(cfg.w, cfg.h)
           /\ Len(Ev.px) = 3 * cfg.w * cfg.h =>
                \A py \in 0..(cfg.h - 1) :
                  LET row == SelectSeq(merged, LAMBDA s : Reaches(FU, cfg.r, py, s.y))
                  IN \A px \in 0..(cfg.w - 1) :
                       ChkX("pixel is not the filter-weighted mean of the samples within the radius", PixelOK(px, py, row), <<px, py>>)
       [] cfg.kind = "sparse" -> Sparse
       [] cfg.kind = "codes" ->
           /\ Shape(cfg.w, 1)
           /\ Len(Ev.px) = 3 * cfg.w =>
                /\ \A i \in 1..cfg.w : \A c \in 0..2 :
                     ChkX("level is not the nearest sRGB level", IF c = (i - 1) % 3 THEN LevelOfOK(cfg.v[i], Ev.px[3 * (i - 1) + c + 1]) ELSE Ev.px[3 * (i - 1) + c + 1] = 0, <<i, c>>)
                /\ \A i \in 1..(cfg.w - 1) :
                     ChkX("a larger value maps to a smaller level", Ev.px[3 * (i - 1) + ((i - 1) % 3) + 1] <= Ev.px[3 * i + (i % 3) + 1], i)
       [] cfg.kind = "hull" ->
           /\ Shape(cfg.w, cfg.h)
           /\ Len(Ev.px) = 3 * cfg.w * cfg.h =>
                \A i \in 1..Len(Ev.px) :
                  LET c == ((i - 1) % 3) + 1  k == Ev.px[i]
                  IN ChkX("mean outside the samples' range", LevelOK(cfg.hi[c], 1, k) \/ LevelOK(cfg.lo[c], 1, k)
                          \/ (k > 0 /\ k <= 255 /\ cfg.hi[c] * 4096 > SRGB[k] /\ (k = 255 \/ cfg.lo[c] * 4096 < SRGB[k + 1])) \/ (k = 0 /\ cfg.lo[c] * 4096 < SRGB[1]), i)
       [] OTHER -> TRUE
  /\ cfg' = [kind |-> "none"] /\ open' = <<>> /\ merged' = <<>>

Codes == Is("codes") /\ Step /\ cfg' = [kind |-> "codes", w |-> Ev.w, v |-> Ev.v] /\ UNCHANGED <<open, merged>>
Hull == Is("hull") /\ Step /\ cfg' = [kind |-> "hull", w |-> Ev.w, h |-> Ev.h, lo |-> Ev.lo, hi |-> Ev.hi] /\ UNCHANGED <<open, merged>>

(* the Gaussian, truncated to zero at its radius *)
Gauss == /\ Is("gauss") /\ Step /\ Chk("filter radius", Ev.radius = Ev.r)
         /\ cfg' = [kind |-> "gauss", r |-> Ev.r, alpha |-> Ev.alpha] /\ UNCHANGED <<open, merged>>
G(d) == FMax(0, EXP32[(cfg.alpha * d * d) \div 2 + 1] - EXP32[(cfg.alpha * cfg.r * cfg.r) \div 2 + 1])
GVal == /\ Is("gval") /\ Step
        /\ ChkX("Gaussian filter value", Abs(Ev.v - G(Ev.x) * G(Ev.y)) <= 70000, G(Ev.x) * G(Ev.y))
        /\ UNCHANGED <<cfg, open, merged>>

Panic == /\ Is("panic") /\ Step /\ ChkX("panic", FALSE, Ev.what)
         /\ cfg' = [kind |-> "none"] /\ open' = <<>> /\ merged' = <<>>

TraceNext == Film \/ Add \/ Merge \/ Img \/ Codes \/ Hull \/ Gauss \/ GVal \/ Panic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
