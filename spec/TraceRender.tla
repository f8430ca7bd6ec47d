----------------------------- MODULE TraceRender -----------------------------
(* Recorded renders against the claim "every position of the sample region   *)
(* exactly the requested number of times, by one worker, all of it in the    *)
(* image, or a visible failure and an untouched file".                       *)
EXTENDS TraceBase, FilmCore

VARIABLES cfg, rays, adds, owner, bad
tvars == <<l, cfg, rays, adds, owner, bad>>

FU == 32
TraceInit == l = 1 /\ cfg = [w |-> 0] /\ rays = <<>> /\ adds = <<>> /\ owner = <<>> /\ bad = 0

In(x, y) == /\ x >= RegionLo(FU, cfg.r) /\ x < RegionHi(FU, cfg.r, cfg.w)
            /\ y >= RegionLo(FU, cfg.r) /\ y < RegionHi(FU, cfg.r, cfg.h)
(* positions are numbered row by row; the counts are sequences *)
NX(c) == RegionHi(FU, c.r, c.w) - RegionLo(FU, c.r)
NY(c) == RegionHi(FU, c.r, c.h) - RegionLo(FU, c.r)
Idx(k) == (k[2] - RegionLo(FU, cfg.r)) * NX(cfg) + k[1] - RegionLo(FU, cfg.r) + 1
Zeros(c) == [i \in 1..(IF NX(c) > 0 /\ NY(c) > 0 THEN NX(c) * NY(c) ELSE 0) |-> 0]
Get(f, k) == IF In(k[1], k[2]) THEN f[Idx(k)] ELSE 0
Put(f, k, v) == IF In(k[1], k[2]) THEN [f EXCEPT ![Idx(k)] = v] ELSE f

(* the radiance the scripted scene emits at a position, in 1/256 *)
Level(x, y) == ((x * 7 + y * 13) % 200) + 20
Flat == cfg.r >= FU \div 2

Render == /\ Is("render") /\ Step
          /\ cfg' = Ev /\ rays' = (IF Ev.u = "large" THEN <<>> ELSE Zeros(Ev)) /\ adds' = rays' /\ owner' = rays' /\ bad' = 0

RayEv == /\ Is("ray") /\ Step
         /\ LET k == <<Ev.x, Ev.y>> IN
            /\ ChkX("a position outside the sample region is rendered", In(Ev.x, Ev.y), k)
            /\ ChkX("a position is sampled more often than requested", Get(rays, k) < cfg.spp, k)
            /\ ChkX("a position is handled by more than one worker", Get(owner, k) \in {0, Ev.t}, k)
            /\ rays' = Put(rays, k, Get(rays, k) + 1)
            /\ owner' = Put(owner, k, Ev.t)
         /\ UNCHANGED <<cfg, adds, bad>>
AddEv == /\ Is("add") /\ Step
         /\ LET k == <<Ev.x, Ev.y>> IN
            /\ ChkX("a sample is added that was not requested", Get(adds, k) < Get(rays, k), k)
            /\ adds' = Put(adds, k, Get(adds, k) + 1)
         /\ UNCHANGED <<cfg, rays, owner, bad>>
FaultEv == Is("fault") /\ Step /\ bad' = bad + 1 /\ UNCHANGED <<cfg, rays, adds, owner>>
PosEv == /\ Is("pos") /\ Step
         /\ LET k == <<Ev.x, Ev.y>> IN
            /\ ChkX("a position outside the sample region is rendered", In(Ev.x, Ev.y), k)
            /\ ChkX("a position is sampled more often than requested", Ev.n <= cfg.spp, k)
            /\ ChkX("a position is handled by more than one worker", Ev.th <= 1, k)
            /\ rays' = Put(rays, k, Ev.n) /\ adds' = Put(adds, k, Ev.a)
         /\ UNCHANGED <<cfg, owner, bad>>

PixelOK(i, px) ==
  LET x == (i - 1) % cfg.w  y == (i - 1) \div cfg.w
      v == IF Flat THEN 128 ELSE Level(x, y)
  IN \A c \in 0..2 : LevelOK(v, 1, px[3 * i - 2 + c])

(* a whole row of positions of a large render; the rows come in order *)
RowEv == /\ Is("row") /\ Step
         /\ ChkX("a row of the sample region is missing", Ev.y = RegionLo(FU, cfg.r) + bad, Ev.y)
         /\ ChkX("a position of the sample region is not sampled as often as requested", Len(Ev.n) = NX(cfg) /\ \A i \in 1..Len(Ev.n) : Ev.n[i] = cfg.spp, Ev.y)
         /\ ChkX("a sample of the render is not in the image", \A i \in 1..Len(Ev.a) : Ev.a[i] = cfg.spp, Ev.y)
         /\ ChkX("a position is handled by more than one worker", Ev.th <= 1, Ev.y)
         /\ bad' = bad + 1 /\ UNCHANGED <<cfg, rays, adds, owner>>
LargeEnd == /\ Is("end") /\ cfg.u = "large" /\ Step
            /\ Chk("the render fails although no worker failed", Ev.ok)
            /\ Ev.ok => /\ Chk("a row of the sample region is missing", bad = NY(cfg))
                        /\ Chk("the image is not complete", Ev.size)
                        /\ Ev.size => Chk("the image lacks samples", \A i \in 1..(cfg.w * cfg.h) : PixelOK(i, Ev.px))
            /\ UNCHANGED <<cfg, rays, adds, owner, bad>>

EndEv ==
  /\ Is("end") /\ cfg.u # "large" /\ Step
  /\ IF bad > 0
     THEN /\ Chk("C03 the render returns normally although a worker failed", ~Ev.ok)
          /\ Chk("C03 the output file was created or modified although a worker failed", Ev.same)
     ELSE /\ Chk("the render fails although no worker failed", Ev.ok)
          /\ Ev.ok /\ cfg.u \notin {"faulty", "free-fault"} =>
               /\ Chk("a position of the sample region is not sampled as often as requested", \A i \in 1..Len(rays) : rays[i] = cfg.spp)
               /\ Chk("a sample of the render is not in the image", \A i \in 1..Len(adds) : adds[i] = cfg.spp)
               /\ Chk("the image is not complete", Ev.size)
               /\ Ev.size => Chk("the image lacks samples", \A i \in 1..(cfg.w * cfg.h) : PixelOK(i, Ev.px))
  /\ UNCHANGED <<cfg, rays, adds, owner, bad>>

(* a render with many small tiles: least and greatest count of every cell of the region, least level of every run of pixels *)
StormEv ==
  /\ Is("storm") /\ Step
  /\ Chk("the render fails although no worker failed", Ev.ok)
  /\ Ev.ok => /\ Chk("a position outside the sample region is rendered", Ev.stray = 0)
              /\ Chk("a position of the sample region is not sampled as often as requested", \A i \in 1..Len(Ev.lo) : Ev.lo[i] = Ev.spp)
              /\ Chk("a position is sampled more often than requested", \A i \in 1..Len(Ev.hi) : Ev.hi[i] = Ev.spp)
              /\ Chk("the image is not complete", Ev.size)
              /\ Ev.size => Chk("the image lacks samples", LevelOK(128, 1, Ev.top) /\ \A i \in 1..Len(Ev.px) : Ev.px[i] = Ev.top)
  /\ UNCHANGED <<cfg, rays, adds, owner, bad>>
TraceNext == StormEv \/ RowEv \/ LargeEnd \/ Render \/ RayEv \/ AddEv \/ FaultEv \/ PosEv \/ EndEv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
