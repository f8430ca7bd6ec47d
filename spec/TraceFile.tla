------------------------------ MODULE TraceFile ------------------------------
(* Recorded writes of images: a normal return means the file is the image.   *)
(* `len`, `ref`: bytes in the file / of the reference image; `diff`: first    *)
(* differing byte or -1; `limit`: bytes the device takes (-1: all).           *)
EXTENDS TraceBase
tvars == <<l>>
TraceInit == l = 1

Can(limit, ref) == limit = -1 \/ limit >= ref
Write ==
  /\ Is("write") /\ Step
  /\ Ev.ok => /\ ChkX("the render returned normally but the file is not exactly the new image", Ev.len = Ev.ref /\ Ev.diff = -1, <<Ev.len, Ev.ref, Ev.diff>>)
              /\ ChkX("a write failed but the render returned normally", Can(Ev.limit, Ev.ref), Ev.limit)
  /\ ~Ev.ok => ChkX("the render failed although everything could be written", ~Can(Ev.limit, Ev.ref), Ev.limit)
  /\ Chk("the reference image is not a complete PPM", Ev.refok)
TraceNext == Write
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
