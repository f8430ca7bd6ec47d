-------------------------------- MODULE Camera --------------------------------
(* A pinhole camera that is moved over its raster one step at a time.  The    *)
(* maps of the camera (raster to window by translation and two scalings,      *)
(* window to camera space by the field of view, camera space to the world by  *)
(* the look-at frame) are applied to the raster position; independently, the  *)
(* point of the window is moved by equal steps from the upper-left corner.    *)
(* Everything is kept in integers: window coordinates are multiplied by the   *)
(* resolution, directions by the denominator of the field of view.            *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Size, Variant

VARIABLES win,        \* <<x0, y0, x1, y1>>
          res, tan,   \* <<width, height>>; half field of view as <<numerator, denominator>>
          d, up,      \* directions to the target and upwards
          p,          \* raster position
          at          \* window point, times width (x) and height (y)
vars == <<win, res, tan, d, up, p, at>>

Windows == {<<-1, -1, 1, 1>>, <<-2, -1, 2, 1>>, <<0, -2, 2, 1>>} \cup (IF Size > 1 THEN {<<-3, -5, -1, -2>>, <<1, 0, 4, 7>>} ELSE {})
Resolutions == {<<2, 2>>, <<4, 2>>, <<3, 2>>, <<1, 3>>} \cup (IF Size > 1 THEN {<<8, 6>>, <<5, 9>>} ELSE {})
Tans == {<<1, 1>>, <<1, 2>>, <<3, 2>>} \cup (IF Size > 1 THEN {<<1, 9>>, <<7, 1>>} ELSE {})
Axes == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sum3(a, x, b, y, c, z) == [k \in 1..3 |-> a[k] * x + b[k] * y + c[k] * z]

Init == /\ win \in Windows /\ res \in Resolutions /\ tan \in Tans
        /\ d \in Axes /\ up \in Axes /\ Dot(d, up) = 0
        /\ p = <<0, 0>> /\ at = <<win[1] * res[1], win[4] * res[2]>>
Wide == win[3] - win[1]
High == win[4] - win[2]
Right == p[1] < res[1] /\ p' = <<p[1] + 1, p[2]>> /\ at' = <<at[1] + Wide, at[2]>> /\ UNCHANGED <<win, res, tan, d, up>>
Down == p[2] < res[2] /\ p' = <<p[1], p[2] + 1>> /\ at' = <<at[1], at[2] - High>> /\ UNCHANGED <<win, res, tan, d, up>>
Next == Right \/ Down
Spec == Init /\ [][Next]_vars

(* the camera's maps *)
Flip == IF Variant = "upsidedown" THEN 1 ELSE -1
Off == IF Variant = "upsidedown" THEN win[2] ELSE win[4]
Screen == IF Variant = "swapped" THEN <<p[1] * Wide + win[1] * res[2], Off * res[2] + Flip * p[2] * High>>
          ELSE IF Variant = "half" THEN <<(((2 * p[1] + 1) * Wide) \div 2) + win[1] * res[1], Off * res[2] + Flip * (((2 * p[2] + 1) * High) \div 2)>>
          ELSE <<p[1] * Wide + win[1] * res[1], Off * res[2] + Flip * p[2] * High>>
Left == IF Variant = "mirrored" THEN Cross(d, up) ELSE Cross(up, d)
Lens == IF Variant = "inverse" THEN <<tan[2], tan[1]>> ELSE tan
(* in camera space <<sx tan / W, sy tan / H, 1>> : all over W H den *)
World == Sum3(Left, Screen[1] * Lens[1] * res[2], up, Screen[2] * Lens[1] * res[1], d, Lens[2] * res[1] * res[2])

Expected == Sum3(Cross(up, d), at[1] * tan[1] * res[2], up, at[2] * tan[1] * res[1], d, tan[2] * res[1] * res[2])
Through == World = Expected
Corners == /\ (p = <<0, 0>>) => at = <<win[1] * res[1], win[4] * res[2]>>
           /\ (p = res) => at = <<win[3] * res[1], win[2] * res[2]>>
Centred == (win[1] + win[3] = 0 /\ win[2] + win[4] = 0 /\ 2 * p[1] = res[1] /\ 2 * p[2] = res[2]) => Cross(World, d) = <<0, 0, 0>> /\ Dot(World, d) > 0
(* the first row looks furthest up *)
Rows == (p[2] = 0 => Dot(World, up) * 1 = win[4] * res[2] * tan[1] * res[1]) /\ Dot(World, d) > 0
=============================================================================
