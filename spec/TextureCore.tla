----------------------------- MODULE TextureCore ------------------------------
EXTENDS Integers
(* the number of faces between two coordinates in units of 1/n; a face belongs *)
(* to the cell above it *)
Faces(a, b, n) == IF b > a THEN (b \div n) - (a \div n) ELSE (a \div n) - (b \div n)
=============================================================================
