------------------------------ MODULE FitsMap -------------------------------
(* Sky maps kept in files.  A file is absent, or holds a map, or something else.  A map:
   resolution, ordering, coordinate system, number of observed pixels (-1: not given),
   values (32-bit words as signed integers, IEEE single precision). *)
EXTENDS Integers, Sequences
Absent == [kind |-> "absent"]
Exponent(w) == (w \div 8388608) % 256
Null == -240822174                       \* the word of -1.6375e30
(* FITS has no infinities and not-a-numbers (undefined values), and drops what is too small
   for a normal number *)
Stored(w) == IF Exponent(w) = 255 THEN Null ELSE IF Exponent(w) = 0 THEN 0 ELSE w
CoordOf(c) == IF c \in {"G", "E"} THEN c ELSE "C"
NPix(n) == 12 * n * n
Written(nside, nest, coord, vals) ==
  [kind |-> "map", nside |-> nside, ordering |-> IF nest THEN "NESTED" ELSE "RING", coord |-> CoordOf(coord), obs |-> -1, vals |-> vals]

(* writing never replaces a file *)
AfterWrite(file, m) == IF file = Absent THEN m ELSE file
WriteOk(file) == file = Absent
Readable(file) == file.kind = "map"
=============================================================================
