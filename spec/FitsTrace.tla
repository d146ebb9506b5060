----------------------------- MODULE FitsTrace ------------------------------
(* Recorded sequences of map writes, reads and size queries on a set of files, replayed on the
   file state of module FitsMap. *)
EXTENDS FitsMap, Verdict
B(p, ok, why) == IF ok THEN {} ELSE {<<p, why>>}
FileOf(s) == IF s.kind = "map" THEN [kind |-> "map", nside |-> s.nside, ordering |-> s.ordering, coord |-> s.coord, obs |-> s.obs, vals |-> s.vals] ELSE [kind |-> s.kind]
VARIABLES run, step, files, bad
vars == <<run, step, files, bad>>
Init == run \in 1..Len(Trace) /\ step = 1 /\ files = [i \in 1..Len(Trace[run].files) |-> FileOf(Trace[run].files[i])] /\ bad = {}
JudgeWrite(f, o) == B("C18", o.ok = WriteOk(f), IF o.ok THEN "existing file overwritten" ELSE "map not written")
JudgeRead(f, o) ==
  IF ~Readable(f) THEN B("C18", ~o.ok /\ o.said, "a missing or non-map file gave data or no message")
  ELSE IF ~o.ok THEN B("C18", FALSE, "map not read")
  ELSE B("C18", o.nside = f.nside, "resolution") \cup B("C18", o.ordering = f.ordering, "ordering") \cup B("C18", o.coord = f.coord, "coordinate system")
       \cup B("C18", Len(o.vals) = NPix(f.nside) /\ \A i \in 1..Len(o.vals) : o.vals[i] = Stored(f.vals[i]), "values")
JudgeSize(f, o) ==             \* a damaged map: right headers, wrong data; its size is not judged
  IF f.kind = "damaged" THEN {} ELSE
  IF ~Readable(f) \/ f.ordering = "" THEN B("C18", ~o.ok /\ o.said, "size of a missing or non-map file")
  ELSE IF ~o.ok THEN B("C18", FALSE, "size not read")
  ELSE B("C18", o.nside = f.nside /\ o.ordering = f.ordering /\ o.npix = (IF f.obs >= 0 THEN f.obs ELSE NPix(f.nside)), "size query")
Next ==
  /\ bad = {} /\ step <= Len(Trace[run].ops)
  /\ LET o == Trace[run].ops[step]  f == files[o.file]
     IN  /\ files' = IF o.op = "write" THEN [files EXCEPT ![o.file] = AfterWrite(f, Written(o.nside, o.nest, o.coord, o.vals))] ELSE files
         /\ bad' = Mine(IF o.crash # "" THEN B("C18", FALSE, "crash")
                        ELSE CASE o.op = "write" -> JudgeWrite(f, o) [] o.op = "read" -> JudgeRead(f, o) [] o.op = "size" -> JudgeSize(f, o))
         /\ Report(Trace[run].id, bad')
  /\ step' = step + 1 /\ UNCHANGED run
Ok == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
