----------------------------- MODULE SafeTrace ------------------------------
(* The same command line and the same files, in builds that differ in what variables hold
   that were never set, where memory lies and what freed memory holds (o.runs: build, crash,
   rc, out: number of the output): every run ends by itself, none is stopped by a sanitizer,
   all end alike and print the same.  o.vals: the numbers printed for satellites. *)
EXTENDS FP, Sequences, Verdict
Compared == {"plain", "again", "zero", "pattern"}
Judge(o) ==
  LET n == Len(o.runs)
      crashed == {k \in 1..n : o.runs[k].crash # ""}
      cmp == {k \in 1..n : o.runs[k].build \in Compared}
  IN  {<<"C21", o.runs[k].build \o ": " \o o.runs[k].crash>> : k \in crashed}
      \cup (IF crashed = {} /\ \E a, b \in cmp : o.runs[a].out # o.runs[b].out \/ o.runs[a].rc # o.runs[b].rc
            THEN {<<"C21", "the same command line does not always give the same output">>} ELSE {})
      \cup (IF \E k \in 1..Len(o.vals) : ~IsFinite(R(o.vals[k])) THEN {<<"C21", "a satellite is reported with numbers that are none">>} ELSE {})
VARIABLES run, done, bad
Init == run \in 1..Len(Trace) /\ done = FALSE /\ bad = {}
Next == ~done /\ done' = TRUE /\ UNCHANGED run
        /\ bad' = Mine(Judge(Trace[run])) /\ Report(Trace[run].id, bad')
Ok == bad = {}
Spec == Init /\ [][Next]_<<run, done, bad>>
=============================================================================
