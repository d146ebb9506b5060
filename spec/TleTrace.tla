------------------------------ MODULE TleTrace ------------------------------
(* Calls of the element-set decoder recorded from the library, each judged
   against module Tle. *)
EXTENDS Tle, Verdict

Close(a, b, rel, ab) == Abs(a (-) b) \preceq (ab (+) (rel (.) Abs(b)))
REL == D("1e-11")
ABS0 == D("0")

(* field f of the observation against the value v of its columns *)
Num(o, name, v, rel, ab) ==
  IF ~v.ok THEN {}
  ELSE LET x == R(o[name]) IN
       IF IsFinite(x) /\ Close(x, v.v, rel, ab) THEN {} ELSE {<<"C07", name>>}
IntF(o, name, v) == IF ~v.ok \/ v.v = o[name] THEN {} ELSE {<<"C07", name>>}

JudgeFields(o) ==
  LET l1 == o.l1 l2 == o.l2 IN
  (IF o.number = CatNumber(l1) THEN {} ELSE {<<"C08", "catalogue number">>, <<"C07", "catalogue number">>})
  \cup (IF o.desig = CStr(Designator(l1)) THEN {} ELSE {<<"C07", "designator">>})
  \cup (IF o.class = Classification(l1) THEN {} ELSE {<<"C07", "classification">>})
  \cup (IF o.type = EphemType(l1) THEN {} ELSE {<<"C07", "ephemeris type">>})
  \cup Num(o, "epoch", Epoch(l1), ABS0, D("1e-9"))
  \cup IntF(o, "set", SetNumber(l1)) \cup IntF(o, "rev", RevNumber(l2))
  \cup IF IsHigh(l1)
       THEN UNION {(IF SameBits(R(o.sv[i + 1]), HighVal(l1, i)) THEN {} ELSE {<<"C22", "state vector position">>, <<"C07", "state vector position">>}) : i \in 0..2}
            \cup UNION {(IF Close(R(o.sv[i + 4]), HighVal(l2, i) (.) D("1e-4"), REL, ABS0) THEN {} ELSE {<<"C22", "state vector velocity">>, <<"C07", "state vector velocity">>}) : i \in 0..2}
       ELSE Num(o, "ndot", NDot(l1), REL, ABS0) \cup Num(o, "nddot6", NDDot6(l1), REL, ABS0)
            \cup Num(o, "bstar", BStar(l1), REL, ABS0)
            \cup Num(o, "incl", Angle(l2, 8), REL, ABS0) \cup Num(o, "node", Angle(l2, 17), REL, ABS0)
            \cup Num(o, "argp", Angle(l2, 34), REL, ABS0) \cup Num(o, "mo", Angle(l2, 43), REL, ABS0)
            \cup Num(o, "ecc", Ecc(l2), REL, ABS0) \cup Num(o, "no", MeanMotion(l2), REL, ABS0)

JudgeParse(o) ==
  IF o.crash # "" THEN {<<"C07", "crash">>, <<"C08", "crash">>, <<"C22", "crash">>}
  ELSE LET cls == PairClass(o.l1, o.l2) IN
       IF (cls = "none") # (o.rc < 0) THEN {<<"C07", "acceptance">>, <<"C22", "acceptance">>, <<"C08", "acceptance">>}
       ELSE IF cls = "none" THEN {}
       ELSE (IF o.rc = PairCode(cls) THEN {} ELSE {<<"C07", "checksum errors">>}) \cup JudgeFields(o)

JudgeLine(o) ==
  IF o.crash # "" THEN {<<"C07", "crash">>}
  ELSE LET c == ChecksumClass(o.l) IN
       IF (c = "ok" /\ o.rc = 0) \/ (c = "checksum" /\ o.rc > 0) \/ (c = "notline" /\ o.rc < 0) THEN {} ELSE {<<"C07", "checksum">>}

Judge(o) == CASE o.k = "parse" -> JudgeParse(o) [] o.k = "line" -> JudgeLine(o)

VARIABLES run, done, bad
Init == run \in 1..Len(Trace) /\ done = FALSE /\ bad = {}
Next == /\ ~done /\ done' = TRUE /\ run' = run
        /\ bad' = Mine(Judge(Trace[run]))
        /\ Report(Trace[run].id, bad')
Ok == bad = {}
Spec == Init /\ [][Next]_<<run, done, bad>>
=============================================================================
