------------------------------ MODULE VisTrace ------------------------------
(* Recorded runs of sat_visibility: which satellite it looks at (C02), what it says when it
   fails (C05), the parameters it echoes (C06, C16), the window it reports (C10: the machine of
   module Window, guided by the reported times) and the records in it (C11).
     o.texts, o.files, o.lists   as in module Runs *)
EXTENDS Runs, Sighting, Window, Verdict
LOCAL INSTANCE SequencesExt

LineBatch == 400
ScanBatch == 20
NightBatch == 60

(* ------------------------------------------------------- parameters and times *)
(* the range, in Julian Days; a date given is the MJD printed *)
Mjd2(o, p, k) == LET key == IF k = 1 THEN "input_params.mjd_range.0" ELSE "input_params.mjd_range.1"
                 IN  IF p.dated /\ IsNum(o, key) THEN Num(o, key) ELSE p.mjd[k]
JdOf(o, p, k) == MjdOff (+) Mjd2(o, p, k)
Sane(o, p) == \A k \in 1..2 : Abs(Mjd2(o, p, k)) \preceq D("3e6")
(* zenith record of the range's start *)
ZenithBad(o, p, jd) ==
  LET l == Force(Lmst(jd, p.lon)) g == Force(Gmst(jd)) tu == Turned(p) IN
  B("C16", AngPrints(o, "input_params.gmst", g, D("12"), 4, tu) /\ InR(o, "input_params.gmst", Zero, D("24"), 4), "gmst")
  \cup B("C16", AngPrints(o, "input_params.region.lmst", l, D("12"), 4, tu) /\ InR(o, "input_params.region.lmst", Zero, D("24"), 4), "lmst")
  \cup B("C16", AngPrints(o, "input_params.region.ra", l (.) D("15"), D("180"), 4, tu), "right ascension of the zenith")
  \cup HorizBad(o, "input_params.region.", Rad(p.lat), Zero, p.lat, 4, 3, Zero)
VisEcho(o, d) ==
  LET p == d.p IN
  SiteBad(o, p)
  \cup B("C06", IsStr(o, "input_params.tle_file") /\ Str(o, "input_params.tle_file") = d.cat, "tle_file")
  \cup B("C06", Prints(o, "input_params.region.dec", p.lat, 4), "declination of the region")
  \cup EpochBad(o, "input_params.mjd_range.0", "input_params.date_utc_range.0", p.mjd[1], ~p.dateOf, p.date[1])
  \cup EpochBad(o, "input_params.mjd_range.1", "input_params.date_utc_range.1", p.mjd[2], ~p.dateOf, p.date[2])
  \cup (IF Sane(o, p) THEN ZenithBad(o, p, JdOf(o, p, 1)) ELSE {})

(* ---------------------------------------------------------- the catalogue walk *)
Entry(m, l2) ==
  LET l1 == m.line1
      ok == At(l1, 0) = 49 /\ At(l2, 0) = 50 /\ T!PairClass(l1, l2) = "elements"
  IN  IF ~ok THEN [elements |-> FALSE, text |-> <<>>, number |-> 0, desig |-> <<>>, res |-> "reject", lit |-> FALSE, rec |-> 0]
      ELSE [elements |-> TRUE, text |-> <<>>, number |-> T!CatNumber(l1), desig |-> T!DesigText(l1), res |-> "pass", lit |-> FALSE, rec |-> <<l1, l2>>]
(* -------------------------------------------------------------------- documents *)
Sat == "satellite."
HasWindow(o) == Has(o, "satellite.sat_start.MJD")
Records == <<"start", "end", "mid", "max">>
RecordKeys == {"Date", "MJD", "ra", "dec", "az", "alt", "Distance", "Separation", "PA", "Speed"}
AllKeys(o) ==
  /\ Complete(o, {"satellite.name", "satellite.intl_desig", "satellite.norad_n", "sunlit_duration_minutes"})
  /\ \A r \in 1..4 : Complete(o, {"satellite.sat_" \o Records[r] \o "." \o k : k \in RecordKeys}
                                  \cup {"satellite.geoloc_" \o Records[r] \o "." \o k : k \in {"lat", "lon", "alt", "theta"}}
                                  \cup {"satellite.sun_" \o Records[r] \o "." \o k : k \in {"ra", "dec", "az", "alt", "lon", "parang", "separation_deg"}})
NoneBad(o, c) == B(c, ~(\E i \in 1..Len(o.keys) : o.keys[i] = "satellite") /\ IsInt(o, "n_sats_found", 0), "satellite reported")
FailBad(o) == B("C05", ~Status0(o), "failure with status 0")
IdentityBad(o, f) ==
  B("C02", IsInt(o, "satellite.norad_n", f.number) /\ IsStr(o, "satellite.name") /\ Str(o, "satellite.name") = f.name
           /\ IsStr(o, "satellite.intl_desig") /\ Str(o, "satellite.intl_desig") = f.desig, "another satellite, name or designator")

(* ------------------------------------------------------------------- the scan *)
Step_(p) == N(p.dt) (/) SecDay
TolAt(p, k) == Tau(p) (+) (N(k + 2) (.) Quantum)
Mark(o, key, t, tol) == IsNum(o, key) /\ Abs((Num(o, key) (+) MjdOff) (-) t) \preceq (D("5.02e-6") (+) tol)
NoScan == [t |-> <<Zero>>, k |-> 0, ps |-> {Fresh}, iS |-> 0, iE |-> 0, iM |-> 0, tS |-> <<Zero>>, tE |-> <<Zero>>, tM |-> <<Zero>>,
           sepM |-> <<Zero>>, least |-> <<D("1e9")>>, inM |-> FALSE, sure |-> TRUE]

Usable(el) == ~(ModelOf(el) = "either" \/ (~el.high /\ D("0.02") \prec Abs(el.bstar)))
FixAt(el, model, prm, t, tol) ==
  LET s == M!Step(model, el, prm, M!FreshState(model, prm), Since(t, el))
  IN  Force(Fix(model, s.out, tol, VNorm(s.out.vel) (/) D("60")))
ZenithSep(p, l, t) == [v |-> Force(SepDeg(Rad(Lmst(t, p.lon) (.) D("15")), Rad(p.lat), l.ra, l.dec)), e |-> Force(Deg(l.err) (+) D("3e-6"))]
AltClass(p, f) ==
  LET a == GroundPoint(f.pos)[3]  e == f.tol (+) D("1e-4") IN
  IF ~p.altReq THEN "pass" ELSE IF (a (+) e) \prec p.altMin \/ p.altMax \prec (a (-) e) THEN "alt"
  ELSE IF (p.altMin (+) e) \prec a /\ (a (+) e) \prec p.altMax THEN "pass" ELSE "unsure"
(* conditions possible at time t, separation *)
Cond(p, el, model, prm, t, tol) ==
  LET f == FixAt(el, model, prm, t, tol)
      l == Force(Look(f, t, p.lon, p.lat, p.ht))
      s == Force(ZenithSep(p, l, t))
      where == IF (s.v (+) s.e) \preceq p.radius THEN {"in"} ELSE IF p.radius \prec (s.v (-) s.e) THEN {"out"} ELSE {"in", "out"}
      lit == IF "in" \in where THEN Lit(f, t) ELSE "yes"
      inside == IF "in" \notin where THEN {} ELSE CASE lit = "yes" -> {"in"} [] lit = "no" -> {"dark"} [] OTHER -> {"in", "dark"}
      a == AltClass(p, f)
      sky == inside \cup (where \ {"in"})
  IN  IF f.known = "no" THEN [cs |-> {"err"}, sep |-> s]
      ELSE IF f.known = "unsure" \/ ~(l.err \prec D("0.01")) THEN [cs |-> Conditions, sep |-> [v |-> Zero, e |-> D("1e9")]]
      ELSE [cs |-> IF a = "alt" THEN {"alt"} ELSE IF a = "pass" THEN sky ELSE sky \cup {"alt"}, sep |-> s]

(* states that agree with the times reported *)
Agrees(o, s, q) == q.start = (IF HasWindow(o) THEN s.iS ELSE 0) /\ (q.ph = "done" => HasWindow(o) /\ q.end = s.iE)
(* one step of the scan; the times reported single out steps *)
ScanStep(o, p, el, model, prm, jd1, s) ==
  LET k == s.k + 1
      t == s.t[1]
      tol == TolAt(p, k)
      after == jd1 \prec (t (-) tol)          \* certainly past the end of the range
      same == k = 1 /\ ~(t \prec jd1) /\ ~(jd1 \prec t)   \* the range is one instant
      maybe == ~after /\ ~same /\ jd1 \prec (t (+) tol)
      c == Cond(p, el, model, prm, t, tol)
      sS == IF s.iS = 0 /\ Mark(o, "satellite.sat_start.MJD", t, tol) THEN [s EXCEPT !.iS = k, !.tS = <<t>>] ELSE s
      sE == IF s.iE = 0 /\ Mark(o, "satellite.sat_end.MJD", t, tol) THEN [sS EXCEPT !.iE = k, !.tE = <<t>>] ELSE sS
      sM == IF s.iM = 0 /\ Mark(o, "satellite.sat_max.MJD", t, tol) THEN [sE EXCEPT !.iM = k, !.tM = <<t>>, !.sepM = <<c.sep.v (-) c.sep.e>>, !.inM = ("in" \in c.cs)] ELSE sE
      least == IF c.cs = {"in"} /\ ~maybe /\ sM.iS > 0 /\ (c.sep.v (+) c.sep.e) \prec s.least[1] THEN <<c.sep.v (+) c.sep.e>> ELSE s.least
      closed == {Close(q, s.k) : q \in s.ps}
      go == AllAdvance({q \in s.ps : Running(q)}, c.cs, k)
      ended == {q \in s.ps : ~Running(q)}
      ps == IF after THEN closed ELSE go \cup ended \cup (IF maybe THEN {[q EXCEPT !.ph = IF q.ph = "before" THEN "none" ELSE q.ph] : q \in closed} ELSE {})
      next == [sM EXCEPT !.k = k, !.t = <<t (+) Step_(p)>>, !.least = least]
  IN  IF after THEN [s EXCEPT !.ps = {[q EXCEPT !.ph = IF q.ph = "before" THEN "none" ELSE q.ph] : q \in {x \in closed : Agrees(o, s, x)}}]
      ELSE [next EXCEPT !.ps = {q \in ps : Agrees(o, next, q)}]
Going(s) == \E q \in s.ps : Running(q)

MidOf(s) == s.tS[1] (+) ((s.tE[1] (-) s.tS[1]) (/) D("2"))
WindowBad(o, p, s) ==
  IF ~Status0(o) THEN B("C10", \E q \in s.ps : q.ph = "failed", "run fails although the altitude is in the range asked for") \cup B("C10", IsInt(o, "n_sats_found", IF HasWindow(o) THEN 1 ELSE 0), "n_sats_found")
  ELSE IF ~HasWindow(o)
  THEN B("C10", \E q \in s.ps : q.ph = "none", "a window, or a failure, is not reported") \cup NoneBad(o, "C10")
  ELSE IF ~(\E q \in s.ps : q.ph = "done")
  THEN {<<"C10", IF s.iS = 0 THEN "start of the window" ELSE IF \E q \in s.ps : q.ph = "failed" THEN "altitude range ignored" ELSE "start or end of the window">>}
  ELSE B("C10", IsInt(o, "n_sats_found", 1), "n_sats_found")
       \cup B("C10", s.iM >= s.iS /\ s.iM <= s.iE /\ s.iM > 0 /\ s.inM /\ s.sepM[1] \preceq s.least[1], "step closest to the zenith")
       \cup B("C10", Mark(o, "satellite.sat_mid.MJD", MidOf(s), TolAt(p, s.k)), "middle of the window")
       \cup B("C10", IsNum(o, "sunlit_duration_minutes") /\ Abs(Num(o, "sunlit_duration_minutes") (-) ((s.tE[1] (-) s.tS[1]) (.) D("1440"))) \preceq (D("0.00502") (+) (TolAt(p, s.k) (.) D("2880"))), "duration")
       \cup B("C05", AllKeys(o), "members of the window")

(* ------------------------------------------------------------------- records *)
DateFits(text, mjd, tol) ==
  LET w == D("0.502") (+) (tol (.) SecDay) (+) TolSec(mjd) IN
  WellFormed(text, FALSE) /\ (LET dn == Trunc(Floor(mjd)) IN Abs(SecondsFrom(text, dn, FALSE) (-) ((mjd (-) Floor(mjd)) (.) SecDay)) \preceq w)
RecordBad(o, p, el, model, prm, name, t, tol) ==
  LET f == FixAt(el, model, prm, t, tol)
      pre == "satellite.sat_" \o name \o "."
      geo == "satellite.geoloc_" \o name \o "."
      v(k) == Num(o, pre \o k)
      l == Force(Look(f, t, p.lon, p.lat, p.ht))
      j0 == LookJ2000(l, t)
      j == [j0 EXCEPT !.err = Force(j0.err (+) ((N(p.dt) (.) D("1.2e-11")) (.) PrecGain(t, l.dec)))]
      lm == Force(Lmst(t, p.lon))
      sep == ZenithSep(p, l, t)
      hv == HorizonVec(l.dec, HourAngleRad(lm (-) (Deg(l.ra) (/) D("15"))), Rad(p.lat))
      tu == tol (.) D("370")
      ok == (\A k \in RecordKeys \ {"Date"} : IsNum(o, pre \o k)) /\ IsStr(o, pre \o "Date")
      at == " at " \o name
  IN  IF ~ok THEN {<<"C11", "record" \o at>>}
      ELSE B("C11", Abs(v("MJD") (-) (t (-) MjdOff)) \preceq (D("5.02e-6") (+) tol), "MJD" \o at)
           \cup (IF InYears(t (-) MjdOff) THEN B("C11", DateFits(Str(o, pre \o "Date"), t (-) MjdOff, tol), "date" \o at) ELSE {})
           \cup B("C11", Abs((v("alt") (+) v("Separation")) (-) D("90")) \preceq D("1.3e-4"), "altitude and zenith separation" \o at)
           \cup SunBad(o, "satellite.sun_" \o name \o ".", t, p.lat, lm, Gmst(t), Rad(lm (.) D("15")), Rad(p.lat), "C11", tu)
           \cup B("C21", f.known # "no", "position that cannot be computed is reported" \o at)
           \cup (IF f.known # "yes" \/ ~(l.err \prec D("0.01")) THEN {} ELSE
                 B("C11", DirPrinted(v("ra"), v("dec"), 4, j), "J2000 direction" \o at)
                 \cup B("C11", InR(o, pre \o "az", Zero, D("360"), 4) /\ InR(o, pre \o "alt", D("-90"), D("90"), 4)
                               /\ VAngle(AzAltVec(Rad(v("az")), Rad(v("alt"))), hv) \preceq (((Rad(Slack(4)) (.) D("1.5")) (+) l.err) (+) D("2e-6")), "azimuth and altitude" \o at)
                 \cup B("C11", Printed(v("Distance"), l.dist, 2, f.tol (+) D("1e-6")), "distance" \o at)
                 \cup B("C11", Printed(v("Separation"), sep.v, 4, sep.e), "zenith separation" \o at)
                 \cup (IF \A k \in {"lat", "lon", "alt", "theta"} : IsNum(o, geo \o k)
                       THEN {<<b[1], b[2] \o at>> : b \in GeoBad("C11", <<Num(o, geo \o "lat"), Num(o, geo \o "lon"), Num(o, geo \o "alt"), Num(o, geo \o "theta")>>, f, t)}
                       ELSE {<<"C11", "ground point" \o at>>}))

(* -------------------------------------------------------------------- the run *)
VARIABLES run, step, m, scan, bad
vars == <<run, step, m, scan, bad>>
O == Trace[run]
Init == run \in 1..Len(Trace) /\ step = "begin" /\ m = NoState /\ scan = NoScan /\ bad = {}
Judged(b) == bad' = Mine(b) /\ Report(O.id, bad') /\ step' = "end"
To(s) == step' = s /\ bad' = {}

Begin ==
  /\ step = "begin" /\ UNCHANGED <<run, m, scan>>
  /\ LET o == O  d == D_(o) IN
     IF o.crash # "" THEN Judged({<<"*", "crash: " \o o.crash>>})
     ELSE LET b0 == DocBad(o) \cup ConsistentBad(o, o.args = <<>>) \cup CommandBad(o) IN
          IF b0 # {} \/ ~d.p.sure THEN Judged(b0)
          ELSE IF d.end # "go" THEN Judged(EarlyBad(o, d))
          ELSE IF o.kind # "json" THEN Judged({<<"C05", "no document">>, <<"C06", "no document">>})
          ELSE IF IsInt(o, "status", -1) THEN Judged({<<"C06", "valid options are refused">>})
          ELSE IF d.list /\ ~ListOf(o, ListPath(d)).open THEN Judged(NoListBad(o, d))
          ELSE IF ~OneOnly(d.p) THEN Judged(FailBad(o) \cup NoneBad(o, "C02"))
          ELSE To("walk")
Walk2 ==
  /\ step = "walk" /\ UNCHANGED <<run, scan>>
  /\ LET o == O  d == D_(o)  p == d.p  ps == Paths(o, d)
         here == FileOf(o, ps[m.file]).f
         at_end == m.file = 0 \/ m.pos = Len(here.lines)
     IN  IF m.stop # "run"
         THEN /\ m' = m
              /\ IF Failed(m.stop) THEN Judged(FailBad(o) \cup NoneBad(o, "C02") \cup B("C06", HasPart(Str(o, "errmsg"), ps[m.file]), "catalogue file looked for elsewhere"))
                 ELSE IF m.out = <<>> THEN Judged(FailBad(o) \cup NoneBad(o, "C02") \cup B("C02", HasPart(Str(o, "errmsg"), Codes("not found")), "satellite not found is not said"))
                 ELSE IF ~IsNum(o, "input_params.delta_time_s") THEN Judged({<<"C02", "satellite not found">>, <<"C10", "satellite not found">>})
                 ELSE LET e == VisEcho(o, d) \cup (IF HasWindow(o) THEN IdentityBad(o, m.out[1]) ELSE {}) IN
                      IF Mine(e) # {} THEN Judged(e) ELSE To("found")
         ELSE IF at_end
         THEN /\ To("walk")
              /\ IF m.file = Len(ps) THEN m' = [m EXCEPT !.stop = "done"]
                 ELSE LET f == FileOf(o, ps[m.file + 1]) IN
                      m' = OpenNext(m, [open |-> f.open, lines |-> IF f.f.lines = <<>> THEN <<>> ELSE <<o.texts[f.f.lines[1]]>>])
         ELSE /\ To("walk")
              /\ LET last == IF m.pos + LineBatch < Len(here.lines) THEN m.pos + LineBatch ELSE Len(here.lines)
                 IN  m' = FoldLeft(LAMBDA x, i : IF x.stop # "run" THEN x
                                               ELSE LET l2 == o.texts[here.lines[i]] IN ReadLine(p, x, l2, Entry(x, l2)),
                                   m, [k \in 1..(last - m.pos) |-> m.pos + k])
Tle_ == T!Elements(m.out[1].rec[1], m.out[1].rec[2])
Found ==
  /\ step = "found" /\ UNCHANGED <<run, m>>
  /\ LET o == O  p == D_(o).p  el == Force(Tle_) IN
     IF Prop \in {"C02", "C05", "C06", "C09"} \/ ~Sane(o, p) \/ ~Usable(el) THEN scan' = scan /\ Judged({})
     ELSE /\ scan' = [NoScan EXCEPT !.t = <<JdOf(o, p, 1)>>]
          /\ IF Prop = "C16" /\ HasWindow(o) THEN Judged({})
             ELSE IF Prop = "C16" THEN Judged(LET jd == JdOf(o, p, 1) l == Force(Lmst(jd, p.lon)) IN
                                             IF ~Has(o, "sun.ra") THEN {} ELSE SunBad(o, "sun.", jd, p.lat, l, Gmst(jd), Rad(l (.) D("15")), Rad(p.lat), "C16", Turned(p)))
             ELSE To(IF p.night THEN "night" ELSE "scan")
(* waiting for the Sun to set *)
SunUp(p, t) == LET s == SunRaDec(t) v == HorizonVec(s[2], HourAngleRad(Lmst(t, p.lon) (-) (Deg(s[1]) (/) D("15"))), Rad(p.lat)) IN v[3]
NightStep(p, jd1, s) ==
  LET t == s.t[1]  h == SunUp(p, t)  e == D("2e-7") (+) (TolAt(p, s.k) (.) D("6.4")) IN
  IF jd1 \prec t THEN [s EXCEPT !.sure = (jd1 (+) TolAt(p, s.k)) \prec t, !.inM = TRUE]
  ELSE IF Abs(h) \preceq e \/ jd1 \prec (t (+) TolAt(p, s.k)) THEN [s EXCEPT !.sure = FALSE, !.inM = TRUE]
  ELSE IF h \prec Zero THEN [s EXCEPT !.inM = TRUE]
  ELSE [s EXCEPT !.t = <<t (+) D("0.0007")>>, !.k = @ + 1]
Night ==
  /\ step = "night" /\ UNCHANGED <<run, m>>
  /\ LET o == O  p == D_(o).p  jd1 == JdOf(o, p, 2)
         s == FoldLeft(LAMBDA x, i : IF x.inM THEN x ELSE NightStep(p, jd1, x), scan, [i \in 1..NightBatch |-> i])
     IN  IF ~s.inM THEN scan' = s /\ To("night")
         ELSE /\ scan' = [NoScan EXCEPT !.t = s.t]
              /\ IF s.sure THEN To("scan") ELSE Judged({})
Scan ==
  /\ step = "scan" /\ UNCHANGED <<run, m>>
  /\ LET o == O  p == D_(o).p  el == Force(Tle_)  model == ModelOf(el)  prm == Force(M!InitOf(model, el))  jd1 == JdOf(o, p, 2)
         s == FoldLeft(LAMBDA x, i : IF ~Going(x) THEN x ELSE ScanStep(o, p, el, model, prm, jd1, x), scan, [i \in 1..ScanBatch |-> i])
     IN  /\ scan' = s
         /\ IF Going(s) THEN To("scan")
            ELSE LET b == WindowBad(o, p, s) IN
                 IF Mine(b) # {} \/ ~HasWindow(o) \/ ~Status0(o) THEN Judged(b)
                 ELSE IF Prop = "C10" \/ ~(\E q \in s.ps : q.ph = "done") THEN Judged(b)
                 ELSE To("records")
Records_ ==
  /\ step = "records" /\ UNCHANGED <<run, m, scan>>
  /\ LET o == O  p == D_(o).p  el == Force(Tle_)  model == ModelOf(el)  prm == Force(M!InitOf(model, el))  s == scan  tol == TolAt(p, s.k)
     IN  Judged(RecordBad(o, p, el, model, prm, "start", s.tS[1], tol) \cup RecordBad(o, p, el, model, prm, "end", s.tE[1], tol)
                \cup RecordBad(o, p, el, model, prm, "mid", MidOf(s), tol (+) Quantum)
                \cup (IF s.iM = 0 THEN {} ELSE RecordBad(o, p, el, model, prm, "max", s.tM[1], tol)))
Next == Begin \/ Walk2 \/ Found \/ Night \/ Scan \/ Records_
Ok == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
