-------------------------------- MODULE Echo --------------------------------
(* What every run of the tools prints besides the satellites: whether it is a document at all,
   how it says that it failed, the parameters it used, times, region and Sun. *)
EXTENDS Cli, Astro
JD == INSTANCE JsonDoc
T == INSTANCE Tle

B(p, ok, why) == IF ok THEN {} ELSE {<<p, why>>}
Has(o, k) == k \in DOMAIN o.leaf
IsNum(o, k) == Has(o, k) /\ o.leaf[k].k = "n"
IsStr(o, k) == Has(o, k) /\ o.leaf[k].k = "s"
Num(o, k) == R(o.leaf[k].t)
Str(o, k) == o.leaf[k].s
Txt(o, k) == o.leaf[k].t
(* printed with d decimals *)
Half(d) == CASE d = 0 -> D("0.5") [] d = 1 -> D("0.05") [] d = 2 -> D("0.005") [] d = 3 -> D("0.0005") [] d = 4 -> D("0.00005") [] d = 5 -> D("0.000005")
Slack(d) == (Half(d) (.) D("1.001")) (+) D("1e-9")
Prints(o, k, v, d) == IsNum(o, k) /\ Abs(Num(o, k) (-) v) \preceq (Slack(d) (+) (D("1e-12") (.) Abs(v)))
IsInt(o, k, n) == IsNum(o, k) /\ ~(Num(o, k) \prec N(n)) /\ ~(N(n) \prec Num(o, k))
Equal(a, b) == ~(a \prec b) /\ ~(b \prec a)

NoDup(ks) == \A i, j \in 1..Len(ks) : i # j => ks[i] # ks[j]
CommonKeys == {"swinfo.name", "run_command", "status", "errmsg", "n_sats_found"}
Complete(o, keys) == \A k \in keys : \E i \in 1..Len(o.keys) : o.keys[i] = k

(* ------------------------------------------------------------------- C05 *)
(* raw bytes, when recorded *)
WellFormedBytes(o) == o.raw = <<>> \/ JD!WellFormed(o.raw)
DocBad(o) ==
  IF o.kind = "usage" THEN B("C05", o.rc = 0, "usage text with exit code")
  ELSE B("C05", o.kind = "json", "output is not one JSON document")
       \cup B("C05", WellFormedBytes(o), "output is not a well-formed JSON document")
       \cup (IF o.kind # "json" THEN {} ELSE
             B("C05", Complete(o, CommonKeys) /\ IsNum(o, "status") /\ IsStr(o, "errmsg") /\ IsNum(o, "n_sats_found") /\ IsStr(o, "run_command"), "status members")
             \cup B("C05", NoDup(o.keys), "repeated member"))
StatusOk(o) == o.kind = "json" /\ IsNum(o, "status") /\ IsStr(o, "errmsg")
Status0(o) == IsInt(o, "status", 0)
(* a run that says it failed says so everywhere; one that does not exits 0 *)
ConsistentBad(o, noargs) ==
  IF ~StatusOk(o) THEN {}
  ELSE IF Status0(o) THEN B("C05", o.rc = 0, "status 0 with exit code")
  ELSE B("C05", o.rc # 0 \/ noargs, "failure with exit code 0") \cup B("C05", Str(o, "errmsg") # <<>>, "failure without error text")

Ran(tool, args) == Codes(tool) \o Joined([i \in 1..Len(args) |-> <<32>> \o args[i]], <<>>)
CommandBad(o) == IF o.kind # "json" THEN {} ELSE B("C06", IsStr(o, "run_command") /\ Str(o, "run_command") = Ran(o.tool, o.args), "run_command")

(* ------------------------------------------------- C06: parameters, echoed *)
IP == "input_params."
SiteBad(o, p) ==
  B("C06", Prints(o, "input_params.location.lat", p.lat, 4) /\ Prints(o, "input_params.location.lon", p.lon, 4) /\ Prints(o, "input_params.location.alt", p.ht, 1), "site in input_params")
  \cup B("C06", Prints(o, "input_params.region.radius", p.radius, 4), "radius in input_params")
  \cup B("C06", IsInt(o, "input_params.delta_time_s", p.dt), "delta_time_s")

(* date text and MJD of one epoch *)
EpochBad(o, mk, dk, mjd, given, text) ==
  B("C06", Prints(o, mk, mjd, 5) \/ (given /\ DateOf(text).real /\ IsNum(o, mk) /\ Abs(Num(o, mk) (-) mjd) \preceq D("1.6e-5")), "MJD in input_params")
  \cup (IF given THEN B("C06", IsStr(o, dk) /\ Str(o, dk) = text, "date in input_params")
        ELSE UNION {B(c, IsStr(o, dk) /\ (InYears(mjd) => IsDateOf(Str(o, dk), mjd, FALSE)), "date of the MJD in input_params") : c \in {"C06", "C09"}})
  \cup (IF IsStr(o, dk) /\ IsNum(o, mk) /\ DateOf(Str(o, dk)).real
        THEN B("C09", Abs(Num(o, mk) (-) MjdOfDate(DateOf(Str(o, dk)))) \preceq (IF given THEN D("1.6e-5") ELSE D("1.1e-5")), "MJD and date are not the same epoch") ELSE {})

(* a date given is taken to a hundred-thousandth of a day, the one printed, with single precision *)
Quantum == D("4.7e-10")                     \* of a Julian Day as a double
Tau(p) == IF p.dated THEN D("3.3e-8") ELSE Quantum
Used(o, p) == IF p.dated /\ IsNum(o, "input_params.mjd") THEN [p EXCEPT !.mjd = <<Num(o, "input_params.mjd")>>] ELSE p
(* degrees the Earth may have turned in that time *)
Turned(p) == Tau(p) (.) D("370")

(* ------------------------------------- C16: times, region and Sun of a document *)
AngPrints(o, k, v, h, d, e) == IsNum(o, k) /\ Abs(Wrap(Num(o, k) (-) v, h)) \preceq (Slack(d) (+) (e (+) D("1e-7")))
InR(o, k, lo, hi, d) == IsNum(o, k) /\ (lo (-) Slack(d)) \preceq Num(o, k) /\ Num(o, k) \preceq (hi (+) Slack(d))
(* e: what the hour angle may be wrong by, degrees *)
HorizBad(o, pre, dec, haH, latDeg, da, dp, e) ==
  LET ha == HourAngleRad(haH) lat == Rad(latDeg)
      v == HorizonVec(dec, ha, lat)
      q == ParangParts(dec, ha, lat)
      qn == Sqrt(Sq(q[1]) (+) Sq(q[2]))
      az == pre \o "az"  alt == pre \o "alt"  pa == pre \o "parang"
  IN  B("C16", InR(o, az, Zero, D("360"), da) /\ InR(o, alt, D("-90"), D("90"), da), "range of azimuth and altitude in " \o pre)
      \cup B("C16", IsNum(o, az) /\ IsNum(o, alt) /\ VAngle(AzAltVec(Rad(Num(o, az)), Rad(Num(o, alt))), v) \preceq (Rad(Slack(da) (+) e) (.) D("1.5")) (+) D("2e-6"), "azimuth and altitude in " \o pre)
      \cup (IF D("1e-5") \prec qn /\ D("1e-5") \prec Cos(dec)
            THEN B("C16", IsNum(o, pa) /\ Abs(Wrap(Num(o, pa) (-) Deg(Atan2(q[2], q[1])), D("180"))) \preceq (Slack(dp) (+) ((D("1e-8") (+) e) (/) qn)), "parallactic angle in " \o pre) ELSE {})
(* Sun record: pre is its path with the dot; target in radians *)
SunBad(o, pre, jd, latDeg, lmst, gmst, tra, tdec, prop, e) ==
  LET s == SunRaDec(jd)
      c(x) == prop
  IN  B(prop, AngPrints(o, pre \o "ra", Deg(s[1]), D("180"), 3, e) /\ Prints(o, pre \o "dec", Deg(s[2]), 3), "Sun position in " \o pre)
      \cup B(prop, AngPrints(o, pre \o "lon", Deg(s[1]) (-) (gmst (.) D("15")), D("180"), 3, e) /\ InR(o, pre \o "lon", D("-180"), D("180"), 3), "longitude of the Sun in " \o pre)
      \cup B(prop, IsNum(o, pre \o "separation_deg") /\ Abs(Num(o, pre \o "separation_deg") (-) SepDeg(tra, tdec, s[1], s[2])) \preceq (Slack(3) (+) (e (+) D("3e-6"))), "separation of the Sun in " \o pre)
      \cup {<<prop, b[2]>> : b \in HorizBad(o, pre, s[2], lmst (-) (Deg(s[1]) (/) D("15")), latDeg, 3, 3, e)}

(* ---------------------------------------------------------------- sat_skymap *)
Jd(p, k) == MjdOff (+) p.mjd[k]
Centre(p) ==                                       \* right ascension, declination (degrees)
  IF ZenithCentre(p) THEN <<Lmst(Jd(p, 1), p.lon) (.) D("15"), p.lat>> ELSE <<p.ra, p.dec>>
SkymapEcho(o, d) ==
  LET p == Used(o, d.p)
      tu == Turned(p)
      jd == Jd(p, 1)
      c == Force(Centre(p))
      g == Force(Gmst(jd))
      l == Force(Lmst(jd, p.lon))
      ra == Rad(c[1])  dec == Rad(c[2])
      judge == Abs(p.mjd[1]) \preceq D("3e6")          \* times are those of years about -6000 to 10000
  IN  SiteBad(o, p)
      \cup B("C06", IsStr(o, "input_params.tle_file") /\ Str(o, "input_params.tle_file") = d.cat, "tle_file")
      \cup B("C06", IsInt(o, "input_params.max_sats", p.n), "max_sats")
      \cup B("C06", IF ZenithCentre(p) THEN AngPrints(o, "input_params.region.ra", c[1], D("180"), 4, tu) \/ ~judge ELSE Prints(o, "input_params.region.ra", c[1], 4), "right ascension of the region")
      \cup B("C06", Prints(o, "input_params.region.dec", c[2], 4), "declination of the region")
      \cup EpochBad(o, "input_params.mjd", "input_params.epoch_UTC", d.p.mjd[1], ~p.dateOf, p.date[1])
      \cup (IF ~judge THEN {} ELSE
            B("C16", AngPrints(o, "input_params.gmst", g, D("12"), 4, tu) /\ InR(o, "input_params.gmst", Zero, D("24"), 4), "gmst")
            \cup B("C16", AngPrints(o, "input_params.region.lmst", l, D("12"), 4, tu) /\ InR(o, "input_params.region.lmst", Zero, D("24"), 4), "lmst")
            \cup HorizBad(o, "input_params.region.", dec, l (-) (c[1] (/) D("15")), p.lat, 4, 3, tu)
            \cup SunBad(o, "sun.", jd, p.lat, l, g, ra, dec, "C16", tu))
=============================================================================
