------------------------------ MODULE Sighting ------------------------------
(* One satellite seen from one site at one instant: the position the model gives, the direction
   and distance, the ground point and whether the Sun shines on it, each with the error that
   rounding (of instants to the resolution of a Julian Day, of the model) allows. *)
EXTENDS Echo
M == INSTANCE Models
H == INSTANCE Healpix

(* the model the tools use; "either": the choice is at the mercy of rounding *)
ModelOf(el) ==
  IF el.high THEN "HIGH"
  ELSE LET c == M!ModelChoice(el) IN IF c = {0} THEN "SGP4" ELSE IF c = {0, 1} THEN "either" ELSE "SDP4"
IsError(rc) == rc # 0 /\ rc \notin {-3, -4}
(* what is known of the position: known "yes", "no" (there is none), "unsure" *)
NoFix(k) == [known |-> k, pos |-> <<Zero, Zero, Zero>>, speed |-> Zero, tol |-> Zero, spin |-> Zero]
(* sp: km/s, how fast the model moves *)
Fix(model, out, tau, sp) ==
  IF ~out.sure THEN NoFix("unsure")
  ELSE IF IsError(out.rc) THEN NoFix("no")
  ELSE IF ~M!Fin(out) \/ ~IsFinite(out.gain) \/ ~(out.gain \prec D("1e9")) \/ ~(sp \prec D("1e6")) THEN NoFix("unsure")
  ELSE [known |-> "yes", pos |-> out.pos, speed |-> sp, spin |-> Force(D("6.4") (.) tau),
        tol |-> Force((M!TolOf(model, out) (+) D("1e-6")) (+) (tau (.) SecDay (.) (sp (+) D("0.5"))))]
(* the velocity of the model does not know of extreme drag: also the way from a to b in dt seconds *)
SpeedOf(a, b, dt) ==
  LET v == VNorm(a.vel) (/) D("60")
  IN  IF ~M!Fin(a) \/ ~M!Fin(b) THEN v ELSE Force(Max2(v, (D("2") (.) VNorm(VSub(b.pos, a.pos))) (/) dt))
(* minutes since the epoch of the elements *)
Since(jd, el) == (jd (-) el.epoch) (.) D("1440")

(* direction from the site: right ascension, declination (of date), distance, error of the direction (radians) *)
Look(fix, jd, lonDeg, latDeg, ht) ==
  LET t == Topocentric(Site(jd, Rad(lonDeg), Rad(latDeg), ht), fix.pos)
  IN  [ra |-> t[1], dec |-> t[2], dist |-> t[3], err |-> Force(((fix.tol (/) t[3]) (+) fix.spin) (+) D("1e-9"))]
(* the same referred to J2000 *)
LookJ2000(l, jd) ==
  LET p == PrecessJ2000(jd, l.ra, l.dec)
  IN  [l EXCEPT !.ra = p[1], !.dec = p[2], !.err = Force(l.err (.) PrecGain(jd, l.dec))]
CosOf(l) == Max2(Abs(Cos(l.dec)), D("1e-12"))
Clearance(fix, jd) == ShadowClearance(fix.pos, SunKm(jd))
Lit(fix, jd) == LET c == Clearance(fix, jd) t == fix.tol (+) D("1e-4") IN IF c \prec Neg(t) THEN "no" ELSE IF t \prec c THEN "yes" ELSE "unsure"

(* --------------------------------------------- printed values of a direction *)
Deg360(x, d) == Neg(Slack(d)) \preceq x /\ x \preceq (D("360") (+) Slack(d))
InDeg(x, h, d) == Abs(x) \preceq (h (+) Slack(d))
DirPrinted(raDeg, decDeg, d, l) ==
  Deg360(raDeg, d) /\ InDeg(decDeg, D("90"), d) /\ VAngle(Vec(Rad(raDeg), Rad(decDeg)), Vec(l.ra, l.dec)) \preceq ((Rad(Slack(d)) (.) D("1.5")) (+) l.err)
Printed(x, v, d, tol) == Abs(x (-) v) \preceq (Slack(d) (+) tol)
AngPrinted(x, v, d, tol) == Abs(Wrap(x (-) v, D("180"))) \preceq (Slack(d) (+) tol)

(* ground point record <<lat, lon, alt, theta>> (degrees and km), decimals 3 3 2 3 *)
GeoBad(prop, g, fix, jd) ==
  LET p == GroundPoint(fix.pos)
      gm == Gmst(jd)
      lon == LonOf(Deg(p[2]), gm)
      cl == Max2(Cos(p[1]), D("1e-9"))
      e == (fix.tol (/) D("6000")) (+) fix.spin
  IN  B(prop, InDeg(g[1], D("90"), 3) /\ InDeg(g[2], D("180"), 3), "range of the ground point")
      \cup B(prop, Printed(g[1], Deg(p[1]), 3, Deg(e) (+) D("1e-7")), "latitude of the ground point")
      \cup B(prop, VAngle(Vec(Rad(g[2]), p[1]), Vec(Rad(lon), p[1])) \preceq (Rad(Slack(3)) (+) e (+) D("1e-8")), "longitude of the ground point")
      \cup B(prop, Printed(g[3], p[3], 2, fix.tol (+) ((D("1e-11") (.) VNorm(fix.pos)) (/) Sq(cl)) (+) D("1e-6")), "altitude")
      \cup B(prop, AngPrinted(g[4], Deg(p[2]), 3, (Deg(e) (/) cl) (+) D("1e-7")) /\ AngPrinted(g[4], g[2] (+) (gm (.) D("15")), 3, Slack(3) (+) D("2e-6")), "theta")
=============================================================================
