----------------------------- MODULE AstroTrace -----------------------------
(* Recorded calls of the time, coordinate and separation functions, each judged
   against modules Calendar and Astro. *)
EXTENDS Calendar, Nutation, Verdict

F(o) == o.f                               \* the numbers returned, as text
X(o, i) == R(o.f[i])
A(o, i) == R(o.a[i])                      \* the numbers given
B(p, ok, why) == IF ok THEN {} ELSE {<<p, why>>}
AllFinite(o) == \A i \in 1..Len(o.f) : IsFinite(R(o.f[i]))
Within(x, v, tol) == Abs(x (-) v) \preceq tol
InRange(x, lo, hi) == lo \preceq x /\ x \preceq hi
Below(x, hi) == x \prec hi
AngClose(x, v, h, tol) == Abs(Wrap(x (-) v, h)) \preceq tol

(* ------------------------------------------------------------------ dates *)
JudgeD2m(o) ==
  LET r == DateOf(o.t) IN
  IF o.rc = 0
  THEN B("C09", r.date, "text that is not a date accepted")
       \cup (IF r.real THEN B("C09", IsFinite(X(o, 1)) /\ Within(X(o, 1), MjdOfDate(r), D("1.0001e-5")), "date to MJD") ELSE {})
  ELSE B("C09", ~r.real, "date refused")
JudgeM2d(o) ==                         \* frac: with fractional seconds
  LET m == A(o, 1) IN
  IF o.null
  THEN B("C09", ~Supported(m), "no date in the supported range")
  ELSE B("C09", Supported(m), "date outside the supported range")
       \cup (IF ~(m \prec FirstMjd) /\ m \preceq EndMjd THEN B("C09", IsDateOf(o.t, m, o.frac), "date of MJD") ELSE {})
JudgeMono(o) ==                        \* texts of increasing instants
  B("C09", \A k \in 1..(Len(o.ts) - 1) : LexLe(o.ts[k], o.ts[k + 1], 1), "dates not monotonic")
JudgeNow(o) ==
  B("C09", IsFinite(X(o, 1)) /\ LET s == (X(o, 1) (-) N(40587)) (.) SecDay
    IN InRange(s, R(o.a[1]) (-) D("1.1"), R(o.a[2]) (+) D("1.1")), "mjdnow")

(* ------------------------------------------------------------- sky functions *)
JudgeLmst(o) ==                         \* a: jd, lon (deg); f: lmst, gmst
  B("C16", AllFinite(o) /\ InRange(X(o, 1), Zero, D("24")) /\ Below(X(o, 1), D("24")) /\ InRange(X(o, 2), Zero, D("24")) /\ Below(X(o, 2), D("24")), "sidereal time range")
  \cup B("C16", AllFinite(o) /\ AngClose(X(o, 2), Gmst(A(o, 1)), D("12"), D("1e-7")), "GMST")
  \cup B("C16", AllFinite(o) /\ AngClose(X(o, 1), Lmst(A(o, 1), A(o, 2)), D("12"), D("1e-7")), "LMST")
JudgeSun(o) ==
  B("C16", AllFinite(o) /\ InRange(X(o, 1), Zero, TwoPi) /\ InRange(X(o, 2), Neg(HalfPi), HalfPi), "Sun range")
  \cup B("C16", AllFinite(o) /\ LET s == SunRaDec(A(o, 1)) IN VAngle(Vec(X(o, 1), X(o, 2)), Vec(s[1], s[2])) \preceq D("1e-9"), "Sun position")
JudgeHoriz(o) ==                        \* a: dec (rad), ha (h), lat (deg); f: alt, az, parang (deg)
  LET dec == A(o, 1) ha == HourAngleRad(A(o, 2)) lat == Rad(A(o, 3))
      v == HorizonVec(dec, ha, lat)
      q == ParangParts(dec, ha, lat)
      qn == Sqrt(Sq(q[1]) (+) Sq(q[2]))
  IN  B("C16", AllFinite(o) /\ InRange(X(o, 1), D("-90"), D("90")) /\ InRange(X(o, 2), Zero, D("360")) /\ Below(X(o, 2), D("360"))
                /\ InRange(X(o, 3), D("-360"), D("360")), "horizontal coordinates range")
      \cup B("C16", AllFinite(o) /\ VAngle(AzAltVec(Rad(X(o, 2)), Rad(X(o, 1))), v) \preceq D("2e-6"), "azimuth and altitude")
      \cup (IF D("1e-6") \prec qn /\ D("1e-6") \prec Cos(dec)
            THEN B("C16", AllFinite(o) /\ AngClose(Rad(X(o, 3)), Atan2(q[2], q[1]), Pi, D("1e-8") (+) (D("1e-14") (/) Sq(qn))), "parallactic angle") ELSE {})
JudgeSep(o) ==                          \* a: two directions; f: separation, separation of the exchanged pair
  LET s == SepDeg(A(o, 1), A(o, 2), A(o, 3), A(o, 4)) IN
  B("C16", AllFinite(o) /\ InRange(X(o, 1), Zero, D("180.000001")), "separation range")
  \cup B("C16", AllFinite(o) /\ Within(X(o, 1), s, D("3e-6")), "separation")
  \cup B("C16", AllFinite(o) /\ (D("1e-7") \prec s => Zero \prec X(o, 1)), "separation of different directions is zero")
  \cup B("C16", AllFinite(o) /\ Within(X(o, 1), X(o, 2), D("1e-9")), "separation not symmetric")
JudgePrec(o) ==
  LET p == PrecessJ2000(A(o, 1), A(o, 2), A(o, 3)) IN
  UNION {B(c, AllFinite(o) /\ InRange(X(o, 1), Zero, TwoPi) /\ InRange(X(o, 2), Neg(HalfPi) (-) D("1e-12"), HalfPi (+) D("1e-12")), "J2000 range")
         \cup B(c, AllFinite(o) /\ VAngle(Vec(X(o, 1), X(o, 2)), Vec(p[1], p[2])) \preceq (D("1e-9") (.) PrecGain(A(o, 1), A(o, 3))), "J2000 coordinates") : c \in {"C14", "C16"}}
JudgeObs(o) ==                          \* a: jd, lon, lat (rad), ht (m); f: rho cos, rho sin, x, y, z
  LET s == Site(A(o, 1), A(o, 2), A(o, 3), A(o, 4)) IN
  UNION {B(c, AllFinite(o) /\ \A i \in 1..3 : Within(X(o, i + 2), s[i], D("1e-4")), "observer position") : c \in {"C14", "C16"}}
JudgeRadec(o) ==
  LET t == Topocentric(<<A(o, 1), A(o, 2), A(o, 3)>>, <<A(o, 4), A(o, 5), A(o, 6)>>) IN
  UNION {B(c, AllFinite(o) /\ InRange(X(o, 1), Zero, TwoPi) /\ InRange(X(o, 2), Neg(HalfPi), HalfPi)
         /\ VAngle(Vec(X(o, 1), X(o, 2)), Vec(t[1], t[2])) \preceq D("3e-8") /\ Within(X(o, 3), t[3], D("1e-9") (.) (One (+) t[3])), "topocentric direction") : c \in {"C14", "C16"}}
(* mean time: the formula of the library and IAU 1982 differ by 0.019 s per century; apparent time: the equation of the
   equinoxes may be that of a moment up to 0.01 day away (1.6e-4 s) *)
JudgeSid(o) ==                          \* a: ut1 (MJD), lon (deg); f: gmst, gast, last at that time, zenith RA, zenith RA (apparent)
  LET jd == Force(MjdOff (+) A(o, 1))
      g == Force(Gmst(jd))
      c == Abs(jd (-) J2000) (/) D("36525")
      sh == Force(A(o, 2) (/) D("15"))
      tg == ((D("0.02") (.) c) (+) D("0.002")) (/) D("3600")
  IN  B("C16", AllFinite(o) /\ InRange(X(o, 1), Zero, D("24")) /\ Below(X(o, 1), D("24")), "GMST range (zenith RA functions)")
      \cup B("C16", AllFinite(o) /\ InRange(X(o, 3), Zero, D("24")) /\ Below(X(o, 3), D("24")), "LAST range")
      \cup B("C16", AllFinite(o) /\ InRange(X(o, 2), Zero, D("24")) /\ Below(X(o, 2), D("24")), "GAST range")
      \cup B("C16", AllFinite(o) /\ InRange(X(o, 4), Zero, D("360")) /\ Below(X(o, 4), D("360")) /\ InRange(X(o, 5), Zero, D("360")) /\ Below(X(o, 5), D("360")), "range of the zenith RA")
      \cup B("C16", AllFinite(o) /\ AngClose(X(o, 1), g, D("12"), tg), "GMST (zenith RA functions)")
      \cup B("C16", AllFinite(o) /\ AngClose(X(o, 2) (-) X(o, 1), Tilt(jd)[3] (/) D("3600"), D("12"), D("5e-8")), "GAST: equation of the equinoxes")
      \cup B("C16", AllFinite(o) /\ AngClose(X(o, 3) (-) X(o, 2), sh, D("12"), D("1e-9")), "LAST: longitude")
      \cup B("C16", AllFinite(o) /\ AngClose(X(o, 4), (X(o, 1) (+) sh) (.) D("15"), D("180"), D("1e-7")), "zenith RA")
      \cup B("C16", AllFinite(o) /\ AngClose(X(o, 5), X(o, 3) (.) D("15"), D("180"), D("1e-6")), "zenith RA from apparent time")
(* a session of dates; f: five numbers for each. The value may be that of a date asked before, at most 0.01 day away. *)
TiltFits(v, w) == /\ Within(v[1], w[1], D("1e-9")) /\ Within(v[2], w[2], D("1e-9"))
                  /\ Within(v[3], w[3], D("1e-6")) /\ Within(v[4], w[4], D("1e-5")) /\ Within(v[5], w[5], D("1e-5"))
JudgeTilt(o) ==
  LET n == Len(o.a)
      w == [k \in 1..n |-> Tilt(A(o, k))]
      v(k) == [j \in 1..5 |-> X(o, 5 * (k - 1) + j)]
  IN  B("C16", AllFinite(o) /\ Len(o.f) = 5 * n /\ \A k \in 1..n : \E q \in 1..k : Abs(A(o, k) (-) A(o, q)) \preceq D("0.010001") /\ TiltFits(v(k), w[q]), "nutation, obliquity, equation of the equinoxes")

Judge(o) ==
  IF o.crash # "" THEN {<<c, "crash">> : c \in {"C09", "C14", "C16"}}
  ELSE CASE o.k = "d2m" -> JudgeD2m(o) [] o.k = "m2d" -> JudgeM2d(o) [] o.k = "mono" -> JudgeMono(o) [] o.k = "now" -> JudgeNow(o)
         [] o.k = "lmst" -> JudgeLmst(o) [] o.k = "sun" -> JudgeSun(o) [] o.k = "horiz" -> JudgeHoriz(o)
         [] o.k = "sep" -> JudgeSep(o) [] o.k = "prec" -> JudgePrec(o) [] o.k = "obs" -> JudgeObs(o)
         [] o.k = "radec" -> JudgeRadec(o) [] o.k = "sid" -> JudgeSid(o) [] o.k = "tilt" -> JudgeTilt(o)

VARIABLES run, done, bad
Init == run \in 1..Len(Trace) /\ done = FALSE /\ bad = {}
Next == /\ ~done /\ done' = TRUE /\ run' = run
        /\ bad' = Mine(Judge(Trace[run]))
        /\ Report(Trace[run].id, bad')
Ok == bad = {}
Spec == Init /\ [][Next]_<<run, done, bad>>
=============================================================================
