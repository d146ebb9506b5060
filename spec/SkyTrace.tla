------------------------------ MODULE SkyTrace ------------------------------
(* Recorded region and name searches of sat_skymap on one catalogue of correct element sets with
   different numbers, one step per element set: it is listed exactly when it must be, and what is
   reported for it is what the model and the geometry give.
     o.sets   [l1, l2] of the catalogue in order *)
EXTENDS Sighting, Verdict

P_(o) == Used(o, Decode(o.tool, o.args).p)
(* where the search is centred: J2000 direction, or the site with -E *)
RaRad(p) == Rad(Centre(p)[1])
DecRad(p) == Rad(Centre(p)[2])
Delta(p) == N(p.dt)
Second(p) == Jd(p, 1) (+) (Delta(p) (/) SecDay)

(* everything about one element set *)
Case(p, el) ==
  LET model == ModelOf(el)
      jd == Jd(p, 1)
      t1 == Since(jd, el)
      dt == IF p.dt = 0 THEN One ELSE Delta(p)
      t2 == t1 (+) ((dt (.) D("1440")) (/) SecDay)
      prm == Force(M!InitOf(model, el))
      s1 == M!Step(model, el, prm, M!FreshState(model, prm), t1)
      s2 == M!Step(model, el, prm, s1.st, t2)
      sp == IF IsError(s1.out.rc) \/ IsError(s2.out.rc) \/ ~s1.out.sure \/ ~s2.out.sure THEN VNorm(s1.out.vel) (/) D("60") ELSE SpeedOf(s1.out, s2.out, Abs(dt))
      f1 == Force(Fix(model, s1.out, Tau(p), sp))
      wild == ~el.high /\ p.dated /\ D("0.02") \prec Abs(el.bstar)   \* moves too much within the precision of the date
  IN  IF model = "either" \/ wild THEN [f1 |-> NoFix("unsure"), f2 |-> NoFix("unsure")]
      ELSE [f1 |-> f1, f2 |-> IF p.dt = 0 THEN f1 ELSE Force(Fix(model, s2.out, Quantum (+) Tau(p), sp))]

(* separation (degrees) from the centre and its error *)
SepOf(p, l) ==
  IF p.hav THEN [v |-> Force(SepDeg(RaRad(p), DecRad(p), l.ra, l.dec)), e |-> Force(Deg(l.err) (+) D("3e-6"))]
  ELSE [v |-> Force(FlatSepDeg(l.ra, l.dec, RaRad(p), DecRad(p))), e |-> Force((Deg(l.err) (.) (One (+) (One (/) CosOf(l)))) (+) D("1e-7"))]
GroundLook(f, jd) == LET g == GroundPoint(f.pos) IN [ra |-> Rad(LonOf(Deg(g[2]), Gmst(jd))), dec |-> g[1], dist |-> Zero, err |-> Force(((f.tol (/) D("6000")) (+) f.spin) (+) D("1e-8"))]
SiteSep(p, l) ==
  LET lon == Rad(p.lon) lat == Rad(p.lat) IN
  IF p.hav THEN [v |-> Force(SepDeg(lon, lat, l.ra, l.dec)), e |-> Force(Deg(l.err) (+) D("3e-6"))]
  ELSE [v |-> Force(FlatSepDeg(l.ra, l.dec, lon, lat)), e |-> Force((Deg(l.err) (.) (One (+) (One (/) CosOf(l)))) (+) D("1e-7"))]
Within(p, s) == IF (s.v (+) s.e) \preceq p.radius THEN "in" ELSE IF p.radius \prec (s.v (-) s.e) THEN "out" ELSE "unsure"
Either(a, b) == IF "in" \in {a, b} THEN "in" ELSE IF a = "out" /\ b = "out" THEN "out" ELSE "unsure"

Anywhere(p) == p.byName \/ Single(p)
Find_(o, n) == IF \E k \in 1..Len(o.sats) : o.sats[k].norad = n THEN CHOOSE k \in 1..Len(o.sats) : o.sats[k].norad = n ELSE 0
DataOk(s) == Len(s.data) = 10 /\ \A k \in 1..10 : s.data[k] # ""

RecordBad(p, c, l1, j1, j2, s) ==
  LET v(k) == R(s.data[k])
      jd == Jd(p, 1)
      sep == IF p.geoRef THEN SiteSep(p, GroundLook(c.f1, jd)) ELSE SepOf(p, j1)
      mp == MotionParts(j1.ra, j1.dec, j2.ra, j2.dec)
      ml == Sqrt(Sq(mp[1]) (+) Sq(mp[2]))
      perr == (((j1.err (+) j2.err) (.) D("1.5")) (+) D("1e-12")) (/) ml
      pa == Mod(Deg(Atan2(mp[2], mp[1])), D("360"))
      pd == Wrap((v(7) (+) D("0.5")) (-) pa, D("180"))
      sp == IF p.dt = 0 THEN Zero ELSE (SepDeg(j1.ra, j1.dec, j2.ra, j2.dec) (.) D("60")) (/) Delta(p)
      spe == IF p.dt = 0 THEN Zero ELSE ((Deg(j1.err (+) j2.err) (+) D("3e-6")) (.) D("60")) (/) Abs(Delta(p))
      a == Lit(c.f1, jd)  b == Lit(c.f2, jd)
      pix == D("600") (.) j1.err
      h == H!OfAngles(HalfPi (-) j1.dec, j1.ra)
      n == Trunc(v(10))
  IN  B("C14", DirPrinted(v(1), v(2), 4, j1), "direction at the epoch")
      \cup B("C14", DirPrinted(v(3), v(4), 4, j2), "direction at the second epoch")
      \cup B("C14", Printed(v(5), l1.dist, 2, c.f1.tol (+) D("1e-6")), "distance")
      \cup B("C14", Printed(v(6), sep.v, 4, sep.e), "separation from the centre")
      \cup B("C14", Zero \preceq v(7) /\ v(7) \preceq D("360") /\ (perr \prec D("0.3") => Abs(pd) \preceq (D("0.5001") (+) Deg(perr (.) D("1.2")))), "position angle of the motion")
      \cup B("C14", Printed(v(8), sp, 3, spe), "speed")
      \cup B("C15", v(9) \in {D("0"), D("1")} /\ ~(SameBits(v(9), D("1")) /\ a = "no" /\ b = "no") /\ ~(SameBits(v(9), D("0")) /\ a = "yes" /\ b = "yes"), "sunlit flag")
      \cup B("C14", ~(v(10) \prec Zero) /\ v(10) \prec D("786432") /\ H!Contains(256, H!PixelOfNest(256, n), h, pix (+) H!TolDir(256, h, FALSE) (+) D("1e-9")), "sky pixel")
      \cup (IF GeoShown(p) THEN IF Len(s.geo) # 4 THEN {<<"C15", "ground point not shown">>} ELSE GeoBad("C15", <<R(s.geo[1]), R(s.geo[2]), R(s.geo[3]), R(s.geo[4])>>, c.f1, jd) ELSE {})

SetBad(o, k) ==
  LET p == P_(o)
      s == o.sets[k]
      el == Force(T!Elements(s.l1, s.l2))
      number == ToString(T!CatNumber(s.l1))
      at == Find_(o, number)
      listed == at > 0
      jd == Jd(p, 1)
      c == Force(Case(p, el))
      l1 == Force(Look(c.f1, jd, p.lon, p.lat, p.ht))
      l2 == Force(Look(c.f2, Second(p), p.lon, p.lat, p.ht))
      j1 == Force(LookJ2000(l1, jd))
      j2 == Force(LookJ2000(l2, jd))
      where == IF Anywhere(p) THEN "in"
               ELSE IF p.geoRef THEN Within(p, SiteSep(p, GroundLook(c.f1, jd)))
               ELSE Either(Within(p, SepOf(p, j1)), Within(p, SepOf(p, j2)))
  IN  IF c.f1.known = "no" \/ c.f2.known = "no"
      THEN (IF listed /\ c.f1.known = "no" THEN {<<"C01", "satellite without a position listed">>, <<"C21", "satellite without a position listed">>, <<"C14", "satellite without a position listed">>} ELSE {})
      ELSE IF c.f1.known = "unsure" \/ c.f2.known = "unsure" \/ ~(l1.err \prec D("0.01")) \/ ~(l2.err \prec D("0.01")) THEN {}
      ELSE B("C01", ~(where = "in" /\ ~listed), "satellite inside the circle not listed")
           \cup B("C01", ~(where = "out" /\ listed), "satellite outside the circle listed")
           \cup (IF ~listed THEN {} ELSE IF ~DataOk(o.sats[at]) THEN {<<"C14", "data of a satellite">>} ELSE RecordBad(p, c, l1, j1, j2, o.sats[at]))

(* the listing as a whole: catalogue order, nothing twice, nothing else *)
Numbers(o) == [k \in 1..Len(o.sets) |-> ToString(T!CatNumber(o.sets[k].l1))]
OrderBad(o) ==
  LET ns == Numbers(o)
      got == [k \in 1..Len(o.sats) |-> o.sats[k].norad]
      pos == [k \in 1..Len(got) |-> IF \E i \in 1..Len(ns) : ns[i] = got[k] THEN CHOOSE i \in 1..Len(ns) : ns[i] = got[k] ELSE 0]
  IN  B("C01", \A k \in 1..Len(pos) : pos[k] > 0 /\ (k > 1 => pos[k - 1] < pos[k]), "catalogue order")
      \cup B("C01", o.kind = "json" /\ IsInt(o, "status", 0), "search failed")

VARIABLES run, k, bad
Init == run \in 1..Len(Trace) /\ k = 0 /\ bad = {}
Next ==
  LET o == Trace[run] IN
  /\ bad = {} /\ k <= Len(o.sets)
  /\ k' = k + 1 /\ run' = run
  /\ bad' = Mine(IF k = 0 THEN IF o.crash # "" THEN {<<"*", "crash: " \o o.crash>>} ELSE OrderBad(o) ELSE {<<b[1], b[2] \o " (set " \o ToString(k) \o ")">> : b \in SetBad(o, k)})
  /\ Report(o.id, bad')
Ok == bad = {}
Spec == Init /\ [][Next]_<<run, k, bad>>
=============================================================================
