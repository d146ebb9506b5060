------------------------------- MODULE AstroMC -------------------------------
(* The definitions of module Astro agree with each other on a grid of
   directions, sites and instants: each state is one point. *)
EXTENDS Astro, TLC
LOCAL INSTANCE IOUtils
G == IF IOEnv.BIG = "1" THEN 24 ELSE 8
VARIABLES i, j, k
Init == i \in 0..G /\ j = 0 /\ k = 0
Next == /\ i' = i
        /\ \/ j < 2 * G /\ k = 0 /\ j' = j + 1 /\ k' = k
           \/ k < G /\ j' = j /\ k' = k + 1
Spec == Init /\ [][Next]_<<i, j, k>>
Lat == (N(i) (.) (Pi (/) N(G))) (-) HalfPi
Ha  == (N(j) (.) (TwoPi (/) N(2 * G))) (-) Pi
Dec == (N(k) (.) (Pi (/) N(G))) (-) HalfPi
Tiny == D("1e-9")
Near(x, y, t) == Abs(x (-) y) \preceq t
UnitHorizon == Near(VNorm(HorizonVec(Dec, Ha, Lat)), One, Tiny)
ZenithDistance == \* the altitude is 90 deg minus the separation from the zenith direction (hour angle 0, declination = latitude)
  Near(HorizonVec(Dec, Ha, Lat)[3], Cos(VAngle(Vec(Neg(Ha), Dec), Vec(Zero, Lat))), Tiny)
SepSymmetric == Near(SepDeg(Ha, Dec, Zero, Lat), SepDeg(Zero, Lat, Ha, Dec), Tiny)
SepTurns == Near(SepDeg(Ha (+) TwoPi, Dec, Zero, Lat), SepDeg(Ha, Dec, Zero, Lat), D("1e-6"))
SepHalves == Near(SepDeg(Ha, Dec, Ha, Lat), Deg(Abs(Dec (-) Lat)), D("1e-7"))
GroundRoundTrip ==   \* the ground point of a point above the ellipsoid is the one it was raised from
  \A h \in {D("-5"), Zero, D("400"), D("36000")} :
    LET p == GeoPosition(Lat, Ha, h) g == GroundPoint(p) q == GeoPosition(g[1], g[2], g[3])
    IN  VNorm(VSub(p, q)) \preceq D("1e-6") /\ Near(g[3], h, D("1e-6")) /\ Near(g[1], Lat, D("1e-9"))
ShadowSide ==        \* a satellite toward the Sun is never in shadow, one behind the Earth on the axis always is
  LET s == VScale(AuKm, Vec(Ha, Dec)) IN
  /\ Sunlit(VScale(D("7000"), Vec(Ha, Dec)), s) /\ ~Sunlit(VScale(D("-7000"), Vec(Ha, Dec)), s)
  /\ ~Sunlit(VScale(D("-42000"), Vec(Ha, Dec)), s)
GmstDay == LET jd == J2000 (+) N(i * 1000 + j * 37 + k) IN   \* a solar day is 1.0027379 sidereal days
  Near(Wrap(Gmst(jd (+) One) (-) (Gmst(jd) (+) D("0.065709824")), D("12")), Zero, D("1e-6"))
PrecessionInRange == LET p == PrecessJ2000(J2000 (+) N((j - G) * 2000), Ha (+) Pi, Dec) IN
  Zero \preceq p[1] /\ p[1] \preceq TwoPi /\ Abs(p[2]) \preceq (HalfPi (+) Tiny)
=============================================================================
