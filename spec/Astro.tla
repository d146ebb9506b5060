-------------------------------- MODULE Astro --------------------------------
(* Sidereal time, the Sun, topocentric and horizontal coordinates, separations,
   ground point, Earth shadow.  Angles in radians unless a name says otherwise,
   distances in km. *)
EXTENDS FP, Integers, Sequences

LOCAL P_(s) == D(s)
Pi     == D("3.141592653589793238462643383279502884197")
TwoPi  == D("2") (.) Pi
HalfPi == Pi (/) D("2")
Rad(deg) == (deg (.) Pi) (/) D("180")
Deg(rad) == (rad (.) D("180")) (/) Pi
J2000  == D("2451545")
MjdOff == D("2400000.5")
SecDay == D("86400")
Zero == D("0")
One == D("1")
Two == D("2")

(* x modulo m, in [0, m) *)
Mod(x, m) == LET r == FMod(x, m) IN IF r \prec Zero THEN (r (+) m) ELSE r
(* difference of two angles the short way round, in [-h, h] for a full turn of 2h *)
Wrap(x, h) == LET r == Mod(x (+) h, h (+) h) IN r (-) h

(* ------------------------------------------------------------- vectors *)
Vec(ra, dec) == LET c == Cos(dec) IN <<Force(c (.) Cos(ra)), Force(c (.) Sin(ra)), Force(Sin(dec))>>
VDot(u, v) == (u[1] (.) v[1]) (+) (u[2] (.) v[2]) (+) (u[3] (.) v[3])
VSub(u, v) == <<Force(u[1] (-) v[1]), Force(u[2] (-) v[2]), Force(u[3] (-) v[3])>>
VScale(k, v) == <<Force(k (.) v[1]), Force(k (.) v[2]), Force(k (.) v[3])>>
VNorm(u) == Sqrt(VDot(u, u))
VCross(u, v) == <<Force((u[2] (.) v[3]) (-) (u[3] (.) v[2])), Force((u[3] (.) v[1]) (-) (u[1] (.) v[3])), Force((u[1] (.) v[2]) (-) (u[2] (.) v[1]))>>
(* angle between two directions, accurate everywhere *)
VAngle(u, v) == Atan2(VNorm(VCross(u, v)), VDot(u, v))

(* -------------------------------------------------------- sidereal time *)
(* IAU 1982 mean sidereal time of Greenwich, hours in [0, 24) *)
Gmst(jd) ==
  LET jd0 == Floor(jd (-) D("0.5")) (+) D("0.5")                 \* preceding midnight
      ut  == jd (-) jd0                                          \* days
      t   == (jd0 (-) J2000) (/) D("36525")
      s0  == D("24110.54841") (+) (t (.) (D("8640184.812866") (+) (t (.) (D("0.093104") (-) (t (.) D("6.2e-6"))))))
  IN  Mod((s0 (+) (SecDay (.) D("1.00273790934") (.) ut)) (/) D("3600"), D("24"))
Lmst(jd, lonDeg) == Mod(Gmst(jd) (+) (lonDeg (/) D("15")), D("24"))
HourAngleRad(h) == Rad(h (.) D("15"))

(* ------------------------------------------------------------------ Sun *)
(* low-precision formulae of the Astronomical Almanac, page C24 *)
SunRaDec(jd) ==
  LET n == jd (-) J2000
      g == Rad(D("357.528") (+) (D("0.9856003") (.) n))
      lam == Rad((D("280.460") (+) (D("0.9856474") (.) n)) (+) ((D("1.915") (.) Sin(g)) (+) (D("0.020") (.) Sin(Two (.) g))))
      eps == Rad(D("23.439") (-) (D("0.0000004") (.) n))
  IN  <<Force(Mod(Atan2(Cos(eps) (.) Sin(lam), Cos(lam)), TwoPi)), Force(Asin(Sin(eps) (.) Sin(lam)))>>
AuKm == D("149597870.7")

(* ------------------------------------------------- observer and target *)
(* geocentric position of a site on the reference ellipsoid (6378140 x 6356755 m) *)
SiteA == D("6378.140")
SiteRatio == D("6356755") (/) D("6378140")
SiteRhoCos(lat, htM) == LET u == Atan2(SiteRatio (.) Sin(lat), Cos(lat)) IN Cos(u) (+) ((htM (/) D("6378140")) (.) Cos(lat))
SiteRhoSin(lat, htM) == LET u == Atan2(SiteRatio (.) Sin(lat), Cos(lat)) IN (SiteRatio (.) Sin(u)) (+) ((htM (/) D("6378140")) (.) Sin(lat))
Site(jd, lon, lat, htM) ==
  LET th == lon (+) HourAngleRad(Gmst(jd))
      rc == SiteRhoCos(lat, htM) (.) SiteA
  IN  <<Force(rc (.) Cos(th)), Force(rc (.) Sin(th)), Force(SiteRhoSin(lat, htM) (.) SiteA)>>
(* <<RA, Dec, distance>> of a position seen from a site *)
Topocentric(site, pos) ==
  LET d == VSub(pos, site) r == VNorm(d)
  IN  <<Force(Mod(Atan2(d[2], d[1]), TwoPi)), Force(Asin(d[3] (/) r)), Force(r)>>

(* approximate precession from the equinox of date to J2000 (Meeus) *)
PrecessJ2000(jd, ra, dec) ==
  LET t == (jd (-) J2000) (/) D("36525")
      sec2rad == Rad(One) (/) D("240")
      m == (D("3.07496") (+) ((D("0.00186") (.) t) (/) Two)) (.) sec2rad
      n == (D("1.33621") (-) ((D("0.00057") (.) t) (/) Two)) (.) sec2rad
      y == t (.) D("100")                                         \* years
      r1 == ra (-) (y (.) (m (+) (n (.) Sin(ra) (.) Tan(dec))))
      d1 == dec (-) (y (.) n (.) Cos(ra))
      over == HalfPi \prec d1
      under == d1 \prec Neg(HalfPi)
      d2 == IF over THEN Pi (-) d1 ELSE IF under THEN Neg(Pi) (-) d1 ELSE d1
      r2 == IF over \/ under THEN r1 (+) Pi ELSE r1
  IN  <<Force(Mod(r2, TwoPi)), Force(d2)>>
(* how much an error of the right ascension can grow in the precession of dec *)
PrecGain(jd, dec) == One (+) (Abs((jd (-) J2000) (/) D("36525")) (.) (D("0.01") (/) Max2(Sq(Cos(dec)), D("1e-12"))))

(* ------------------------------------------------------------- horizon *)
(* direction with declination dec and hour angle ha seen from latitude lat: <<north, east, up>> *)
HorizonVec(dec, ha, lat) ==
  <<Force((Sin(dec) (.) Cos(lat)) (-) (Cos(dec) (.) Cos(ha) (.) Sin(lat))),
    Force(Neg(Cos(dec) (.) Sin(ha))),
    Force((Cos(dec) (.) Cos(ha) (.) Cos(lat)) (+) (Sin(dec) (.) Sin(lat)))>>
AzAltVec(az, alt) == <<Force(Cos(alt) (.) Cos(az)), Force(Cos(alt) (.) Sin(az)), Force(Sin(alt))>>
(* parallactic angle: from the pole to the zenith, positive west of the meridian, as <<cos, sin>> parts *)
ParangParts(dec, ha, lat) ==
  <<Force((Sin(lat) (.) Cos(dec)) (-) (Cos(lat) (.) Sin(dec) (.) Cos(ha))), Force(Sin(ha) (.) Cos(lat))>>

(* --------------------------------------------------------- separations *)
SepDeg(ra1, dec1, ra2, dec2) == Deg(VAngle(Vec(ra1, dec1), Vec(ra2, dec2)))
(* the documented flat approximation: RA taken the short way round *)
FlatSepDeg(ra1, dec1, ra2, dec2) ==
  LET a == Wrap(ra1 (-) ra2, Pi) d == dec1 (-) dec2 IN Deg(Sqrt(Sq(a) (+) Sq(d)))
(* position angle (degrees in [0,360)) of the motion from 1 to 2, as <<north, east>> parts *)
MotionParts(ra1, dec1, ra2, dec2) == <<Force(dec2 (-) dec1), Force(Wrap(ra2 (-) ra1, Pi) (.) Cos(dec1))>>

(* -------------------------------------------------------- ground point *)
GeoA == D("6378.1366")
GeoF == D("3.352819697896193e-3")
GeoE2 == GeoF (.) (Two (-) GeoF)
(* the point at geodetic latitude lat, height alt, right ascension th *)
GeoPosition(lat, th, alt) ==
  LET nn == GeoA (/) Sqrt(One (-) (GeoE2 (.) Sq(Sin(lat))))
      rc == (nn (+) alt) (.) Cos(lat)
  IN  <<Force(rc (.) Cos(th)), Force(rc (.) Sin(th)), Force(((nn (.) (One (-) GeoE2)) (+) alt) (.) Sin(lat))>>
RECURSIVE GeoIter(_, _, _, _)
GeoIter(r, z, phi, k) ==
  IF k = 0 THEN phi
  ELSE LET s == Sin(phi)
           c == GeoA (/) Sqrt(One (-) (GeoE2 (.) Sq(s)))
           p == Force(Atan2(z (+) (c (.) GeoE2 (.) s), r))
       IN  IF Abs(p (-) phi) \prec D("1e-13") THEN p ELSE GeoIter(r, z, p, k - 1)
(* <<latitude, right ascension, altitude>> of the ground point below pos, by iteration *)
GroundPoint(pos) ==
  LET r == Sqrt(Sq(pos[1]) (+) Sq(pos[2]))
      lat == GeoIter(r, pos[3], Atan2(pos[3], r), 60)
      s == Sin(lat)
      w == Sqrt(One (-) (GeoE2 (.) Sq(s)))
      nn == GeoA (/) w
      \* height along the normal, well conditioned at every latitude
      h == ((r (.) Cos(lat)) (+) (pos[3] (.) s)) (-) (GeoA (.) w)
  IN  <<Force(lat), Force(Atan2(pos[2], pos[1])), Force(h)>>
LonOf(thetaDeg, gmstH) == Wrap(thetaDeg (-) (gmstH (.) D("15")), D("180"))

(* --------------------------------------------------------- Earth shadow *)
(* signed clearance (km) of the straight line from the satellite toward the Sun above the
   sphere: negative when it meets the sphere *)
ShadowClearance(pos, sun) ==
  LET d == VSub(sun, pos)
      e == VScale(One (/) VNorm(d), d)
      b == Neg(VDot(pos, e))                   \* distance along the line to the point closest to the centre
      near2 == VDot(pos, pos) (-) Sq(b)        \* squared distance of that point
  IN  IF b \prec Zero THEN VNorm(pos) (-) GeoA
      ELSE Sqrt(Max2(near2, Zero)) (-) GeoA
Sunlit(pos, sun) == ~(ShadowClearance(pos, sun) \preceq Zero)
SunKm(jd) == LET s == SunRaDec(jd) IN VScale(AuKm, Vec(s[1], s[2]))
=============================================================================
