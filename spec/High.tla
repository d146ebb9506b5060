-------------------------------- MODULE High --------------------------------
(* Type-H element sets: a state vector (m, m/s, equatorial) integrated under the gravity
   of the Earth, the Moon and the Sun by the classical Runge-Kutta method in steps of at
   most one day. *)
EXTENDS FP, Integers, Sequences

LOCAL Dg == D("3.141592653589793238462643383279502884197") (/) D("180")
LOCAL Lin(a, b, t) == (a (.) Dg) (+) (b (.) Dg (.) t)
SinObl == D("0.397777155931913701597179975942380896684")
CosObl == D("0.917482062069181825744000384639406458043")
ToEcl(v) == <<v[1], Force((v[2] (.) CosObl) (+) (v[3] (.) SinObl)), Force((v[3] (.) CosObl) (-) (v[2] (.) SinObl))>>
ToEqu(v) == <<v[1], Force((v[2] (.) CosObl) (-) (v[3] (.) SinObl)), Force((v[3] (.) CosObl) (+) (v[2] (.) SinObl))>>

Cent(jd) == (jd (-) D("2451545")) (/) D("36525")
Polar(lon, lat, r) == <<Force(r (.) Cos(lat) (.) Cos(lon)), Force(r (.) Cos(lat) (.) Sin(lon)), Force(r (.) Sin(lat)), r>>
(* low-precision Moon and Sun of Meeus, ecliptic, metres; the last component is the distance *)
Moon(jd) ==
  LET t == Cent(jd)
      lp == Lin(D("218.3164477"), D("481267.88123421"), t)
      mp == Lin(D("134.9633964"), D("477198.8675055"), t)
      ms == Lin(D("357.5291092"), D("35999.0502909"), t)
      f  == Lin(D("93.2720950"), D("483202.0175233"), t)
      el == Lin(D("297.8501921"), D("445267.1114034"), t)
      Two(x) == D("2") (.) x
      t2 == Two(el) (-) mp
      T(k, x) == k (.) Dg (.) Sin(x)
      lon == (lp (+) T(D("6.288774"), mp) (+) T(D("1.274027"), t2) (+) T(D("0.658314"), Two(el)) (+) T(D("0.213618"), Two(mp))) (-) (T(D("0.185166"), ms) (+) T(D("0.114332"), Two(f)))
      lat == T(D("5.128122"), f) (+) T(D("0.280602"), mp (+) f) (+) T(D("0.277693"), mp (-) f) (+) T(D("0.173237"), Two(el) (-) f)
      r == D("385000560") (-) ((D("20905355") (.) Cos(mp)) (+) (D("3699111") (.) Cos(t2)) (+) (D("2955968") (.) Cos(Two(el))) (+) (D("569925") (.) Cos(Two(ms))))
  IN  Polar(lon, lat, Force(r))
SunE(jd) ==
  LET t == Cent(jd)
      ms == Lin(D("357.5291092"), D("35999.0502909"), t)
      lon == Lin(D("280.46646"), D("36000.76983"), t) (+) (D("1.914602") (.) Dg (.) Sin(ms))
      r == D("1.495978707e11") (.) (D("1") (-) (D("0.016708634") (.) Cos(ms)))
  IN  Polar(lon, D("0"), Force(r))

LOCAL Norm3(v) == Sqrt((v[1] (.) v[1]) (+) (v[2] (.) v[2]) (+) (v[3] (.) v[3]))
LOCAL Cube(x) == x (.) x (.) x
GmEarth == D("3.9860044e14")
GmSun   == D("1.3271243994e20")
GmMoon  == D("4.902798e12")
(* tidal pull of a body at o (with distance o[4]) on a point p *)
Tide(gm, o, p) ==
  LET d == <<Force(o[1] (-) p[1]), Force(o[2] (-) p[2]), Force(o[3] (-) p[3])>>
      k1 == gm (/) Cube(o[4])  k2 == gm (/) Cube(Norm3(d))
  IN  [i \in 1..3 |-> Force((k2 (.) d[i]) (-) (k1 (.) o[i]))]
Accel(jd, p) ==
  LET k == Neg(GmEarth) (/) Cube(Norm3(p))
      s == Tide(GmSun, SunE(jd), p)  m == Tide(GmMoon, Moon(jd), p)
  IN  <<Force((k (.) p[1]) (+) s[1] (+) m[1]), Force((k (.) p[2]) (+) s[2] (+) m[2]), Force((k (.) p[3]) (+) s[3] (+) m[3])>>
Deriv(jd, y) == LET a == Accel(jd, <<y[1], y[2], y[3]>>) IN <<y[4], y[5], y[6], a[1], a[2], a[3]>>
Along(y, h, k) == <<Force(y[1] (+) (h (.) k[1])), Force(y[2] (+) (h (.) k[2])), Force(y[3] (+) (h (.) k[3])),
                    Force(y[4] (+) (h (.) k[4])), Force(y[5] (+) (h (.) k[5])), Force(y[6] (+) (h (.) k[6]))>>
(* how fast the pull changes at a point *)
Gradient(jd, p) ==
  LET m == Moon(jd) IN
  (GmEarth (/) Cube(Norm3(p))) (+) (GmMoon (/) Cube(Norm3(<<Force(m[1] (-) p[1]), Force(m[2] (-) p[2]), Force(m[3] (-) p[3])>>)))
(* one Runge-Kutta step of dt days: the state after it, and how much it may make errors grow *)
RkStep(jd, y, dt) ==
  LET h == dt (.) D("86400")  hh == h (.) D("0.5")  jm == jd (+) (dt (/) D("2"))
      k1 == Deriv(jd, y)
      y2 == Along(y, hh, k1)  k2 == Deriv(jm, y2)
      y3 == Along(y, hh, k2)  k3 == Deriv(jm, y3)
      y4 == Along(y, h, k3)   k4 == Deriv(jd (+) dt, y4)
      g == Force(D("2") (.) h (.) h (.) Max2(Max2(Gradient(jd, y), Gradient(jm, y2)), Max2(Gradient(jm, y3), Gradient(jd (+) dt, y4))))
      w(i) == k1[i] (+) (D("2") (.) (k2[i] (+) k3[i])) (+) k4[i]
  IN  [grow |-> Force(D("1") (+) (g (/) D("2")) (+) ((g (.) g) (/) D("24"))), y |->
      <<Force(y[1] (+) ((h (/) D("6")) (.) w(1))), Force(y[2] (+) ((h (/) D("6")) (.) w(2))), Force(y[3] (+) ((h (/) D("6")) (.) w(3))),
        Force(y[4] (+) ((h (/) D("6")) (.) w(4))), Force(y[5] (+) ((h (/) D("6")) (.) w(5))), Force(y[6] (+) ((h (/) D("6")) (.) w(6)))>>]
DayStep(days) == IF D("1") \prec days THEN D("1") ELSE IF days \prec D("-1") THEN D("-1") ELSE days

(* state of an integration: [jd, left (days), y (ecliptic), gain] *)
HighStart(el, tMin) ==
  LET p == ToEcl(<<el.sv[1], el.sv[2], el.sv[3]>>)  v == ToEcl(<<el.sv[4], el.sv[5], el.sv[6]>>)
  IN  [jd |-> el.epoch, left |-> Force(tMin (/) D("1440")), y |-> <<p[1], p[2], p[3], v[1], v[2], v[3]>>, gain |-> D("1")]
HighDone(h) == ~(D("0") \prec h.left) /\ ~(h.left \prec D("0"))
HighNext(h) == LET dt == Force(DayStep(h.left))  s == RkStep(h.jd, h.y, dt) IN [jd |-> Force(h.jd (+) dt), left |-> Force(h.left (-) dt), y |-> s.y, gain |-> Force(h.gain (.) s.grow)]
RECURSIVE HighRun(_)
HighRun(h) == IF HighDone(h) THEN h ELSE HighRun(Force(HighNext(h)))
(* position (km) and velocity (km/min) of an integration state *)
HighOut(h) ==
  LET p == ToEqu(<<h.y[1], h.y[2], h.y[3]>>)  v == ToEqu(<<h.y[4], h.y[5], h.y[6]>>)
  IN  [rc |-> 0, sure |-> TRUE, gain |-> h.gain,
       pos |-> <<Force(p[1] (/) D("1000")), Force(p[2] (/) D("1000")), Force(p[3] (/) D("1000"))>>,
       vel |-> <<Force((v[1] (.) D("60")) (/) D("1000")), Force((v[2] (.) D("60")) (/) D("1000")), Force((v[3] (.) D("60")) (/) D("1000"))>>]
HighAt(el, t) == HighOut(HighRun(HighStart(el, t)))
=============================================================================
