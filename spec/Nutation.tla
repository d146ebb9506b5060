------------------------------ MODULE Nutation ------------------------------
(* The IAU 1980 theory of nutation (106 terms), the obliquity of the ecliptic and
   the equation of the equinoxes. Arguments in Julian centuries of J2000. *)
EXTENDS Astro

(* multiples of l, l', F, D, Omega; coefficient of the sine in longitude (0.0001"), its
   change per century (0.00001"), coefficient of the cosine in obliquity, its change *)
Terms == <<
  <<0, 0, 0, 0, 1, -171996, -1742, 92025, 89>>,
  <<0, 0, 2, -2, 2, -13187, -16, 5736, -31>>,
  <<0, 0, 2, 0, 2, -2274, -2, 977, -5>>,
  <<0, 0, 0, 0, 2, 2062, 2, -895, 5>>,
  <<0, 1, 0, 0, 0, 1426, -34, 54, -1>>,
  <<1, 0, 0, 0, 0, 712, 1, -7, 0>>,
  <<0, 1, 2, -2, 2, -517, 12, 224, -6>>,
  <<0, 0, 2, 0, 1, -386, -4, 200, 0>>,
  <<1, 0, 2, 0, 2, -301, 0, 129, -1>>,
  <<0, -1, 2, -2, 2, 217, -5, -95, 3>>,
  <<-1, 0, 0, 2, 0, 158, 0, -1, 0>>,
  <<0, 0, 2, -2, 1, 129, 1, -70, 0>>,
  <<-1, 0, 2, 0, 2, 123, 0, -53, 0>>,
  <<1, 0, 0, 0, 1, 63, 1, -33, 0>>,
  <<0, 0, 0, 2, 0, 63, 0, -2, 0>>,
  <<-1, 0, 2, 2, 2, -59, 0, 26, 0>>,
  <<-1, 0, 0, 0, 1, -58, -1, 32, 0>>,
  <<1, 0, 2, 0, 1, -51, 0, 27, 0>>,
  <<-2, 0, 0, 2, 0, -48, 0, 1, 0>>,
  <<-2, 0, 2, 0, 1, 46, 0, -24, 0>>,
  <<0, 0, 2, 2, 2, -38, 0, 16, 0>>,
  <<2, 0, 2, 0, 2, -31, 0, 13, 0>>,
  <<1, 0, 2, -2, 2, 29, 0, -12, 0>>,
  <<2, 0, 0, 0, 0, 29, 0, -1, 0>>,
  <<0, 0, 2, 0, 0, 26, 0, -1, 0>>,
  <<0, 0, 2, -2, 0, -22, 0, 0, 0>>,
  <<-1, 0, 2, 0, 1, 21, 0, -10, 0>>,
  <<0, 2, 0, 0, 0, 17, -1, 0, 0>>,
  <<-1, 0, 0, 2, 1, 16, 0, -8, 0>>,
  <<0, 2, 2, -2, 2, -16, 1, 7, 0>>,
  <<0, 1, 0, 0, 1, -15, 0, 9, 0>>,
  <<1, 0, 0, -2, 1, -13, 0, 7, 0>>,
  <<0, -1, 0, 0, 1, -12, 0, 6, 0>>,
  <<-2, 0, 2, 0, 0, -11, 0, 0, 0>>,
  <<-1, 0, 2, 2, 1, -10, 0, 5, 0>>,
  <<1, 0, 2, 2, 2, -8, 0, 3, 0>>,
  <<0, 1, 2, 0, 2, 7, 0, -3, 0>>,
  <<0, -1, 2, 0, 2, -7, 0, 3, 0>>,
  <<0, 0, 2, 2, 1, -7, 0, 3, 0>>,
  <<-1, -1, 0, 2, 0, 7, 0, 0, 0>>,
  <<-2, 0, 0, 2, 1, -6, 0, 3, 0>>,
  <<2, 0, 2, -2, 2, 6, 0, -3, 0>>,
  <<0, 0, 0, 2, 1, -6, 0, 3, 0>>,
  <<1, 0, 2, -2, 1, 6, 0, -3, 0>>,
  <<1, 0, 0, 2, 0, 6, 0, 0, 0>>,
  <<0, -1, 2, -2, 1, -5, 0, 3, 0>>,
  <<0, 0, 0, -2, 1, -5, 0, 3, 0>>,
  <<2, 0, 2, 0, 1, -5, 0, 3, 0>>,
  <<1, -1, 0, 0, 0, 5, 0, 0, 0>>,
  <<2, 0, 0, -2, 1, 4, 0, -2, 0>>,
  <<0, 1, 2, -2, 1, 4, 0, -2, 0>>,
  <<-1, 0, 0, 1, 0, 4, 0, 0, 0>>,
  <<0, -1, 0, 2, 0, 4, 0, 0, 0>>,
  <<-1, 0, 2, 0, 0, -4, 0, 0, 0>>,
  <<0, 0, 0, 1, 0, -4, 0, 0, 0>>,
  <<-2, 0, 2, 0, 2, -3, 0, 1, 0>>,
  <<1, -1, 2, 0, 2, -3, 0, 1, 0>>,
  <<-1, -1, 2, 2, 2, -3, 0, 1, 0>>,
  <<3, 0, 2, 0, 2, -3, 0, 1, 0>>,
  <<0, -1, 2, 2, 2, -3, 0, 1, 0>>,
  <<-1, 1, 0, 1, 0, 3, 0, 0, 0>>,
  <<1, 1, 0, 0, 0, -3, 0, 0, 0>>,
  <<1, 0, 2, 0, 0, 3, 0, 0, 0>>,
  <<0, -2, 2, -2, 1, -2, 0, 1, 0>>,
  <<-2, 0, 0, 0, 1, -2, 0, 1, 0>>,
  <<1, 1, 2, 0, 2, 2, 0, -1, 0>>,
  <<-1, 0, 2, -2, 1, -2, 0, 1, 0>>,
  <<2, 0, 0, 0, 1, 2, 0, -1, 0>>,
  <<1, 0, 0, 0, 2, -2, 0, 1, 0>>,
  <<0, 0, 2, 1, 2, 2, 0, -1, 0>>,
  <<-1, 0, 2, 4, 2, -2, 0, 1, 0>>,
  <<3, 0, 0, 0, 0, 2, 0, 0, 0>>,
  <<-1, 0, 0, 0, 2, 1, 0, -1, 0>>,
  <<-2, 0, 2, 2, 2, 1, 0, -1, 0>>,
  <<1, 1, 2, -2, 2, 1, 0, -1, 0>>,
  <<1, 0, 2, 2, 1, -1, 0, 1, 0>>,
  <<-2, 0, 2, 4, 2, -1, 0, 1, 0>>,
  <<2, 0, 2, -2, 1, 1, 0, -1, 0>>,
  <<2, 0, -2, 0, 1, 1, 0, 0, 0>>,
  <<-2, -1, 0, 2, 0, -1, 0, 0, 0>>,
  <<0, 0, -2, 2, 1, 1, 0, 0, 0>>,
  <<0, -1, 2, -2, 0, 1, 0, 0, 0>>,
  <<0, 1, 0, 0, 2, 1, 0, 0, 0>>,
  <<-1, 0, 0, 1, 1, 1, 0, 0, 0>>,
  <<0, 1, 2, -2, 0, -1, 0, 0, 0>>,
  <<-1, 0, 0, 4, 0, 1, 0, 0, 0>>,
  <<-2, 0, 0, 4, 0, 1, 0, 0, 0>>,
  <<-1, 0, 4, 0, 2, 1, 0, 0, 0>>,
  <<-1, 1, 0, 2, 0, -1, 0, 0, 0>>,
  <<2, 0, 2, 2, 2, -1, 0, 0, 0>>,
  <<1, 0, 0, 2, 1, -1, 0, 0, 0>>,
  <<0, 0, 4, -2, 2, 1, 0, 0, 0>>,
  <<3, 0, 2, -2, 2, 1, 0, 0, 0>>,
  <<1, 0, 2, -2, 0, -1, 0, 0, 0>>,
  <<0, 1, 2, 0, 1, 1, 0, 0, 0>>,
  <<-1, -1, 0, 2, 1, 1, 0, 0, 0>>,
  <<0, 0, -2, 0, 1, -1, 0, 0, 0>>,
  <<0, 0, 2, -1, 2, -1, 0, 0, 0>>,
  <<0, 1, 0, 2, 0, -1, 0, 0, 0>>,
  <<-1, 0, 2, 2, 0, 1, 0, 0, 0>>,
  <<0, -1, 2, 0, 1, -1, 0, 0, 0>>,
  <<1, 1, 0, -2, 1, -1, 0, 0, 0>>,
  <<-1, 0, 2, -2, 0, 1, 0, 0, 0>>,
  <<2, 0, 0, 2, 0, 1, 0, 0, 0>>,
  <<0, 0, 2, 4, 2, -1, 0, 0, 0>>,
  <<0, 1, 0, 1, 0, 1, 0, 0, 0>>
>>

ArcRad(s) == Rad(s (/) D("3600"))
Cubic(a, b, c, d, t) == D(a) (+) (t (.) (D(b) (+) (t (.) (D(c) (+) (t (.) D(d))))))
Fundamental(t) == <<
  Force(ArcRad(Mod(Cubic("485866.733", "1717915922.633", "31.310", "0.064", t), D("1296000")))),
  Force(ArcRad(Mod(Cubic("1287099.804", "129596581.224", "-0.577", "-0.012", t), D("1296000")))),
  Force(ArcRad(Mod(Cubic("335778.877", "1739527263.137", "-13.257", "0.011", t), D("1296000")))),
  Force(ArcRad(Mod(Cubic("1072261.307", "1602961601.328", "-6.891", "0.019", t), D("1296000")))),
  Force(ArcRad(Mod(Cubic("450160.280", "-6962890.539", "7.455", "0.008", t), D("1296000"))))>>

RECURSIVE NutSum(_, _, _, _)
NutSum(k, f, t, s) ==
  IF k = 0 THEN s
  ELSE LET m == Terms[k]
           x == Force((N(m[1]) (.) f[1]) (+) (N(m[2]) (.) f[2]) (+) (N(m[3]) (.) f[3]) (+) (N(m[4]) (.) f[4]) (+) (N(m[5]) (.) f[5]))
           p == (N(m[6]) (+) ((N(m[7]) (.) t) (/) D("10"))) (.) Sin(x)
           e == (N(m[8]) (+) ((N(m[9]) (.) t) (/) D("10"))) (.) Cos(x)
       IN  NutSum(k - 1, f, t, <<Force(s[1] (+) p), Force(s[2] (+) e)>>)
(* nutation in longitude and in obliquity, seconds of arc *)
Nut(t) == LET s == NutSum(Len(Terms), Fundamental(t), t, <<Zero, Zero>>) IN <<Force(s[1] (/) D("10000")), Force(s[2] (/) D("10000"))>>
MeanObliquity(t) == Cubic("84381.448", "-46.8150", "-0.00059", "0.001813", t)
(* of a Julian date: mean and true obliquity (degrees), equation of the equinoxes (seconds of time), nutation in longitude and obliquity *)
Tilt(jd) ==
  LET t == Force((jd (-) J2000) (/) D("36525"))
      n == Nut(t)
      m == Force(MeanObliquity(t))
      e == Force(m (+) n[2])
  IN  <<Force(m (/) D("3600")), Force(e (/) D("3600")), Force((n[1] (/) D("15")) (.) Cos(ArcRad(e))), n[1], n[2]>>
=============================================================================
