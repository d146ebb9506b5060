-------------------------------- MODULE Deep --------------------------------
(* Deep-space terms of SDP4 and SDP8 (Spacetrack Report 3): lunisolar secular and
   periodic terms, synchronous and half-day resonance.  The terms are not a function
   of the time alone: they keep a state
     atime, xli, xni   point the resonance integration has reached
     savt, per         time and values of the lunisolar periodics last computed
   so the model is a state machine; DeepStep is its transition. *)
EXTENDS Orbit

Thdt == D("4.37526908801129966e-3")
ZnsMin == D("1.19459E-5")
ZnsDay == D("0.017201977")
ZnlMin == D("1.5835218E-4")
ZnlDay == D("0.228027132")
Zes == D("0.01675")
Zel == D("0.05490")
ReuseMin == D("30")         \* lunisolar periodics are reused within this time
StepMax  == D("720")        \* longest step of the resonance integration

(* Greenwich sidereal angle *)
ThetaG(jd) ==
  LET
      ut == FMod(jd (+) D("0.5"), D("1"))
      tc == ((jd (-) ut) (-) D("2451545")) (/) D("36525")
      s == D("24110.54841") (+) (tc (.) (D("8640184.812866") (+) (tc (.) (D("0.093104") (-) (tc (.) D("6.2e-06"))))))
      g == FMod((s (/) D("86400")) (+) (D("1.00273790934") (.) ut), D("1"))
  IN  TwoPiO (.) (IF (g \prec D("0")) THEN g (+) D("1") ELSE g)

(* the terms of one body (Sun or Moon) *)
BodyTerms(el, c, zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc, zn, ze) ==
  LET
      sing == Sin(el.argp)
      cosg == Cos(el.argp)
      a1 == (zcosg (.) zcosh) (+) (zsing (.) zcosi (.) zsinh)
      a3 == (zcosg (.) zcosi (.) zsinh) (-) (zsing (.) zcosh)
      a7 == (zsing (.) zcosi (.) zcosh) (-) (zcosg (.) zsinh)
      a8 == zsing (.) zsini
      a9 == (zsing (.) zsinh) (+) (zcosg (.) zcosi (.) zcosh)
      a10 == zcosg (.) zsini
      a2 == (c.cosio (.) a7) (+) (c.sinio (.) a8)
      a4 == (c.cosio (.) a9) (+) (c.sinio (.) a10)
      a5 == (c.cosio (.) a8) (-) (c.sinio (.) a7)
      a6 == (c.cosio (.) a10) (-) (c.sinio (.) a9)
      x1 == (a1 (.) cosg) (+) (a2 (.) sing)
      x2 == (a3 (.) cosg) (+) (a4 (.) sing)
      x3 == (a2 (.) cosg) (-) (a1 (.) sing)
      x4 == (a4 (.) cosg) (-) (a3 (.) sing)
      x5 == a5 (.) sing
      x6 == a6 (.) sing
      x7 == a5 (.) cosg
      x8 == a6 (.) cosg
      z31 == (D("12") (.) x1 (.) x1) (-) (D("3") (.) x3 (.) x3)
      z32 == (D("24") (.) x1 (.) x2) (-) (D("6") (.) x3 (.) x4)
      z33 == (D("12") (.) x2 (.) x2) (-) (D("3") (.) x4 (.) x4)
      y1 == (D("3") (.) ((a1 (.) a1) (+) (a2 (.) a2))) (+) (z31 (.) c.eosq)
      y2 == (D("6") (.) ((a1 (.) a3) (+) (a2 (.) a4))) (+) (z32 (.) c.eosq)
      y3 == (D("3") (.) ((a3 (.) a3) (+) (a4 (.) a4))) (+) (z33 (.) c.eosq)
      z11 == (c.eosq (.) ((D("-24") (.) x1 (.) x7) (-) (D("6") (.) x3 (.) x5))) (-) (D("6") (.) a1 (.) a5)
      z12 == (c.eosq (.) ((D("-24") (.) ((x2 (.) x7) (+) (x1 (.) x8))) (-) (D("6") (.) ((x3 (.) x6) (+) (x4 (.) x5))))) (-) (D("6") (.) ((a1 (.) a6) (+) (a3
            (.) a5)))
      z13 == (c.eosq (.) ((D("-24") (.) x2 (.) x8) (-) (D("6") (.) x4 (.) x6))) (-) (D("6") (.) a3 (.) a6)
      z21 == (c.eosq (.) ((D("24") (.) x1 (.) x5) (-) (D("6") (.) x3 (.) x7))) (+) (D("6") (.) a2 (.) a5)
      z22 == (c.eosq (.) ((D("24") (.) ((x2 (.) x5) (+) (x1 (.) x6))) (-) (D("6") (.) ((x4 (.) x7) (+) (x3 (.) x8))))) (+) (D("6") (.) ((a4 (.) a5) (+) (a2
            (.) a6)))
      z23 == (c.eosq (.) ((D("24") (.) x2 (.) x6) (-) (D("6") (.) x4 (.) x8))) (+) (D("6") (.) a4 (.) a6)
      z1 == (D("2") (.) y1) (+) (c.betao2 (.) z31)
      z2 == (D("2") (.) y2) (+) (c.betao2 (.) z32)
      z3 == (D("2") (.) y3) (+) (c.betao2 (.) z33)
      s3 == cc (/) c.xnodp
      s2 == (D("-0.5") (.) s3) (/) c.betao
      s4 == s3 (.) c.betao
      s1 == D("-15") (.) el.ecc (.) s4
      s5 == (x1 (.) x3) (+) (x2 (.) x4)
      s6 == (x2 (.) x3) (+) (x1 (.) x4)
      s7 == (x2 (.) x4) (-) (x1 (.) x3)
      flat == (el.incl \prec (PiO (/) D("60")))
  IN  [se |-> s1 (.) zn (.) s5, si |-> s2 (.) zn (.) (z11 (+) z13), sl |-> Neg(zn) (.) s3 (.) (((z1 (+) z3) (-) D("14")) (-) (D("6") (.) c.eosq)), sgh |-> s4 (.) zn (.) ((z31
      (+) z33) (-) D("6")), sh |-> (IF flat THEN D("0") ELSE Neg(zn) (.) s2 (.) (z21 (+) z23)), e2 |-> D("2") (.) s1 (.) s6, e3 |-> D("2") (.) s1 (.) s7, i2 |-> D("2")
      (.) s2 (.) z12, i3 |-> D("2") (.) s2 (.) (z13 (-) z11), l2 |-> D("-2") (.) s3 (.) z2, l3 |-> D("-2") (.) s3 (.) (z3 (-) z1), l4 |-> D("2") (.) s3 (.) (D("21")
      (+) (D("9") (.) c.eosq)) (.) ze, gh2 |-> D("2") (.) s4 (.) z32, gh3 |-> D("2") (.) s4 (.) (z33 (-) z31), gh4 |-> D("-18") (.) s4 (.) ze, h2 |-> D("-2") (.) s2
      (.) z22, h3 |-> D("-2") (.) s2 (.) (z23 (-) z21)]

Cubic(x, k0, k1, k2, k3) ==
   k0 (+) (x (.) (k1 (+) (x (.) (k2 (+) (x (.) k3)))))

(* half-day resonance: mean motion 1.893053 to 2.117652 rev/day, eccentricity 0.5 or more *)
HalfDay(el, c) ==
  LET
      e == el.ecc
      lo == (e \preceq D("0.65"))
      g201 == D("-0.306") (-) ((e (-) D("0.64")) (.) D("0.44"))
      g211 == (IF lo THEN (D("3.616") (-) (D("13.247") (.) e)) (+) (D("16.29")
            (.) c.eosq) ELSE Cubic(e, D("-72.099"), D("331.819"), D("-508.738"), D("266.724")))
      g310 == (IF lo THEN Cubic(e, D("-19.302"), D("117.39"), D("-228.419"), D("156.591")) ELSE Cubic(e, D("-346.844"), D("1582.851"), D("-2415.925"), D("1246.113")))
      g322 == (IF lo THEN Cubic(e, D("-18.9068"), D("109.7927"), D("-214.6334"), D("146.5816")) ELSE Cubic(e, D("-342.585"), D("1554.908"), D("-2366.899"), D("1215.972")))
      g410 == (IF lo THEN Cubic(e, D("-41.122"), D("242.694"), D("-471.094"), D("313.953")) ELSE Cubic(e, D("-1052.797"), D("4758.686"), D("-7193.992"), D("3651.957")))
      g422 == (IF lo THEN Cubic(e, D("-146.407"), D("841.88"), D("-1629.014"), D("1083.435")) ELSE Cubic(e, D("-3581.69"), D("16178.11"), D("-24462.77"), D("12422.52")))
      g520 == (IF lo THEN Cubic(e, D("-532.114"), D("3017.977"), D("-5740.032"), D("3708.276")) ELSE (IF (e \preceq D("0.715")) THEN Cubic(e, D("1464.74"), D("-4664.75"), D("3763.64"), D("0")) ELSE Cubic(e, D("-5149.66"), D("29936.92"), D("-54087.36"), D("31324.56"))))
      g533 == (IF (e \prec D("0.7")) THEN Cubic(e, D("-919.2277"), D("4988.61"), D("-9064.77"), D("5542.21")) ELSE Cubic(e, D("-37995.78"), D("161616.52"), D("-229838.2"), D("109377.94")))
      g521 == (IF (e \prec D("0.7")) THEN Cubic(e, D("-822.71072"), D("4568.6173"), D("-8491.4146"), D("5337.524")) ELSE Cubic(e, D("-51752.104"), D("218913.95"), D("-309468.16"), D("146349.42")))
      g532 == (IF (e \prec D("0.7")) THEN Cubic(e, D("-853.666"), D("4690.25"), D("-8624.77"), D("5341.4")) ELSE Cubic(e, D("-40023.88"), D("170470.89"), D("-242699.48"), D("115605.82")))
      ci == c.cosio
      ci2 == c.cosio2
      si == c.sinio
      si2 == si (.) si
      f220 == D("0.75") (.) (D("1") (+) (D("2") (.) ci) (+) ci2)
      f221 == D("1.5") (.) si2
      f321 == D("1.875") (.) si (.) ((D("1") (-) (D("2") (.) ci)) (-) (D("3") (.) ci2))
      f322 == D("-1.875") (.) si (.) ((D("1") (+) (D("2") (.) ci)) (-) (D("3") (.) ci2))
      f441 == D("35") (.) si2 (.) f220
      f442 == D("39.375") (.) si2 (.) si2
      f522 == D("9.84375") (.) si (.) ((si2 (.) ((D("1") (-) (D("2") (.) ci)) (-) (D("5") (.) ci2))) (+) (D("0.33333333") (.) (D("-2") (+) (D("4") (.) ci)
            (+) (D("6") (.) ci2))))
      f523 == si (.) ((D("4.92187512") (.) si2 (.) ((D("-2") (-) (D("4") (.) ci)) (+) (D("10") (.) ci2))) (+) (D("6.56250012") (.) ((D("1") (+) (D("2")
            (.) ci)) (-) (D("3") (.) ci2))))
      f542 == D("29.53125") (.) si (.) ((D("2") (-) (D("8") (.) ci)) (+) (ci2 (.) (D("-12") (+) (D("8") (.) ci) (+) (D("10") (.) ci2))))
      f543 == D("29.53125") (.) si (.) ((D("-2") (-) (D("8") (.) ci)) (+) (ci2 (.) ((D("12") (+) (D("8") (.) ci)) (-) (D("10") (.) ci2))))
      aq == D("1") (/) c.aodp
      k2 == D("3") (.) Sq(c.xnodp) (.) Sq(aq)
      k3 == k2 (.) aq
      k4 == k3 (.) aq
      k5 == k4 (.) aq
      root22 == D("1.7891679e-06")
      root32 == D("3.7393792e-07")
      root44 == D("7.3636953e-09")
      root52 == D("1.1428639e-07")
      root54 == D("2.1765803e-09")
  IN  [d2201 |-> k2 (.) root22 (.) f220 (.) g201, d2211 |-> k2 (.) root22 (.) f221 (.) g211, d3210 |-> k3 (.) root32 (.) f321 (.) g310, d3222 |-> k3 (.) root32 (.) f322
      (.) g322, d4410 |-> D("2") (.) k4 (.) root44 (.) f441 (.) g410, d4422 |-> D("2") (.) k4 (.) root44 (.) f442 (.) g422, d5220 |-> k5 (.) root52 (.) f522
      (.) g520, d5232 |-> k5 (.) root52 (.) f523 (.) g532, d5421 |-> D("2") (.) k5 (.) root54 (.) f542 (.) g521, d5433 |-> D("2") (.) k5 (.) root54 (.) f543 (.) g533]

(* synchronous resonance: 0.8 to 1.2 rev/day *)
Synchronous(el, c) ==
  LET
      e2 == c.eosq
      g200 == D("1") (+) (e2 (.) (D("-2.5") (+) (D("0.8125") (.) e2)))
      g310 == D("1") (+) (D("2") (.) e2)
      g300 == D("1") (+) (e2 (.) (D("-6") (+) (D("6.60937") (.) e2)))
      k == D("1") (+) c.cosio
      f220 == D("0.75") (.) k (.) k
      f311 == (D("0.9375") (.) c.sinio (.) c.sinio (.) (D("1") (+) (D("3") (.) c.cosio))) (-) (D("0.75") (.) k)
      f330 == D("1.875") (.) k (.) k (.) k
      aq == D("1") (/) c.aodp
      base == D("3") (.) Sq(c.xnodp) (.) Sq(aq)
  IN  [del1 |-> base (.) f311 (.) g310 (.) D("2.1460748e-06") (.) aq, del2 |-> D("2") (.) base (.) f220 (.) g200 (.) D("1.7891679e-06"), del3 |-> D("3") (.) base (.) f330
      (.) g300 (.) D("2.2123015e-07") (.) aq]

(* resonance of an orbit: "none", "half", "sync" *)
Resonance(el, c) ==
  IF D("0.00826") \preceq c.xnodp /\ c.xnodp \preceq D("0.00924") /\ D("0.5") \preceq el.ecc THEN "half"
  ELSE IF c.xnodp \prec ((D("1.2") (.) TwoPiO) (/) D("1440")) /\ ((D("0.8") (.) TwoPiO) (/) D("1440")) \prec c.xnodp THEN "sync"
  ELSE "none"

DeepInit(el, c) ==
  LET
      sinq == Sin(el.node)
      cosq == Cos(el.node)
      day == el.epoch (-) D("2415020")
      thgr == ThetaG(el.epoch)
      xnodce == D("4.523602") (-) (D("0.00092422029") (.) day)
      stem == Sin(xnodce)
      ctem == Cos(xnodce)
      gam == D("5.8351514") (+) (D("0.001944368") (.) day)
      zcosil == D("0.91375164") (-) (D("0.03568096") (.) ctem)
      zsinil == Sqrt(D("1") (-) (zcosil (.) zcosil))
      zsinhl == (D("0.089683511") (.) stem) (/) zsinil
      zcoshl == Sqrt(D("1") (-) (zsinhl (.) zsinhl))
      zmol == FMod2p((ZnlDay (.) day) (-) D("1.1151842"))
      zmos == FMod2p(D("6.2565837") (+) (ZnsDay (.) day))
      zx == (Atan2((D("0.39785416") (.) stem) (/) zsinil, (zcoshl (.) ctem) (+) (D("0.91744867") (.) zsinhl (.) stem)) (+) gam) (-) xnodce
      sun == BodyTerms(el, c, D("0.1945905"), D("-0.98088458"), D("0.91744867"), D("0.39785416"), cosq, sinq, D("2.9864797e-06"), ZnsMin, Zes)
      moon == BodyTerms(el, c, Cos(zx), Sin(zx), zcosil, zsinil, (zcoshl (.) cosq) (+) (zsinhl (.) sinq), (sinq (.) zcoshl) (-) (cosq
            (.) zsinhl), D("4.7968065e-07"), ZnlMin, Zel)
      tilted == ~(c.sinio = D("0"))
      ssh == (IF tilted THEN (sun.sh (+) moon.sh) (/) c.sinio ELSE D("0"))
      ssg == (sun.sgh (+) moon.sgh) (-) (c.cosio (.) ssh)
      sse == sun.se (+) moon.se
      ssi == sun.si (+) moon.si
      ssl == sun.sl (+) moon.sl
      res == Resonance(el, c)
      xlamo == (IF (res = "half") THEN (el.mo (+) (D("2") (.) el.node)) (-) (D("2") (.) thgr) ELSE (el.mo (+) el.node (+) el.argp) (-) thgr)
      bfact == (IF (res = "half") THEN ((c.xmdot (+) (D("2") (.) c.xnodot)) (-) (D("2") (.) Thdt)) (+) ssl (+) (D("2") (.) ssh) ELSE ((c.xmdot (+) c.omgdot
            (+) c.xnodot) (-) Thdt) (+) ssl (+) ssg (+) ssh)
      coefs == IF res = "half" THEN HalfDay(el, c) ELSE IF res = "sync" THEN Synchronous(el, c) ELSE [none |-> 0]
  IN  [thgr |-> thgr, zmol |-> zmol, zmos |-> zmos, sun |-> sun, moon |-> moon, sse |-> sse, ssi |-> ssi, ssl |-> ssl, ssg |-> ssg, ssh |-> ssh, res |-> res, xlamo |-> xlamo, xfact |-> bfact
      (-) c.xnodp, coefs |-> coefs, xnq |-> c.xnodp]

NoPer == [pe |-> D("0"), pinc |-> D("0"), pl |-> D("0"), pgh |-> D("0"), ph |-> D("0")]
(* the state a fresh initialisation leaves *)
DeepFresh(dp) == [atime |-> D("0"), xli |-> dp.xlamo, xni |-> dp.xnq, valid |-> FALSE, savt |-> D("0"), per |-> NoPer]

(* <<xndot, d xndot / d xli>> *)
ResRates(el, c, dp, xli, atime) ==
  LET
      k == dp.coefs
      omi == el.argp (+) (c.omgdot (.) atime)
      a2 == xli (-) D("0.1313091")
      b2 == D("2") (.) (xli (-) D("2.8843198"))
      c3 == D("3") (.) (xli (-) D("0.3744809"))
      s1 == ((D("2") (.) omi) (+) xli) (-) D("5.7686396")
      s2 == xli (-) D("5.7686396")
      s3 == (omi (+) xli) (-) D("0.95240898")
      s4 == (xli (-) omi) (-) D("0.95240898")
      s5 == ((D("2") (.) omi) (+) (D("2") (.) xli)) (-) D("1.8014998")
      s6 == (D("2") (.) xli) (-) D("1.8014998")
      s7 == (omi (+) xli) (-) D("1.050833")
      s8 == (xli (-) omi) (-) D("1.050833")
      s9 == (omi (+) (D("2") (.) xli)) (-) D("4.4108898")
      s10 == ((D("2") (.) xli) (-) omi) (-) D("4.4108898")
  IN  IF dp.res = "sync"
      THEN <<(k.del1 (.) Sin(a2)) (+) (k.del2 (.) Sin(b2)) (+) (k.del3 (.) Sin(c3)),
             (k.del1 (.) Cos(a2)) (+) (D("2") (.) k.del2 (.) Cos(b2)) (+) (D("3") (.) k.del3 (.) Cos(c3))>>
      ELSE <<(k.d2201 (.) Sin(s1)) (+) (k.d2211 (.) Sin(s2)) (+) (k.d3210 (.) Sin(s3)) (+) (k.d3222 (.) Sin(s4)) (+) (k.d4410 (.) Sin(s5))
             (+) (k.d4422 (.) Sin(s6)) (+) (k.d5220 (.) Sin(s7)) (+) (k.d5232 (.) Sin(s8)) (+) (k.d5421 (.) Sin(s9)) (+) (k.d5433 (.) Sin(s10)),
             (k.d2201 (.) Cos(s1)) (+) (k.d2211 (.) Cos(s2)) (+) (k.d3210 (.) Cos(s3)) (+) (k.d3222 (.) Cos(s4)) (+) (k.d5220 (.) Cos(s7)) (+) (k.d5232 (.) Cos(s8))
             (+) (D("2") (.) ((k.d4410 (.) Cos(s5)) (+) (k.d4422 (.) Cos(s6)) (+) (k.d5421 (.) Cos(s9)) (+) (k.d5433 (.) Cos(s10))))>>

(* the resonance integration from <<atime, xli, xni>> to time t, in steps of at most StepMax *)
RECURSIVE Integrate(_, _, _, _, _, _, _)
Integrate(el, c, dp, t, atime, xli, xni) ==
  LET togo == t (-) atime
      last == Abs(togo) \preceq StepMax
      dt == IF last THEN togo ELSE IF D("0") \prec togo THEN StepMax ELSE Neg(StepMax)
      w == ResRates(el, c, dp, xli, atime)
      xldot == xni (+) dp.xfact
      h2 == D("0.5") (.) dt (.) dt
      li == Force(xli (+) (dt (.) xldot) (+) (h2 (.) w[1]))
      ni == Force(xni (+) (dt (.) w[1]) (+) (h2 (.) w[2] (.) xldot))
      at == Force(atime (+) dt)
  IN  IF last THEN <<t, li, ni>> ELSE Integrate(el, c, dp, t, at, li, ni)

Periodic(b, zm0, zn, ze, t) ==
  LET
      zm == zm0 (+) (zn (.) t)
      zf == zm (+) (D("2") (.) ze (.) Sin(zm))
      szf == Sin(zf)
      f2 == (D("0.5") (.) szf (.) szf) (-) D("0.25")
      f3 == D("-0.5") (.) szf (.) Cos(zf)
  IN  [pe |-> (b.e2 (.) f2) (+) (b.e3 (.) f3), pinc |-> (b.i2 (.) f2) (+) (b.i3 (.) f3), pl |-> (b.l2 (.) f2) (+) (b.l3 (.) f3) (+) (b.l4 (.) szf), pgh |-> (b.gh2 (.) f2)
      (+) (b.gh3 (.) f3) (+) (b.gh4 (.) szf), ph |-> (b.h2 (.) f2) (+) (b.h3 (.) f3)]
Periodics(dp, t) ==
  LET
      u == Periodic(dp.sun, dp.zmos, ZnsMin, Zes, t)
      v == Periodic(dp.moon, dp.zmol, ZnlMin, Zel, t)
  IN  [pe |-> u.pe (+) v.pe, pinc |-> u.pinc (+) v.pinc, pl |-> u.pl (+) v.pl, pgh |-> u.pgh (+) v.pgh, ph |-> u.ph (+) v.ph]

(* The transition: secular part at time t of the angles given, and the new state.
   The integration restarts from the epoch when that is closer than where it stands. *)
DeepSecular(el, c, dp, st, t, xll0, omg0, node0) ==
  LET
      restart == (Abs(t) \prec Abs(t (-) st.atime))
      node == node0 (+) (dp.ssh (.) t)
      omg == omg0 (+) (dp.ssg (.) t)
      r == IF dp.res = "none" THEN <<st.atime, st.xli, st.xni>> ELSE IF restart THEN Integrate(el, c, dp, t, D("0"), dp.xlamo, dp.xnq) ELSE Integrate(el, c, dp, t, st.atime, st.xli, st.xni)
      th == (dp.thgr (+) (t (.) Thdt)) (-) node
      xll == (IF (dp.res = "none") THEN xll0 (+) (dp.ssl (.) t) ELSE (IF (dp.res = "sync") THEN (r[2] (+) th) (-) omg ELSE r[2] (+) (D("2") (.) th)))
  IN  [st |-> [st EXCEPT !.atime = r[1], !.xli = r[2], !.xni = r[3]],
       xll |-> xll, omg |-> omg, node |-> node, em |-> el.ecc (+) (dp.sse (.) t), xinc |-> el.incl (+) (dp.ssi (.) t),
       xn |-> IF dp.res = "none" THEN c.xnodp ELSE r[3]]

(* The lunisolar periodics are those of time t, or those last computed when that is less
   than ReuseMin ago.  q: elements as DeepSecular gives them. *)
Fresh30(st, t) == ~st.valid \/ ReuseMin \preceq Abs(st.savt (-) t)
DeepRefresh(dp, st, t) == IF Fresh30(st, t) THEN [st EXCEPT !.valid = TRUE, !.savt = t, !.per = Periodics(dp, t)] ELSE st
DeepApply(el, per, q) ==
  LET
      xinc == q.xinc (+) per.pinc
      sinis == Sin(xinc)
      cosis == Cos(xinc)
      hs == per.ph (/) sinis
      \* below 0.2 rad: Lyddane modification
      sn == Sin(q.node)
      cn == Cos(q.node)
      alf == (per.ph (.) cn) (+) (((per.pinc (.) cosis) (+) sinis) (.) sn)
      bet == (((per.pinc (.) cosis) (+) sinis) (.) cn) (-) (per.ph (.) sn)
      d0 == Atan2(alf, bet) (-) q.node
      d1 == (IF (d0 \prec Neg(PiO)) THEN d0 (+) TwoPiO ELSE (IF (PiO \prec d0) THEN d0 (-) TwoPiO ELSE d0))
      direct == (D("0.2") \preceq el.incl)
  IN  [xinc |-> xinc, em |-> q.em (+) per.pe, xll |-> q.xll (+) per.pl, xn |-> q.xn,
       omg |-> IF direct THEN (q.omg (+) per.pgh) (-) (cosis (.) hs)
               ELSE ((q.omg (+) per.pgh) (-) (q.node (.) sinis (.) per.pinc)) (-) (cosis (.) d1),
       node |-> IF direct THEN q.node (+) hs ELSE q.node (+) d1]
=============================================================================
