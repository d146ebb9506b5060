-------------------------------- MODULE Orbit -------------------------------
(* What the NORAD models share: constants, recovery of the original mean motion,
   secular rates and drag coefficients, and the step from osculating mean elements
   to position and velocity.  Lengths in Earth radii, times in minutes, angles in
   radians; positions come out in km and velocities in km per minute. *)
EXTENDS FP, Integers, Sequences

PiO     == D("3.141592653589793238462643383279502884197")
TwoPiO  == D("2") (.) PiO
EarthKm == D("6378.135")
Xke     == D("0.0743669161331734132")
Ck2     == D("0.5") (.) D("1.082616e-3")
Ck4     == D("-0.375") (.) D("-1.65597e-6")
Xj3     == D("-2.53881e-6")
A3ovk2  == Neg(Xj3) (/) Ck2
SConst  == D("1") (+) (D("78") (/) EarthKm)
Qoms2t  == D("1.880279159015270643865e-9")
TwoThirds == D("2") (/) D("3")
FMod2p(x) == LET r == FMod(x, TwoPiO) IN IF r \prec D("0") THEN (r (+) TwoPiO) ELSE r
Centred(x) == LET r == FMod(x, TwoPiO)
              IN  IF PiO \prec r THEN (r (-) TwoPiO) ELSE IF r \prec Neg(PiO) THEN (r (+) TwoPiO) ELSE r

(* original mean motion xnodp and semimajor axis aodp *)
Recover(el) ==
  LET
      a1 == Pow(Xke (/) el.no, TwoThirds)
      cosio == Cos(el.incl)
      cosio2 == cosio (.) cosio
      eosq == el.ecc (.) el.ecc
      betao2 == D("1") (-) eosq
      betao == Sqrt(betao2)
      tv == (D("1.5") (.) Ck2 (.) ((D("3") (.) cosio2) (-) D("1"))) (/) (betao (.) betao2)
      del1 == tv (/) (a1 (.) a1)
      ao == a1 (.) (D("1") (-) (del1 (.) ((D("1") (/) D("3")) (+) (del1 (.) (D("1") (+) ((D("134") (/) D("81")) (.) del1))))))
      delo == tv (/) (ao (.) ao)
      xnodp == el.no (/) (D("1") (+) delo)
      aodp == ao (/) (D("1") (-) delo)
  IN  [cosio |-> cosio, cosio2 |-> cosio2, eosq |-> eosq, betao2 |-> betao2, betao |-> betao, xnodp |-> xnodp, aodp |-> aodp]

(* period (minutes) of the recovered mean motion: 225 and more is deep space *)
Period(el) == TwoPiO (/) Recover(el).xnodp

(* rates and drag terms of SGP4 and SDP4 *)
Common(el) ==
  LET
      r == Recover(el)
      sinio == Sin(el.incl)
      x3thm1 == (D("3") (.) r.cosio2) (-) D("1")
      \* perigee below 156 km changes s and (q0 - s)^4
      perige == ((r.aodp (.) (D("1") (-) el.ecc)) (-) D("1")) (.) EarthKm
      low == (perige \prec D("156"))
      skm == (IF (perige \preceq D("98")) THEN D("20") ELSE perige (-) D("78"))
      s4 == (IF low THEN (skm (/) EarthKm) (+) D("1") ELSE SConst)
      qoms24 == (IF low THEN Sq(Sq((D("120") (-) skm) (/) EarthKm)) ELSE Qoms2t)
      pinv == D("1") (/) (r.aodp (.) r.betao2)
      pinvsq == pinv (.) pinv
      tsi == D("1") (/) (r.aodp (-) s4)
      eta == r.aodp (.) el.ecc (.) tsi
      etasq == eta (.) eta
      eeta == el.ecc (.) eta
      psisq == Abs(D("1") (-) etasq)
      coef == qoms24 (.) Sq(Sq(tsi))
      coef1 == coef (/) Pow(psisq, D("3.5"))
      c2 == coef1 (.) r.xnodp (.) ((r.aodp (.) (D("1") (+) (D("1.5") (.) etasq) (+) (eeta (.) (D("4") (+) etasq)))) (+) (((D("0.75") (.) Ck2
            (.) tsi) (/) psisq) (.) x3thm1 (.) (D("8") (+) (D("3") (.) etasq (.) (D("8") (+) etasq)))))
      c1 == el.bstar (.) c2
      c4 == D("2") (.) r.xnodp (.) coef1 (.) r.aodp (.) r.betao2 (.) (((eta (.) (D("2") (+) (D("0.5") (.) etasq))) (+) (el.ecc (.) (D("0.5") (+) (D("2")
            (.) etasq)))) (-) (((D("2") (.) Ck2 (.) tsi) (/) (r.aodp (.) psisq)) (.) ((D("-3") (.) x3thm1 (.) ((D("1") (-) (D("2") (.) eeta))
            (+) (etasq (.) (D("1.5") (-) (D("0.5") (.) eeta))))) (+) (D("0.75") (.) (D("1") (-) r.cosio2) (.) ((D("2") (.) etasq) (-) (eeta
            (.) (D("1") (+) etasq))) (.) Cos(D("2") (.) el.argp)))))
      th4 == r.cosio2 (.) r.cosio2
      k1 == D("3") (.) Ck2 (.) pinvsq (.) r.xnodp
      k2 == k1 (.) Ck2 (.) pinvsq
      k3 == D("1.25") (.) Ck4 (.) pinvsq (.) pinvsq (.) r.xnodp
      xmdot == r.xnodp (+) (D("0.5") (.) k1 (.) r.betao (.) x3thm1) (+) (D("0.0625") (.) k2 (.) r.betao (.) ((D("13") (-) (D("78") (.) r.cosio2))
            (+) (D("137") (.) th4)))
      omgdot == ((D("0.0625") (.) k2 (.) ((D("7") (-) (D("114") (.) r.cosio2)) (+) (D("395") (.) th4))) (-) (D("0.5") (.) k1 (.) (D("1") (-) (D("5")
            (.) r.cosio2)))) (+) (k3 (.) ((D("3") (-) (D("36") (.) r.cosio2)) (+) (D("49") (.) th4)))
      xhdot1 == Neg(k1) (.) r.cosio
      xnodot == xhdot1 (+) (((D("0.5") (.) k2 (.) (D("4") (-) (D("19") (.) r.cosio2))) (+) (D("2") (.) k3 (.) (D("3") (-) (D("7") (.) r.cosio2))))
            (.) r.cosio)
      xnodcf == D("3.5") (.) r.betao2 (.) xhdot1 (.) c1
      t2cof == D("1.5") (.) c1
  IN  [cosio |-> r.cosio, cosio2 |-> r.cosio2, eosq |-> r.eosq, betao2 |-> r.betao2, betao |-> r.betao, xnodp |-> r.xnodp, aodp |-> r.aodp, sinio |-> sinio, s4 |-> s4, tsi |-> tsi, eta |-> eta, coef |-> coef, coef1 |-> coef1, c1 |-> c1, c4 |-> c4, xmdot |-> xmdot, omgdot |-> omgdot, xnodot |-> xnodot, xnodcf |-> xnodcf, t2cof |-> t2cof]

(* Kepler's equation capu = E - axn sin E + ayn cos E: <<iterations, E>> *)
KeplerMax == 10
RECURSIVE KeplerO(_, _, _, _, _, _)
KeplerO(capu, axn, ayn, ecc, epw, i) ==
  LET sE == Sin(epw) cE == Cos(epw)
      ecosE == (axn (.) cE) (+) (ayn (.) sE)
      esinE == (axn (.) sE) (-) (ayn (.) cE)
      f == (capu (-) epw) (+) esinE
      fdot == D("1") (-) ecosE
      d1 == f (/) fdot
      lim == D("1.25") (.) Abs(ecc)
      d == IF i = 0 /\ lim \prec d1 THEN lim ELSE IF i = 0 /\ d1 \prec Neg(lim) THEN Neg(lim)
           ELSE f (/) (fdot (+) (D("0.5") (.) esinE (.) d1))
      next == Force(epw (+) d)
  IN  IF i = KeplerMax THEN <<i, epw>>
      ELSE IF Abs(f) \prec D("1e-12") THEN <<i, epw>>
      ELSE KeplerO(capu, axn, ayn, ecc, next, i + 1)

Kepler(capu, axn, ayn, ecc) == KeplerO(capu, axn, ayn, ecc, capu, 0)

NoMotion(rc) == [rc |-> rc, sure |-> TRUE, pos |-> <<D("0"), D("0"), D("0")>>, vel |-> <<D("0"), D("0"), D("0")>>, gain |-> D("1")]
(* Outcome codes: 0, -1 nearly parabolic, -2 negative axis (decayed), -4 passes inside the
   Earth, -6 no convergence.  "sure": the code does not hang on rounding.  "gain": how much
   a relative rounding error of the angles grows in the position. *)
PosVel(xnode, a, ecc, cosio, sinio, xincl, omega, xl) ==
  LET
      axn == ecc (.) Cos(omega)
      p0 == D("1") (/) (a (.) (D("1") (-) (ecc (.) ecc)))
      xll == p0 (.) ((D("0.125") (.) A3ovk2 (.) sinio (.) (D("3") (+) (D("5") (.) cosio))) (/) (D("1") (+) cosio)) (.) axn
      ayn == (ecc (.) Sin(omega)) (+) (p0 (.) D("0.25") (.) A3ovk2 (.) sinio)
      elsq == (axn (.) axn) (+) (ayn (.) ayn)
      near1(x) == (Abs(x (-) D("1")) \prec D("1e-09"))
      parabolic == ((D("1") (-) D("1e-06")) \prec elsq)
      capu == Centred((xl (+) xll) (-) xnode)
      kep == Kepler(capu, axn, ayn, ecc)
      sE == Sin(kep[2])
      cE == Cos(kep[2])
      ecosE == (axn (.) cE) (+) (ayn (.) sE)
      esinE == (axn (.) sE) (-) (ayn (.) cE)
      bl == D("1") (-) elsq
      pl == a (.) bl
      r == a (.) (D("1") (-) ecosE)
      aor == a (/) r
      betal == Sqrt(bl)
      es == esinE (/) (D("1") (+) betal)
      cosu == aor (.) ((cE (-) axn) (+) (ayn (.) es))
      sinu == aor (.) ((sE (-) ayn) (-) (axn (.) es))
      u == Atan2(sinu, cosu)
      sin2u == D("2") (.) sinu (.) cosu
      cos2u == (D("2") (.) cosu (.) cosu) (-) D("1")
      t1 == Ck2 (/) pl
      t2 == t1 (/) pl
      cosio2 == cosio (.) cosio
      x3thm1 == (D("3") (.) cosio2) (-) D("1")
      x1mth2 == D("1") (-) cosio2
      x7thm1 == (D("7") (.) cosio2) (-) D("1")
      rk == (r (.) (D("1") (-) (D("1.5") (.) t2 (.) betal (.) x3thm1))) (+) (D("0.5") (.) t1 (.) x1mth2 (.) cos2u)
      uk == u (-) (D("0.25") (.) t2 (.) x7thm1 (.) sin2u)
      nodek == xnode (+) (D("1.5") (.) t2 (.) cosio (.) sin2u)
      inck == xincl (+) (D("1.5") (.) t2 (.) cosio (.) sinio (.) cos2u)
      suk == Sin(uk)
      cuk == Cos(uk)
      sik == Sin(inck)
      cik == Cos(inck)
      snk == Sin(nodek)
      cnk == Cos(nodek)
      mx == Neg(snk) (.) cik
      my == cnk (.) cik
      ux == (mx (.) suk) (+) (cnk (.) cuk)
      uy == (my (.) suk) (+) (snk (.) cuk)
      uz == sik (.) suk
      vx == (mx (.) cuk) (-) (cnk (.) suk)
      vy == (my (.) cuk) (-) (snk (.) suk)
      vz == sik (.) cuk
      rdot == (Xke (.) Sqrt(a) (.) esinE) (/) r
      rfdot == (Xke (.) Sqrt(pl)) (/) r
      xn == Xke (/) (a (.) Sqrt(a))
      rdotk == rdot (-) (xn (.) t1 (.) x1mth2 (.) sin2u)
      rfdotk == rfdot (+) (xn (.) t1 (.) ((x1mth2 (.) cos2u) (+) (D("1.5") (.) x3thm1)))
      within == (((a (.) (D("1") (-) ecc)) \prec D("1")) \/ ((a (.) (D("1") (+) ecc)) \prec D("1")))
      sure == ~near1(a (.) (D("1") (-) ecc)) /\ ~near1(a (.) (D("1") (+) ecc)) /\ ~near1(elsq
            (+) D("1e-6")) /\ kep[1] < KeplerMax - 2 /\ Abs(t2) \prec D("1000")
  IN  IF parabolic THEN [NoMotion(-1) EXCEPT !.sure = sure \/ ~near1(elsq (+) D("1e-6"))]
      ELSE IF a \prec D("0") THEN NoMotion(-2)
      ELSE IF kep[1] = KeplerMax THEN [NoMotion(-6) EXCEPT !.sure = FALSE]
      ELSE [rc |-> IF within THEN -4 ELSE 0, sure |-> sure,
            pos |-> <<rk (.) ux (.) EarthKm, rk (.) uy (.) EarthKm, rk (.) uz (.) EarthKm>>,
            vel |-> <<((rdotk (.) ux) (+) (rfdotk (.) vx)) (.) EarthKm, ((rdotk (.) uy) (+) (rfdotk (.) vy)) (.) EarthKm, ((rdotk (.) uz) (+) (rfdotk (.) vz)) (.) EarthKm>>,
            gain |-> (((Abs(a) (+) D("1")) (/) Sq(bl)) (.) (D("1") (+) Abs(t2))) (.) (D("1") (+) Abs(xl) (+) Abs(xnode) (+) Abs(omega) (+) Abs(xll (/) (D("1") (+) cosio)))]
=============================================================================
