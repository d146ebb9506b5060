------------------------------- MODULE Legacy -------------------------------
(* The SGP, SGP8 and SDP8 models (Spacetrack Report 3). *)
EXTENDS Deep

(* ------------------------------------------------------------------- SGP *)
SgpInit(el) ==
  LET
      c1 == D("1.5") (.) Ck2
      c2 == Ck2 (/) D("4")
      c3 == Ck2 (/) D("2")
      c4 == Xj3 (/) (D("4") (.) Ck2)
      cosio == Cos(el.incl)
      sinio == Sin(el.incl)
      a1 == Pow(Xke (/) el.no, TwoThirds)
      d1 == (c1 (.) ((D("3") (.) cosio (.) cosio) (-) D("1"))) (/) (a1 (.) a1 (.) Pow(D("1") (-) (el.ecc (.) el.ecc), D("1.5")))
      ao == a1 (.) (((D("1") (-) (d1 (/) D("3"))) (-) (d1 (.) d1)) (-) ((D("134") (/) D("81")) (.) d1 (.) d1 (.) d1))
      po == ao (.) (D("1") (-) (el.ecc (.) el.ecc))
      d3o == c1 (.) cosio
      po2no == el.no (/) (po (.) po)
  IN  [ao |-> ao, qo |-> ao (.) (D("1") (-) el.ecc), xlo |-> el.mo (+) el.argp (+) el.node, d1o |-> c3 (.) sinio (.) sinio, d2o |-> c2 (.) ((D("7") (.) cosio (.) cosio)
      (-) D("1")), d3o |-> d3o, d4o |-> d3o (.) sinio, omgdt |-> c1 (.) po2no (.) ((D("5") (.) cosio (.) cosio) (-) D("1")), xnodot |-> D("-2") (.) d3o
      (.) po2no, c5 |-> (D("0.5") (.) c4 (.) sinio (.) (D("3") (+) (D("5") (.) cosio))) (/) (D("1") (+) cosio), c6 |-> c4 (.) sinio]

RECURSIVE SgpKepler(_, _, _, _, _)
SgpKepler(u, axn, ayn, eo, i) ==
  LET s == Sin(eo) c == Cos(eo)
      d0 == (((u (-) (ayn (.) c)) (+) (axn (.) s)) (-) eo) (/) ((D("1") (-) (c (.) axn)) (-) (s (.) ayn))
      d == IF D("1") \prec Abs(d0) THEN Abs(d0) (/) d0 ELSE d0
      nx == Force(eo (+) d)
  IN  IF i = 11 THEN <<FALSE, eo>>
      ELSE IF Abs(d) \prec D("1e-6") THEN <<TRUE, nx>> ELSE SgpKepler(u, axn, ayn, nx, i + 1)
SgpKep(u, axn, ayn) == SgpKepler(u, axn, ayn, u, 0)

SgpAt(el, p, t) ==
  LET
      xn == el.no (+) (((D("2") (.) el.ndot) (+) (D("3") (.) el.nddot6 (.) t)) (.) t)
      a == p.ao (.) Pow(el.no (/) xn, TwoThirds)
      e == (IF (p.qo \prec a) THEN D("1") (-) (p.qo (/) a) ELSE D("1e-06"))
      pp == a (.) (D("1") (-) (e (.) e))
      nodes == el.node (+) (p.xnodot (.) t)
      omgas == el.argp (+) (p.omgdt (.) t)
      xls == FMod2p(p.xlo (+) ((el.no (+) p.omgdt (+) p.xnodot (+) ((el.ndot (+) (el.nddot6 (.) t)) (.) t)) (.) t))
      axn == e (.) Cos(omgas)
      ayn == (e (.) Sin(omgas)) (-) (p.c6 (/) pp)
      xl == FMod2p(xls (-) ((p.c5 (/) pp) (.) axn))
      u == FMod2p(xl (-) nodes)
      kep == SgpKep(u, axn, ayn)
      sE == Sin(kep[2])
      cE == Cos(kep[2])
      ecosE == (axn (.) cE) (+) (ayn (.) sE)
      esinE == (axn (.) sE) (-) (ayn (.) cE)
      el2 == (axn (.) axn) (+) (ayn (.) ayn)
      pl == a (.) (D("1") (-) el2)
      pl2 == pl (.) pl
      r == a (.) (D("1") (-) ecosE)
      rdot == (Xke (.) Sqrt(a) (.) esinE) (/) r
      rvdot == (Xke (.) Sqrt(pl)) (/) r
      tt == esinE (/) (D("1") (+) Sqrt(D("1") (-) el2))
      sinu == (a (/) r) (.) ((sE (-) ayn) (-) (axn (.) tt))
      cosu == (a (/) r) (.) ((cE (-) axn) (+) (ayn (.) tt))
      su == Atan2(sinu, cosu)
      sin2u == D("2") (.) cosu (.) sinu
      cos2u == D("1") (-) (D("2") (.) sinu (.) sinu)
      rk == r (+) ((p.d1o (/) pl) (.) cos2u)
      uk == su (-) ((p.d2o (/) pl2) (.) sin2u)
      nodek == nodes (+) ((p.d3o (.) sin2u) (/) pl2)
      inck == el.incl (+) ((p.d4o (/) pl2) (.) cos2u)
      suk == Sin(uk)
      cuk == Cos(uk)
      sik == Sin(inck)
      cik == Cos(inck)
      snk == Sin(nodek)
      cnk == Cos(nodek)
      mx == Neg(snk) (.) cik
      my == cnk (.) cik
      ux == (mx (.) suk) (+) (cnk (.) cuk)
      uy == (my (.) suk) (+) (snk (.) cuk)
      uz == sik (.) suk
      vx == (mx (.) cuk) (-) (cnk (.) suk)
      vy == (my (.) cuk) (-) (snk (.) suk)
      vz == sik (.) cuk
      within == (((a (.) (D("1") (-) D("1e-06"))) \prec D("1")) \/ ((a (.) (D("1") (+) D("1e-06"))) \prec D("1")))
  IN  IF xn \prec D("0") THEN NoMotion(-2)
      ELSE [rc |-> IF within THEN -4 ELSE 0, sure |-> ~(Abs(a (-) D("1")) \prec D("2e-6")) /\ kep[1],
            pos |-> <<rk (.) ux (.) EarthKm, rk (.) uy (.) EarthKm, rk (.) uz (.) EarthKm>>,
            vel |-> <<((rdot (.) ux) (+) (rvdot (.) vx)) (.) EarthKm, ((rdot (.) uy) (+) (rvdot (.) vy)) (.) EarthKm, ((rdot (.) uz) (+) (rvdot (.) vz)) (.) EarthKm>>,
            gain |-> ((Abs(a) (+) D("1")) (/) Sq(D("1") (-) el2)) (.) (D("1") (+) Abs(el.no (.) t) (+) Abs(el.ndot (.) t (.) t) (+) Abs(el.nddot6 (.) t (.) t (.) t) (+) Abs(((p.c5 (/) pp) (.) axn) (/) (D("1") (+) Cos(el.incl))))]

(* ---------------------------------------------------------- SGP8 and SDP8 *)
Rho == D(".15696615")
Common8(el) ==
  LET
      r == Recover(el)
      sinio == Sin(el.incl)
      sing == Sin(el.argp)
      cosg == Cos(el.argp)
      tthmun == (D("3") (.) r.cosio2) (-) D("1")
      unm5th == D("1") (-) (D("5") (.) r.cosio2)
      unmth2 == D("1") (-) r.cosio2
      th4 == r.cosio2 (.) r.cosio2
      po == r.aodp (.) r.betao2
      pom2 == D("1") (/) (po (.) po)
      pardt1 == D("3") (.) Ck2 (.) pom2 (.) r.xnodp
      pardt2 == pardt1 (.) Ck2 (.) pom2
      pardt4 == D("1.25") (.) Ck4 (.) pom2 (.) pom2 (.) r.xnodp
      xmdt1 == D("0.5") (.) pardt1 (.) r.betao (.) tthmun
      xgdt1 == D("-0.5") (.) pardt1 (.) unm5th
      xhdt1 == Neg(pardt1) (.) r.cosio
      xmdot == r.xnodp (+) xmdt1 (+) (D("0.0625") (.) pardt2 (.) r.betao (.) ((D("13") (-) (D("78") (.) r.cosio2)) (+) (D("137") (.) th4)))
      omgdot == xgdt1 (+) (D("0.0625") (.) pardt2 (.) ((D("7") (-) (D("114") (.) r.cosio2)) (+) (D("395") (.) th4))) (+) (pardt4 (.) ((D("3") (-) (D("36")
            (.) r.cosio2)) (+) (D("49") (.) th4)))
      xnodot == xhdt1 (+) (((D("0.5") (.) pardt2 (.) (D("4") (-) (D("19") (.) r.cosio2))) (+) (D("2") (.) pardt4 (.) (D("3") (-) (D("7") (.) r.cosio2))))
            (.) r.cosio)
      b == (D("2") (.) el.bstar) (/) Rho
      tsi == D("1") (/) (po (-) SConst)
      eta == el.ecc (.) SConst (.) tsi
      eta2 == eta (.) eta
      psim2 == Abs(D("1") (/) (D("1") (-) eta2))
      alpha2 == D("1") (+) r.eosq
      eeta == el.ecc (.) eta
      cos2g == (D("2") (.) cosg (.) cosg) (-) D("1")
      d5 == tsi (.) psim2
      d1 == d5 (/) po
      d2 == D("12") (+) (eta2 (.) (D("36") (+) (D("4.5") (.) eta2)))
      d3 == eta2 (.) (D("15") (+) (D("2.5") (.) eta2))
      d4 == eta (.) (D("5") (+) (D("3.75") (.) eta2))
      b1 == Ck2 (.) tthmun
      b2 == Neg(Ck2) (.) unmth2
      b3 == A3ovk2 (.) sinio
      c0 == (D("0.5") (.) b (.) Rho (.) Qoms2t (.) r.xnodp (.) r.aodp (.) Sq(Sq(tsi)) (.) Pow(psim2, D("3.5"))) (/) Sqrt(alpha2)
      c1 == D("1.5") (.) r.xnodp (.) alpha2 (.) alpha2 (.) c0
      c4 == d1 (.) d3 (.) b2
      c5 == d5 (.) d4 (.) b3
      xndt == c1 (.) (D("2") (+) (eta2 (.) (D("3") (+) (D("34") (.) r.eosq))) (+) (D("5") (.) eeta (.) (D("4") (+) eta2)) (+) (D("8.5") (.) r.eosq) (+) (d1
            (.) d2 (.) b1) (+) (c4 (.) cos2g) (+) (c5 (.) sing))
  IN  [cosio |-> r.cosio, cosio2 |-> r.cosio2, eosq |-> r.eosq, betao2 |-> r.betao2, betao |-> r.betao, xnodp |-> r.xnodp, aodp |-> r.aodp, sinio |-> sinio, sing |-> sing, cosg |-> cosg, cos2g |-> cos2g, tthmun |-> tthmun, unm5th |-> unm5th, unmth2 |-> unmth2, xmdt1 |-> xmdt1, xgdt1 |-> xgdt1, xhdt1 |-> xhdt1, xmdot |-> xmdot, omgdot |-> omgdot, xnodot |-> xnodot, tsi |-> tsi, eta |-> eta, eta2 |-> eta2, eeta |-> eeta, psim2 |-> psim2, alpha2 |-> alpha2, d1 |-> d1, d2 |-> d2, d3 |-> d3, d4 |-> d4, d5 |-> d5, b1 |-> b1, b2 |-> b2, b3 |-> b3, c0 |-> c0, c1 |-> c1, c4 |-> c4, c5 |-> c5, xndt |-> xndt]

Sgp8Init(el) ==
  LET
      c == Common8(el)
      e == el.ecc
      xndtn == c.xndt (/) c.xnodp
      \* very small drag: truncated equations
      simple == ~((D("0.00216") \prec Abs(xndtn (.) D("1440"))))
      d6 == c.eta (.) (D("30") (+) (D("22.5") (.) c.eta2))
      d7 == c.eta (.) (D("5") (+) (D("12.5") (.) c.eta2))
      d8 == D("1") (+) (c.eta2 (.) (D("6.75") (+) c.eta2))
      d9 == (c.eta (.) (D("6") (+) (D("68") (.) c.eosq))) (+) (e (.) (D("20") (+) (D("15") (.) c.eta2)))
      d10 == (D("5") (.) c.eta (.) (D("4") (+) c.eta2)) (+) (e (.) (D("17") (+) (D("68") (.) c.eta2)))
      d11 == c.eta (.) (D("72") (+) (D("18") (.) c.eta2))
      d12 == c.eta (.) (D("30") (+) (D("10") (.) c.eta2))
      d13 == D("5") (+) (D("11.25") (.) c.eta2)
      d20 == D("0.5") (.) TwoThirds (.) xndtn
      c8 == c.d1 (.) d7 (.) c.b2
      c9 == c.d5 (.) d8 (.) c.b3
      sin2g == D("2") (.) c.sing (.) c.cosg
      edot == Neg(c.c0) (.) ((c.eta (.) (D("4") (+) c.eta2 (+) (c.eosq (.) (D("15.5") (+) (D("7") (.) c.eta2))))) (+) (e (.) (D("5") (+) (D("15")
            (.) c.eta2))) (+) (c.d1 (.) d6 (.) c.b1) (+) (c8 (.) c.cos2g) (+) (c9 (.) c.sing))
      tsdtts == D("2") (.) c.aodp (.) c.tsi (.) ((d20 (.) c.betao2) (+) (e (.) edot))
      aldtal == (e (.) edot) (/) c.alpha2
      etdt == (edot (+) (e (.) tsdtts)) (.) c.tsi (.) SConst
      psdtps == Neg(c.eta) (.) etdt (.) c.psim2
      c0dtc0 == ((d20 (+) (D("4") (.) tsdtts)) (-) aldtal) (-) (D("7") (.) psdtps)
      c1dtc1 == xndtn (+) (D("4") (.) aldtal) (+) c0dtc0
      d14 == tsdtts (-) (D("2") (.) psdtps)
      d15 == D("2") (.) (d20 (+) ((e (.) edot) (/) c.betao2))
      d1dt == c.d1 (.) (d14 (+) d15)
      d2dt == etdt (.) d11
      d3dt == etdt (.) d12
      d4dt == etdt (.) d13
      d5dt == c.d5 (.) d14
      c4dt == c.b2 (.) ((d1dt (.) c.d3) (+) (c.d1 (.) d3dt))
      c5dt == c.b3 (.) ((d5dt (.) c.d4) (+) (c.d5 (.) d4dt))
      d16 == (d9 (.) etdt) (+) (d10 (.) edot) (+) (c.b1 (.) ((d1dt (.) c.d2) (+) (c.d1 (.) d2dt))) (+) (c4dt (.) c.cos2g) (+) (c5dt (.) c.sing) (+) (c.xgdt1
            (.) ((c.c5 (.) c.cosg) (-) (D("2") (.) c.c4 (.) sin2g)))
      xnddt == (c1dtc1 (.) c.xndt) (+) (c.c1 (.) d16)
      eddot == (c0dtc0 (.) edot) (-) (c.c0 (.) (((D("4") (+) (D("3") (.) c.eta2) (+) (D("30") (.) c.eeta) (+) (c.eosq (.) (D("15.5") (+) (D("21")
            (.) c.eta2)))) (.) etdt) (+) ((D("5") (+) (D("15") (.) c.eta2) (+) (c.eeta (.) (D("31") (+) (D("14") (.) c.eta2)))) (.) edot) (+) (c.b1
            (.) ((d1dt (.) d6) (+) (c.d1 (.) etdt (.) (D("30") (+) (D("67.5") (.) c.eta2))))) (+) (c.b2 (.) ((d1dt (.) d7) (+) (c.d1 (.) etdt
            (.) (D("5") (+) (D("37.5") (.) c.eta2)))) (.) c.cos2g) (+) (c.b3 (.) ((d5dt (.) d8) (+) (c.d5 (.) etdt (.) c.eta (.) (D("13.5")
            (+) (D("4") (.) c.eta2)))) (.) c.sing) (+) (c.xgdt1 (.) ((c9 (.) c.cosg) (-) (D("2") (.) c8 (.) sin2g)))))
      d25 == edot (.) edot
      d17 == (xnddt (/) c.xnodp) (-) (xndtn (.) xndtn)
      tsddts == (D("2") (.) tsdtts (.) (tsdtts (-) d20)) (+) (c.aodp (.) c.tsi (.) (((TwoThirds (.) c.betao2 (.) d17) (-) (D("4") (.) d20 (.) e (.) edot))
            (+) (D("2") (.) (d25 (+) (e (.) eddot)))))
      etddt == ((eddot (+) (D("2") (.) edot (.) tsdtts)) (.) c.tsi (.) SConst) (+) (tsddts (.) c.eta)
      d18 == tsddts (-) (tsdtts (.) tsdtts)
      d19 == (Neg((psdtps (.) psdtps) (/) c.eta2) (-) (c.eta (.) etddt (.) c.psim2)) (-) (psdtps (.) psdtps)
      d23 == etdt (.) etdt
      d1ddt == (d1dt (.) (d14 (+) d15)) (+) (c.d1 (.) ((d18 (-) (D("2") (.) d19)) (+) (TwoThirds (.) d17) (+) ((D("2") (.) (((c.alpha2
            (.) d25) (/) c.betao2) (+) (e (.) eddot))) (/) c.betao2)))
      xntrdt == (c.xndt (.) (((((D("2") (.) TwoThirds (.) d17) (+) ((D("3") (.) (d25 (+) (e (.) eddot))) (/) c.alpha2)) (-) (D("6") (.) aldtal (.) aldtal))
            (+) (D("4") (.) d18)) (-) (D("7") (.) d19))) (+) (c1dtc1 (.) xnddt) (+) (c.c1 (.) ((c1dtc1 (.) d16) (+) (d9 (.) etddt) (+) (d10 (.) eddot)
            (+) (d23 (.) (D("6") (+) (D("30") (.) c.eeta) (+) (D("68") (.) c.eosq))) (+) (etdt (.) edot (.) (D("40") (+) (D("30") (.) c.eta2)
            (+) (D("272") (.) c.eeta))) (+) (d25 (.) (D("17") (+) (D("68") (.) c.eta2))) (+) (c.b1 (.) ((d1ddt (.) c.d2) (+) (D("2") (.) d1dt
            (.) d2dt) (+) (c.d1 (.) ((etddt (.) d11) (+) (d23 (.) (D("72") (+) (D("54") (.) c.eta2))))))) (+) (c.b2 (.) ((d1ddt (.) c.d3) (+) (D("2")
            (.) d1dt (.) d3dt) (+) (c.d1 (.) ((etddt (.) d12) (+) (d23 (.) (D("30") (+) (D("30") (.) c.eta2)))))) (.) c.cos2g) (+) (c.b3 (.) ((((d5dt
            (.) d14) (+) (c.d5 (.) (d18 (-) (D("2") (.) d19)))) (.) c.d4) (+) (D("2") (.) d4dt (.) d5dt) (+) (c.d5 (.) ((etddt (.) d13) (+) (D("22.5")
            (.) c.eta (.) d23)))) (.) c.sing) (+) (c.xgdt1 (.) (((((D("7") (.) d20) (+) ((D("4") (.) e (.) edot) (/) c.betao2)) (.) ((c.c5 (.) c.cosg)
            (-) (D("2") (.) c.c4 (.) sin2g))) (+) ((D("2") (.) c5dt (.) c.cosg) (-) (D("4") (.) c4dt (.) sin2g))) (-) (c.xgdt1 (.) ((c.c5 (.) c.sing)
            (+) (D("4") (.) c.c4 (.) c.cos2g)))))))
      tmn == xnddt (.) D("1000000000")
      temp == (tmn (.) tmn) (-) (c.xndt (.) D("1e+18") (.) xntrdt)
      pp == (temp (+) (tmn (.) tmn)) (/) temp
      gamma == Neg(xntrdt) (/) (xnddt (.) (pp (-) D("2")))
      xnd == c.xndt (/) (pp (.) gamma)
      qq == D("1") (-) (eddot (/) (edot (.) gamma))
      ed == edot (/) (qq (.) gamma)
      ovgpp == D("1") (/) (gamma (.) (pp (+) D("1")))
  IN  IF simple THEN [c |-> c, simple |-> TRUE, edot |-> Neg(TwoThirds) (.) xndtn (.) (D("1") (-) e)]
      ELSE [c |-> c, simple |-> FALSE, pp |-> pp, gamma |-> gamma, xnd |-> xnd, qq |-> qq, ed |-> ed, ovgpp |-> ovgpp]

(* Kepler's equation M = E - e sin E as published: <<converged, sin E, cos E, 1/(1 - e cos E)>> *)
RECURSIVE Kepler8(_, _, _, _)
Kepler8(m, e, z, i) ==
  LET s == Sin(z) c == Cos(z) k == D("1") (/) (D("1") (-) (e (.) c))
      cape == Force(((((m (+) (e (.) s)) (-) z) (.) k) (+) z))
  IN  IF Abs(cape (-) z) \preceq D("1e-6") THEN <<TRUE, s, c, k>>
      ELSE IF i = 10 THEN <<FALSE, s, c, k>> ELSE Kepler8(m, e, cape, i + 1)
Kep8(m, e, z) == Kepler8(m, e, z, 0)

(* from mean elements to position; sinHalf: sine of half the inclination in the last step *)
(* raw: mean anomaly before reduction, for the error bound *)
Final8(c, xmam, em, xn, omg, nodes, sinHalf, half, raw) ==
  LET
      z0 == xmam (+) (em (.) Sin(xmam) (.) (D("1") (+) (em (.) Cos(xmam))))
      k == Kep8(xmam, em, z0)
      sine == k[2]
      cose == k[3]
      zc5 == k[4]
      am == Pow(Xke (/) xn, TwoThirds)
      beta2 == D("1") (-) (em (.) em)
      sinos == Sin(omg)
      cosos == Cos(omg)
      axnm == em (.) cosos
      aynm == em (.) sinos
      pm == am (.) beta2
      g1 == D("1") (/) pm
      g2 == D("0.5") (.) Ck2 (.) g1
      g3 == g2 (.) g1
      beta == Sqrt(beta2)
      g4 == D("0.25") (.) A3ovk2 (.) c.sinio
      g5 == D("0.25") (.) A3ovk2 (.) g1
      snf == beta (.) sine (.) zc5
      csf == (cose (-) em) (.) zc5
      fm == FMod2p(Atan2(snf, csf))
      snfg == (snf (.) cosos) (+) (csf (.) sinos)
      csfg == (csf (.) cosos) (-) (snf (.) sinos)
      sn2f2g == D("2") (.) snfg (.) csfg
      cs2f2g == (D("2") (.) csfg (.) csfg) (-) D("1")
      ecosf == em (.) csf
      g10 == (fm (-) xmam) (+) (em (.) snf)
      rm == pm (/) (D("1") (+) ecosf)
      aovr == am (/) rm
      g13 == xn (.) aovr
      g14 == Neg(g13) (.) aovr
      dr == (g2 (.) ((c.unmth2 (.) cs2f2g) (-) (D("3") (.) c.tthmun))) (-) (g4 (.) snfg)
      diwc == (D("3") (.) g3 (.) c.sinio (.) cs2f2g) (-) (g5 (.) aynm)
      di == diwc (.) c.cosio
      sini2 == Sin(D("0.5") (.) half)
      cosi2 == Cos(D("0.5") (.) half)
      sni2du == (sini2 (.) ((g3 (.) ((D("0.5") (.) (D("1") (-) (D("7") (.) c.cosio2)) (.) sn2f2g) (-) (D("3") (.) c.unm5th (.) g10))) (-) (g5 (.) c.sinio
            (.) csfg (.) (D("2") (+) ecosf)))) (-) ((D("0.5") (.) g5 (.) c.cosio2 (.) axnm) (/) cosi2)
      xlamb == fm (+) omg (+) nodes (+) (g3 (.) ((D("0.5") (.) ((D("1") (+) (D("6") (.) c.cosio)) (-) (D("7") (.) c.cosio2)) (.) sn2f2g) (-) (D("3")
            (.) (c.unm5th (+) (D("2") (.) c.cosio)) (.) g10))) (+) (g5 (.) c.sinio (.) (((c.cosio (.) axnm) (/) (D("1") (+) c.cosio)) (-) ((D("2")
            (+) ecosf) (.) csfg)))
      y4 == (sinHalf (.) snfg) (+) (csfg (.) sni2du) (+) (D("0.5") (.) snfg (.) cosi2 (.) di)
      y5 == ((sinHalf (.) csfg) (-) (snfg (.) sni2du)) (+) (D("0.5") (.) csfg (.) cosi2 (.) di)
      rr == rm (+) dr
      rdot == ((xn (.) am (.) em (.) snf) (/) beta) (+) (g14 (.) ((D("2") (.) g2 (.) c.unmth2 (.) sn2f2g) (+) (g4 (.) csfg)))
      rvdot == ((xn (.) am (.) am (.) beta) (/) rm) (+) (g14 (.) dr) (+) (am (.) g13 (.) c.sinio (.) diwc)
      sl == Sin(xlamb)
      cl == Cos(xlamb)
      ta == D("2") (.) ((y5 (.) sl) (-) (y4 (.) cl))
      tb == D("2") (.) ((y5 (.) cl) (+) (y4 (.) sl))
      tc == D("2") (.) Sqrt((D("1") (-) (y4 (.) y4)) (-) (y5 (.) y5))
      ux == (y4 (.) ta) (+) cl
      vx == (y5 (.) ta) (-) sl
      uy == sl (-) (y4 (.) tb)
      vy == cl (-) (y5 (.) tb)
      uz == y4 (.) tc
      vz == y5 (.) tc
  IN  [rc |-> 0, sure |-> k[1],
       pos |-> <<rr (.) ux (.) EarthKm, rr (.) uy (.) EarthKm, rr (.) uz (.) EarthKm>>,
       vel |-> <<((rdot (.) ux) (+) (rvdot (.) vx)) (.) EarthKm, ((rdot (.) uy) (+) (rvdot (.) vy)) (.) EarthKm, ((rdot (.) uz) (+) (rvdot (.) vz)) (.) EarthKm>>,
       gain |-> ((Abs(am) (+) D("1")) (/) Sq(beta2)) (.) (D("1") (+) Abs(nodes) (+) Abs(omg) (+) Abs(raw) (+) Abs(((g5 (.) c.sinio (.) c.cosio (.) axnm) (/) Sq(D("1") (+) c.cosio))))]

Sgp8At(el, p, t) ==
  LET
      c == p.c
      xmam0 == FMod2p(el.mo (+) (c.xmdot (.) t))
      temp == IF p.simple THEN D("0") ELSE D("1") (-) (p.gamma (.) t)
      temp1 == IF p.simple THEN D("0") ELSE Pow(temp, p.pp)
      xn == IF p.simple THEN c.xnodp (+) (c.xndt (.) t) ELSE c.xnodp (+) (p.xnd (.) (D("1") (-) temp1))
      em == IF p.simple THEN el.ecc (+) (p.edot (.) t) ELSE el.ecc (+) (p.ed (.) (D("1") (-) Pow(temp, p.qq)))
      z1 == IF p.simple THEN D("0.5") (.) c.xndt (.) t (.) t ELSE p.xnd (.) (t (+) (p.ovgpp (.) ((temp (.) temp1) (-) D("1"))))
      z7 == (D("3.5") (.) TwoThirds (.) z1) (/) c.xnodp
      xmam == FMod2p(xmam0 (+) z1 (+) (z7 (.) c.xmdt1))
      omg == el.argp (+) (c.omgdot (.) t) (+) (z7 (.) c.xgdt1)
      nodes == el.node (+) (c.xnodot (.) t) (+) (z7 (.) c.xhdt1)
  IN  Final8(c, xmam, em, xn, omg, nodes, Sin(D("0.5") (.) el.incl), el.incl, (c.xmdot (.) t) (+) z1)

Sdp8Init(el) == LET c == Common8(el) IN [c |-> c, dp |-> DeepInit(el, c), edot |-> Neg(TwoThirds) (.) (c.xndt (/) c.xnodp) (.) (D("1") (-) el.ecc)]
Sdp8Fresh(p) == DeepFresh(p.dp)
Sdp8Step(el, p, st, t) ==
  LET
      c == p.c
      z1 == D("0.5") (.) c.xndt (.) t (.) t
      z7 == (D("3.5") (.) TwoThirds (.) z1) (/) c.xnodp
      s == DeepSecular(el, c, p.dp, st, t, el.mo (+) (c.xmdot (.) t), el.argp (+) (c.omgdot (.) t) (+) (z7 (.) c.xgdt1), el.node (+) (c.xnodot (.) t)
            (+) (z7 (.) c.xhdt1))
      st2 == DeepRefresh(p.dp, s.st, t)
      q == [s EXCEPT !.xn = s.xn (+) (c.xndt (.) t), !.em = s.em (+) (p.edot (.) t), !.xll = s.xll (+) z1 (+) (z7 (.) c.xmdt1)]
      o == DeepApply(el, st2.per, q)
  IN  [st |-> st2, out |-> [Final8(c, FMod2p(o.xll), o.em, o.xn, o.omg, o.node, Sin(D("0.5") (.) o.xinc), el.incl, o.xll) EXCEPT !.gain = @ (/) (D("1") (-) Sq(el.ecc))]]
=============================================================================
