-------------------------------- MODULE Sgp4 --------------------------------
(* The SGP4 model (Spacetrack Report 3) for near-earth orbits. *)
EXTENDS Orbit

Sgp4Init(el) ==
  LET
      c == Common(el)
      \* perigee below 220 km: truncated equations
      simple == ((c.aodp (.) (D("1") (-) el.ecc)) \prec ((D("220") (/) EarthKm) (+) D("1")))
      eta == c.aodp (.) el.ecc (.) c.tsi
      eeta == el.ecc (.) eta
      etasq == eta (.) eta
      c1sq == c.c1 (.) c.c1
      dm == D("1") (+) (eta (.) Cos(el.mo))
      delmo == dm (.) dm (.) dm
      d2 == D("4") (.) c.aodp (.) c.tsi (.) c1sq
      k == (d2 (.) c.tsi (.) c.c1) (/) D("3")
      d3 == ((D("17") (.) c.aodp) (+) c.s4) (.) k
      d4 == D("0.5") (.) k (.) c.aodp (.) c.tsi (.) ((D("221") (.) c.aodp) (+) (D("31") (.) c.s4)) (.) c.c1
      t3cof == d2 (+) (D("2") (.) c1sq)
      t4cof == D("0.25") (.) ((D("3") (.) d3) (+) (c.c1 (.) ((D("12") (.) d2) (+) (D("10") (.) c1sq))))
      t5cof == D("0.2") (.) ((D("3") (.) d4) (+) (D("12") (.) c.c1 (.) d3) (+) (D("6") (.) d2 (.) d2) (+) (D("15") (.) c1sq (.) ((D("2") (.) d2) (+) c1sq)))
      tiny == (el.ecc \prec D("0.0001"))
      c3 == (c.coef (.) c.tsi (.) A3ovk2 (.) c.xnodp (.) c.sinio) (/) el.ecc
      xmcof == (IF tiny THEN D("0") ELSE (Neg(TwoThirds) (.) c.coef (.) el.bstar) (/) eeta)
      omgcof == (IF tiny THEN D("0") ELSE el.bstar (.) c3 (.) Cos(el.argp))
      c5 == D("2") (.) c.coef1 (.) c.aodp (.) c.betao2 (.) (D("1") (+) (D("2.75") (.) (etasq (+) eeta)) (+) (eeta (.) etasq))
  IN  [c |-> c, simple |-> simple, eta |-> eta, delmo |-> delmo, sinmo |-> Sin(el.mo), d2 |-> d2, d3 |-> d3, d4 |-> d4, t3cof |-> t3cof, t4cof |-> t4cof, t5cof |-> t5cof, xmcof |-> xmcof, omgcof |-> omgcof, c5 |-> c5]

Sgp4At(el, p, t) ==
  LET
      c == p.c
      xmdf == el.mo (+) (c.xmdot (.) t)
      omgadf == el.argp (+) (c.omgdot (.) t)
      tsq == t (.) t
      xnode == el.node (+) (c.xnodot (.) t) (+) (c.xnodcf (.) tsq)
      dm == D("1") (+) (p.eta (.) Cos(xmdf))
      dlt == (p.omgcof (.) t) (+) (p.xmcof (.) ((dm (.) dm (.) dm) (-) p.delmo))
      xmp == (IF p.simple THEN xmdf ELSE xmdf (+) dlt)
      omega == (IF p.simple THEN omgadf ELSE omgadf (-) dlt)
      tempa == (IF p.simple THEN D("1") (-) (c.c1 (.) t) ELSE (((D("1") (-) (c.c1 (.) t)) (-) (p.d2 (.) tsq)) (-) (p.d3 (.) tsq (.) t)) (-) (p.d4 (.) tsq
            (.) tsq))
      tempe == (IF p.simple THEN el.bstar (.) c.c4 (.) t ELSE (el.bstar (.) c.c4 (.) t) (+) (el.bstar (.) p.c5 (.) (Sin(xmp) (-) p.sinmo)))
      templ == (IF p.simple THEN c.t2cof (.) tsq ELSE (c.t2cof (.) tsq) (+) (p.t3cof (.) tsq (.) t) (+) (tsq (.) tsq (.) (p.t4cof (+) (t (.) p.t5cof))))
      aa == c.aodp (.) tempa (.) tempa
      a == (IF (tempa \prec D("0")) THEN Neg(aa) ELSE aa)
      e0 == el.ecc (-) tempe
      e == (IF (e0 \prec D("1e-06")) THEN D("1e-06") ELSE e0)
      xl == xmp (+) omega (+) xnode (+) (c.xnodp (.) templ)
      \* terms that cancel amplify rounding
      amp == D("1") (+) Abs(c.c1 (.) t) (+) Abs(p.d2 (.) tsq) (+) Abs(p.d3 (.) tsq (.) t) (+) Abs(p.d4 (.) tsq (.) tsq) (+) Abs(el.bstar (.) c.c4 (.) t)
  IN  [PosVel(xnode, a, e, c.cosio, c.sinio, el.incl, omega, xl) EXCEPT !.gain = @ (.) amp (.) (D("1") (+) (D("1") (/) Abs(tempa)))]
=============================================================================
