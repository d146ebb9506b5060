------------------------------ MODULE Healpix -------------------------------
(* The HEALPix tessellation.  A pixel is <<face, ix, iy>>: face 0..11, ix to the north-east
   and iy to the north-west inside the face, 0 <= ix, iy < nside.  Pixel numbers are
   unbounded integers (module Big).  Geometry: the sphere is unfolded to the plane with
   abscissa x (in quarter turns, modulo 4) and ordinate y, equatorial belt y = 3z/4, caps
   y = +-(1 - sigma/2) with sigma = sqrt(3(1-|z|)), the meridians of a cap converging on the
   middle of each quarter; faces are unit squares standing on a corner. *)
EXTENDS FP, Big, Integers, Sequences
Pi == D("3.141592653589793238462643383279502884197")
HalfPi == D("0.5") (.) Pi
TwoPi == D("2") (.) Pi

(* centre of a face in half units: abscissa 1 3 5 7 0 2 4 6 1 3 5 7, ordinate 1 1 1 1 0 0 0 0 -1 ... *)
FaceX2(f) == IF f \div 4 = 1 THEN 2 * (f % 4) ELSE 2 * (f % 4) + 1
FaceY2(f) == 1 - f \div 4
Pixels(n) == (0..11) \X (0..(n - 1)) \X (0..(n - 1))
IsPower2(n) == \E k \in 0..29 : n = 2 ^ k
NPix(n) == BMul(12, BMul(n, n))

(* --------------------------------------------------------- numbering schemes *)
(* nested: bits of iy and ix interleaved *)
RECURSIVE Spread(_)
Spread(a) == IF a = 0 THEN 0 ELSE BAdd(a % 2, BMul(4, Spread(a \div 2)))
NestOf(n, p) == BAdd(BMul(p[1], BMul(n, n)), BAdd(Spread(p[2]), BMul(2, Spread(p[3]))))
RECURSIVE Gather(_)
Gather(b) == IF BEq(b, 0) THEN 0 ELSE BInt(BMod(b, 2)) + 2 * Gather(BDiv(b, 4))
PixelOfNest(n, i) ==
  LET nn == BMul(n, n)  r == BMod(i, nn)
  IN  <<BInt(BDiv(i, nn)), Gather(r), Gather(BDiv(r, 2))>>

(* ring: rings of equal latitude from the north pole, 1 .. 4 nside - 1, numbers going east *)
RingLine(n, p) == BSub(BMul(n, 3 - FaceY2(p[1])), BAdd(BAdd(p[2], p[3]), 1))
(* pixels in a ring: 4 r in the caps, 4 nside in the belt *)
CapRing(n, r) == IF BLt(r, n) THEN r ELSE IF BLt(BMul(3, n), r) THEN BSub(BMul(4, n), r) ELSE n
RingStart(n, r) == IF BLt(r, n) THEN BMul(2, BMul(r, BSub(r, 1)))
                   ELSE IF BLe(r, BMul(3, n)) THEN BAdd(BMul(2, BMul(n, BSub(n, 1))), BMul(BSub(r, n), BMul(4, n)))
                   ELSE LET s == BSub(BMul(4, n), r) IN BSub(NPix(n), BMul(2, BMul(s, BAdd(s, 1))))
(* in the belt every second ring starts half a pixel from longitude zero *)
Shifted(n, r) == IF BLt(r, n) \/ BLt(BMul(3, n), r) THEN 1 ELSE BInt(BMod(BAdd(BSub(r, n), 1), 2))
(* twice the position along the ring, in pixels: centres at 2 k + Shifted *)
Along2(n, p) == LET r == RingLine(n, p) IN BMod(BAdd(BMul(FaceX2(p[1]), CapRing(n, r)), BSub(p[2], p[3])), BMul(8, CapRing(n, r)))
RingOf(n, p) == LET r == RingLine(n, p) IN BAdd(RingStart(n, r), BDiv(BSub(Along2(n, p), Shifted(n, r)), 2))

RingNo(n, i) ==            \* ring of pixel number i
  LET cap == BMul(2, BMul(n, BSub(n, 1)))
      s == BSub(NPix(n), i)
  IN  IF BLt(i, cap) THEN BDiv(BAdd(1, BSqrt(BAdd(1, BMul(2, i)))), 2)
      ELSE IF BLt(i, BSub(NPix(n), cap)) THEN BAdd(n, BDiv(BSub(i, cap), BMul(4, n)))
      ELSE BSub(BMul(4, n), BDiv(BAdd(1, BSqrt(BSub(BMul(2, s), 1))), 2))
(* candidates: the face of a ring position is the one whose local coordinates fit *)
InFace(n, f, r, a2) ==
  LET q == CapRing(n, r)
      u == BSub(BMul(n, 3 - FaceY2(f)), BAdd(r, 1))                 \* ix + iy
      d0 == BSub(a2, BMul(FaceX2(f), q))                            \* ix - iy, modulo a turn
      turn == BMul(8, q)
      d == IF BLt(BMul(4, q), d0) THEN BSub(d0, turn) ELSE IF BLt(d0, BMul(-4, q)) THEN BAdd(d0, turn) ELSE d0
  IN  [sum |-> u, diff |-> d]
Fits(n, w) == /\ BEq(BMod(BAdd(w.sum, w.diff), 2), 0)
              /\ BLe(0, BAdd(w.sum, w.diff)) /\ BLt(BDiv(BAdd(w.sum, w.diff), 2), n)
              /\ BLe(0, BSub(w.sum, w.diff)) /\ BLt(BDiv(BSub(w.sum, w.diff), 2), n)
PixelOfRing(n, i) ==
  LET r == RingNo(n, i)
      a2 == BAdd(BMul(2, BSub(i, RingStart(n, r))), Shifted(n, r))
      f == CHOOSE g \in 0..11 : Fits(n, InFace(n, g, r, a2))
      w == InFace(n, f, r, a2)
  IN  <<f, BInt(BDiv(BAdd(w.sum, w.diff), 2)), BInt(BDiv(BSub(w.sum, w.diff), 2))>>

InRange(n, i) == BLe(0, i) /\ BLt(i, NPix(n))

(* ------------------------------------------------------------------ geometry *)
(* centre of a pixel: <<z, 1-|z|, longitude>> *)
Centre(n, p) ==
  LET r == RingLine(n, p)
      q == CapRing(n, r)
      fq == BToFP(q)
      fn == BToFP(n)
      cap == (fq (.) fq) (/) (D("3") (.) fn (.) fn)
      belt == ((D("2") (.) fn) (-) BToFP(r)) (.) (D("2") (/) (D("3") (.) fn))
      lon == BToFP(Along2(n, p)) (.) ((D("0.25") (.) Pi) (/) fq)
  IN  IF BLt(r, n) THEN <<D("1") (-) cap, cap, lon>>
      ELSE IF BLt(BMul(3, n), r) THEN <<cap (-) D("1"), cap, lon>>
      ELSE <<belt, D("1") (-) Abs(belt), lon>>
Colatitude(c) == Atan2(Sqrt(c[2] (.) (D("2") (-) c[2])), c[1])

(* a direction: <<z, 1 - |z| to full precision, quarter turns 0 <= tt <= 4>> *)
Quarter(phi) == LET r == FMod(phi, TwoPi) IN (IF r \prec D("0") THEN (r (+) TwoPi) ELSE r) (/) HalfPi
OfAngles(theta, phi) ==
  LET m == IF HalfPi \prec theta THEN Pi (-) theta ELSE theta  s == Sin(D("0.5") (.) m)
  IN  <<Cos(theta), D("2") (.) s (.) s, Quarter(phi)>>
OfVector(v) ==
  LET h == (v[1] (.) v[1]) (+) (v[2] (.) v[2])
      l == Sqrt(h (+) (v[3] (.) v[3]))
      z == v[3] (/) l
      tt == Atan2(v[2], v[1]) (/) HalfPi
  IN  <<z, (h (/) (l (.) l)) (/) (D("1") (+) Abs(z)), IF tt \prec D("0") THEN (tt (+) D("4")) ELSE tt>>
Wrap4(x) == IF D("2") \prec x THEN (x (-) D("4")) ELSE IF x \prec D("-2") THEN (x (+) D("4")) ELSE x
(* coordinates (in faces, 0..1) of a direction in face f, or out of range when it is not near it *)
Local(f, d) ==
  LET cap == D("2") \prec (D("3") (.) Abs(d[1]))
      north == D("0") \prec d[1]
      sigma == Sqrt(D("3") (.) d[2])
      xc == D("0.5") (.) N(FaceX2(f))
      yc == D("0.5") (.) N(FaceY2(f))
      \* in a cap, the quarter of the face looked at: a polar face's own, or the nearest one
      \* of the two that touch an equatorial face at its corner
      off == Wrap4(d[3] (-) xc)                                     \* of the direction from the face centre
      mid == IF FaceY2(f) = 0 THEN (IF off \prec D("0") THEN D("-0.5") ELSE D("0.5")) ELSE D("0")
      x == IF cap THEN mid (+) ((off (-) mid) (.) sigma) ELSE off
      y == (IF cap THEN (IF north THEN D("1") (-) (D("0.5") (.) sigma) ELSE (D("0.5") (.) sigma) (-) D("1")) ELSE D("0.75") (.) d[1]) (-) yc
      near == ~cap \/ FaceY2(f) = 0 \/ Abs(off) \preceq D("0.50000001")
  IN  IF near THEN <<x (+) y (+) D("0.5"), (y (-) x) (+) D("0.5")>> ELSE <<D("9"), D("9")>>
(* does pixel p contain the direction, to a tolerance in pixels *)
Contains(n, p, d, tol) ==
  LET l == Local(p[1], d)
      a == (BToFP(n) (.) l[1]) (-) N(p[2])
      b == (BToFP(n) (.) l[2]) (-) N(p[3])
      ok(x) == Neg(tol) \preceq x /\ x \preceq (D("1") (+) tol)
  IN  ok(a) /\ ok(b)
(* well inside: no other pixel could be meant *)
Inside(n, p, d, tol) ==
  LET l == Local(p[1], d)
      a == (BToFP(n) (.) l[1]) (-) N(p[2])
      b == (BToFP(n) (.) l[2]) (-) N(p[3])
      ok(x) == tol \prec x /\ x \prec (D("1") (-) tol)
  IN  ok(a) /\ ok(b)
(* rounding of the indices, in pixels; plain: the cap coordinate is taken from z alone *)
TolDir(n, d, plain) ==
  LET eps == D("4e-15")
      sigma == Sqrt(D("3") (.) d[2])
  IN  BToFP(n) (.) (eps (+) (IF plain /\ D("2") \prec (D("3") (.) Abs(d[1])) THEN Min2(D("4e-8"), D("1e-15") (/) sigma) ELSE D("0")))

NsideOf(np) == IF BLt(0, np) /\ BEq(BMod(np, 12), 0) THEN LET s == BSqrt(BDiv(np, 12)) IN IF BEq(BMul(12, BMul(s, s)), np) THEN s ELSE -1 ELSE -1
=============================================================================
