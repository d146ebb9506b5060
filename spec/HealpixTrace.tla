---------------------------- MODULE HealpixTrace ----------------------------
(* Recorded calls of the HEALPix functions.  wide: resolution beyond the 32-bit functions;
   nest: nside is a power of two. *)
EXTENDS Healpix, Verdict
B(p, ok, why) == IF ok THEN {} ELSE {<<p, why>>}
X(o, i) == R(o.f[i])
VecOf(o, i) == <<X(o, i), X(o, i + 1), X(o, i + 2)>>
Close(x, y, t) == Abs(x (-) y) \preceq t
CloseV(u, v, t) == \A k \in 1..3 : Close(u[k], v[k], t)
Turned(a, b, t) == LET r == Abs(FMod(a (-) b, TwoPi)) IN r \preceq t \/ (TwoPi (-) t) \preceq r
SphereTol == D("1e-14")
VecOfAngles(th, ph) == <<Sin(th) (.) Cos(ph), Sin(th) (.) Sin(ph), Cos(th)>>

(* one returned pixel number of direction d; nested or ring; plain as in TolDir *)
PixelOk(n, i, d, nested, plain) ==
  IF ~InRange(n, i) THEN FALSE
  ELSE Contains(n, IF nested THEN PixelOfNest(n, i) ELSE PixelOfRing(n, i), d, TolDir(n, d, plain))
(* p: numbers ring, ring of vector, nest, nest of vector (64 bit), then the same of the plain functions *)
JudgePixels(o, da, dv) ==
  LET n == o.ns
      one(k, d, nested, plain) == PixelOk(n, o.p[k], d, nested, plain)
  IN  (IF o.useang THEN B("C17", one(1, da, FALSE, FALSE), "ang2pix_ring64") ELSE {})
      \cup B("C17", one(2, dv, FALSE, FALSE), "vec2pix_ring64")
      \cup (IF o.nest THEN (IF o.useang THEN B("C17", one(3, da, TRUE, FALSE), "ang2pix_nest64") ELSE {})
                           \cup B("C17", one(4, dv, TRUE, FALSE), "vec2pix_nest64") ELSE {})
      \cup (IF ~o.wide THEN (IF o.useang THEN B("C17", one(5, da, FALSE, TRUE), "ang2pix_ring") ELSE {})
                            \cup B("C17", one(6, dv, FALSE, TRUE), "vec2pix_ring") ELSE {})
      \cup (IF o.nest /\ ~o.wide THEN (IF o.useang THEN B("C17", one(7, da, TRUE, TRUE), "ang2pix_nest") ELSE {})
                                      \cup B("C17", one(8, dv, TRUE, TRUE), "vec2pix_nest") ELSE {})
JudgeDir(o) ==             \* a: theta, phi; f: vec, theta and phi of vec
  LET th == R(o.a[1])  ph == R(o.a[2])
      da == Force(OfAngles(th, ph))
      v == VecOf(o, 1)
      dv == Force(OfVector(v))
  IN  B("C17", CloseV(v, VecOfAngles(th, ph), SphereTol), "ang2vec")
      \cup B("C17", D("0") \preceq X(o, 5) /\ X(o, 5) \preceq (TwoPi (+) D("1e-15")) /\ D("0") \preceq X(o, 4) /\ X(o, 4) \preceq (Pi (+) D("1e-15"))
                    /\ CloseV(VecOfAngles(X(o, 4), X(o, 5)), v, SphereTol), "vec2ang")
      \cup JudgePixels(o, da, dv)
JudgeVec(o) ==             \* a: x, y, z; f: theta, phi
  LET v == <<R(o.a[1]), R(o.a[2]), R(o.a[3])>>
      l == Sqrt((v[1] (.) v[1]) (+) (v[2] (.) v[2]) (+) (v[3] (.) v[3]))
  IN  B("C17", D("0") \preceq X(o, 2) /\ X(o, 2) \preceq (TwoPi (+) D("1e-15")) /\ D("0") \preceq X(o, 1) /\ X(o, 1) \preceq (Pi (+) D("1e-15"))
               /\ CloseV(VecOfAngles(X(o, 1), X(o, 2)), <<v[1] (/) l, v[2] (/) l, v[3] (/) l>>, SphereTol), "vec2ang")
      \cup JudgePixels(o, <<>>, OfVector(v))

(* f at k: theta, phi, vector of the centre of pixel p *)
CentreOk(n, p, o, k, plain) ==
  LET c == Centre(n, p)
      th == Colatitude(c)
      loose == IF plain THEN Min2(D("4e-8"), D("1e-15") (/) Sin(th)) ELSE D("0")
      tol == SphereTol (+) loose
      s == Sqrt(c[2] (.) (D("2") (-) c[2]))
      \* relative precision of the distance to the pole as well
      rel == IF plain THEN tol ELSE (D("1e-13") (.) s) (+) D("1e-300")
  IN  /\ Close(X(o, k), th, tol) /\ Turned(X(o, k + 1), c[3], SphereTol)
      /\ Close(X(o, k + 2), s (.) Cos(c[3]), tol) /\ Close(X(o, k + 3), s (.) Sin(c[3]), tol) /\ Close(X(o, k + 4), c[1], SphereTol)
      /\ (D("0.99") \prec Abs(c[1]) => Close(Sqrt(Sq(X(o, k + 2)) (+) Sq(X(o, k + 3))), s, rel))
JudgePix(o) ==             \* i: pixel number, read as ring and as nested
  LET n == o.ns
      pr == Force(PixelOfRing(n, o.i))
      pn == IF o.nest THEN PixelOfNest(n, o.i) ELSE <<0, 0, 0>>
  IN  B("C17", CentreOk(n, pr, o, 1, FALSE), "centre, ring, 64 bit")
      \cup (IF ~o.wide THEN B("C17", CentreOk(n, pr, o, 6, TRUE), "centre, ring") ELSE {})
      \cup (IF o.nest THEN B("C17", CentreOk(n, pn, o, 11, FALSE), "centre, nested, 64 bit") ELSE {})
      \cup (IF o.nest /\ ~o.wide THEN B("C17", CentreOk(n, pn, o, 16, TRUE), "centre, nested") ELSE {})
      \cup (IF o.nest THEN B("C17", BEq(o.p[1], RingOf(n, pn)), "nest2ring64") \cup B("C17", BEq(o.p[2], NestOf(n, pr)), "ring2nest64")
            ELSE B("C17", BEq(o.p[1], -1) /\ BEq(o.p[2], -1), "nested conversion at a resolution without nesting"))
      \cup (IF ~o.wide THEN IF o.nest THEN B("C17", BEq(o.p[3], RingOf(n, pn)), "nest2ring") \cup B("C17", BEq(o.p[4], NestOf(n, pr)), "ring2nest")
                            ELSE B("C17", BEq(o.p[3], -1) /\ BEq(o.p[4], -1), "nested conversion at a resolution without nesting")
            ELSE {})
JudgeBack(o) ==            \* p: numbers found from a recorded centre of pixel i, all the same
  B("C17", \A k \in 1..Len(o.p) : BEq(o.p[k], o.i), "the centre of a pixel is in another pixel")
JudgeCount(o) ==           \* i: number of pixels; p: nside2npix64, npix2nside64, nside2npix, npix2nside
  B("C17", BEq(o.p[1], NPix(o.ns)) /\ BEq(o.p[2], NsideOf(o.i)), "pixel count, 64 bit")
  \cup (IF ~o.wide THEN B("C17", BEq(o.p[3], NPix(o.ns)) /\ BEq(o.p[4], NsideOf(o.i)), "pixel count") ELSE {})

Judge(o) == IF o.crash # "" THEN B("C17", FALSE, "crash")
            ELSE CASE o.k = "dir" -> JudgeDir(o) [] o.k = "vec" -> JudgeVec(o) [] o.k = "pix" -> JudgePix(o)
                   [] o.k = "back" -> JudgeBack(o) [] o.k = "count" -> JudgeCount(o)
VARIABLES run, bad
Init == run \in 1..Len(Trace) /\ bad = {<<"todo", "">>}
Next == bad = {<<"todo", "">>} /\ bad' = Mine(Judge(Trace[run])) /\ Report(Trace[run].id, bad') /\ UNCHANGED run
Ok == bad \in {{}, {<<"todo", "">>}}
Spec == Init /\ [][Next]_<<run, bad>>
=============================================================================
