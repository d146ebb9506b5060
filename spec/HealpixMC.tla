----------------------------- MODULE HealpixMC ------------------------------
(* Walks every pixel of the small resolutions in ring order and in nested order. *)
EXTENDS Healpix, TLC
LOCAL INSTANCE IOUtils
Ns == IF IOEnv.BIG = "1" THEN (1..24) \cup {32, 48} ELSE (1..8) \cup {16}
VARIABLES n, i
Init == n \in Ns /\ i = 0
Next == i + 1 < 12 * n * n /\ i' = i + 1 /\ n' = n
Spec == Init /\ [][Next]_<<n, i>>
P == PixelOfRing(n, i)
RingBijection == P \in Pixels(n) /\ BEq(RingOf(n, P), i)
NestBijection == IsPower2(n) => LET q == PixelOfNest(n, i) IN q \in Pixels(n) /\ BEq(NestOf(n, q), i)
Dir(p) == LET c == Centre(n, p) IN <<c[1], c[2], c[3] (/) HalfPi>>
CentreInside == Inside(n, P, Dir(P), D("0.4"))
(* the centre is in no other pixel: a pixel of each face is looked at by its own numbers *)
OnlyOne == \A f \in 0..11 : LET l == Local(f, Dir(P))
                                ok(x) == D("0") \preceq x /\ x \prec D("1")
                            IN  (ok(l[1]) /\ ok(l[2])) => f = P[1]
(* ring order is the order of the centres: southwards, then eastwards *)
InOrder == [][LET a == Centre(n, PixelOfRing(n, i))  b == Centre(n, PixelOfRing(n, i'))
                  same == Abs(a[1] (-) b[1]) \prec D("1e-9")
              IN  IF same THEN a[3] \prec b[3] ELSE b[1] \prec a[1]]_<<n, i>>
CellAreas == BEq(NsideOf(NPix(n)), n)
=============================================================================
