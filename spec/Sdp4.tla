-------------------------------- MODULE Sdp4 --------------------------------
(* The SDP4 model (Spacetrack Report 3) for deep-space orbits: a state machine over
   the deep-space state of module Deep. *)
EXTENDS Deep

Sdp4Init(el) == LET c == Common(el) IN [c |-> c, dp |-> DeepInit(el, c)]
Sdp4Fresh(p) == DeepFresh(p.dp)

(* [st: next state, out: outcome, position, velocity] *)
Sdp4Step(el, p, st, t) ==
  LET
      c == p.c
      tsq == t (.) t
      s == DeepSecular(el, c, p.dp, st, t, el.mo (+) (c.xmdot (.) t), el.argp (+) (c.omgdot (.) t), el.node (+) (c.xnodot (.) t) (+) (c.xnodcf (.) tsq))
      tempa == D("1") (-) (c.c1 (.) t)
      a == Pow(Xke (/) s.xn, TwoThirds) (.) tempa (.) tempa
      st2 == DeepRefresh(p.dp, s.st, t)
      q == [s EXCEPT !.em = s.em (-) (el.bstar (.) c.c4 (.) t), !.xll = s.xll (+) (c.xnodp (.) c.t2cof (.) tsq)]
      o == DeepApply(el, st2.per, q)
      xl == o.xll (+) o.omg (+) o.node
  IN  IF s.xn \prec D("0") THEN [st |-> s.st, out |-> NoMotion(-5)]
      ELSE [st |-> st2, out |-> [PosVel(o.node, a, o.em, Cos(o.xinc), Sin(o.xinc), o.xinc, o.omg, xl) EXCEPT !.gain = (@ (.) (D("1") (+) Abs((c.c1 (.) t) (/) tempa))) (/) (D("1") (-) Sq(el.ecc))]]
=============================================================================
