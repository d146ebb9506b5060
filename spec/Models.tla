------------------------------- MODULE Models -------------------------------
(* The propagation models side by side: which one an element set is for, what is kept from
   its initialisation, one propagation as a step of the state the model keeps. *)
EXTENDS Sgp4, Sdp4, Legacy, High

ValidElements(el) == D("0") \prec el.no /\ ~(D("1") \prec el.ecc) /\ ~(el.ecc \prec D("0"))
(* which model an element set is for: 1 deep space, 0 near earth, -1 invalid *)
ModelChoice(el) ==
  IF el.high THEN {1}
  ELSE IF ~ValidElements(el) THEN {-1}
  ELSE IF el.type \in {50, 52} THEN {0}
  ELSE IF el.type \in {51, 53} THEN {1}
  ELSE LET p == Period(el)
       IN  IF ~IsFinite(p) THEN {0, 1}
           ELSE IF Abs(p (-) D("225")) \prec D("1e-9") THEN {0, 1}
           ELSE IF D("225") \preceq p THEN {1} ELSE {0}

Stateless(model) == model \in {"SGP", "SGP4", "SGP8", "HIGH"}
InitOf(model, el) ==
  CASE model = "SGP"  -> SgpInit(el)
    [] model = "SGP4" -> Sgp4Init(el)
    [] model = "SGP8" -> Sgp8Init(el)
    [] model = "SDP4" -> Sdp4Init(el)
    [] model = "SDP8" -> Sdp8Init(el)
    [] model = "HIGH" -> [none |-> 0]
FreshState(model, p) == IF Stateless(model) THEN [none |-> 0] ELSE DeepFresh(p.dp)
Step(model, el, p, st, t) ==
  CASE model = "SGP"  -> [st |-> st, out |-> SgpAt(el, p, t)]
    [] model = "SGP4" -> [st |-> st, out |-> Sgp4At(el, p, t)]
    [] model = "SGP8" -> [st |-> st, out |-> Sgp8At(el, p, t)]
    [] model = "SDP4" -> Sdp4Step(el, p, st, t)
    [] model = "SDP8" -> Sdp8Step(el, p, st, t)
    [] model = "HIGH" -> [st |-> st, out |-> HighAt(el, t)]

Eps == D("1e-12")
TolOf(model, out) == IF model = "HIGH" THEN D("1e-5") (+) ((D("1e-9") (+) (D("1e-14") (.) out.gain)) (.) (Abs(out.pos[1]) (+) Abs(out.pos[2]) (+) Abs(out.pos[3])))
                     ELSE D("1e-6") (+) (Eps (.) EarthKm (.) out.gain)
(* the speed is the more sensitive the nearer to the centre *)
VelTol(model, out) == TolOf(model, out) (+) (D("10") (.) Eps (.) out.gain (.) (Abs(out.vel[1]) (+) Abs(out.vel[2]) (+) Abs(out.vel[3])))
Fin(out) == \A i \in 1..3 : IsFinite(out.pos[i]) /\ IsFinite(out.vel[i])
=============================================================================
