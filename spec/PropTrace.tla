----------------------------- MODULE PropTrace ------------------------------
(* Sessions of propagation calls.  A session initialises element sets for models and
   propagates them in some order; the specification carries the state every model keeps
   (the deep-space state of SDP4 and SDP8, nothing for the others) from call to call.
   Beside every answer the session records the answer of a freshly initialised set. *)
EXTENDS Models, Verdict
T == INSTANCE Tle

B(p, ok, why) == IF ok THEN {} ELSE {<<p, why>>}
PropOf(model) == CASE model \in {"SGP4", "SDP4"} -> "C12" [] model = "HIGH" -> "C22" [] OTHER -> "C23"
(* nothing is said about rounding-dominated orbits: exactly retrograde or all but parabolic deep-space ones *)
Judgeable(model, el) ==
  model = "HIGH" \/ (ValidElements(el) /\ (model \in {"SDP4", "SDP8"} => el.incl \prec D("3.1398") /\ el.ecc \prec D("0.999")))

V3(f, k) == <<R(f[k]), R(f[k + 1]), R(f[k + 2])>>
Near3(u, v, tol) == \A i \in 1..3 : Abs(u[i] (-) v[i]) \preceq tol
Off(u, v) == Abs(u[1] (-) v[1]) (+) Abs(u[2] (-) v[2]) (+) Abs(u[3] (-) v[3])
Same3(u, v) == \A i \in 1..3 : ~(u[i] \prec v[i]) /\ ~(v[i] \prec u[i])
Untouched == D("1e99")
(* answer: [rc, f: position and velocity] *)
Matches(model, el, ans, out) ==
  IF ~out.sure \/ ~Fin(out) \/ ~IsFinite(out.gain) \/ ~(out.gain \prec D("1e9")) THEN "ok"
  ELSE IF ans.rc # out.rc THEN "outcome code"
  ELSE IF out.rc = -5 THEN "ok"
  ELSE IF ~Near3(V3(ans.f, 1), out.pos, TolOf(model, out)) THEN "position: off by " \o Show(Off(V3(ans.f, 1), out.pos)) \o " km, allowed " \o Show(TolOf(model, out))
  ELSE IF ans.vel = 1 /\ ~Near3(V3(ans.f, 4), out.vel, VelTol(model, out)) THEN "velocity: off by " \o Show(Off(V3(ans.f, 4), out.vel)) \o " km/min, allowed " \o Show(VelTol(model, out))
  ELSE IF ans.vel = 0 /\ ~Same3(V3(ans.f, 4), <<Untouched, Untouched, Untouched>>) THEN "velocity written without being asked for"
  ELSE "ok"

(* C13: what the history changes in the answer is what it changes in the model *)
HistoryOk(model, ans, fresh, out, fout) ==
  IF ~out.sure \/ ~fout.sure \/ ~Fin(out) \/ ~Fin(fout) \/ ~IsFinite(out.gain) \/ ~(out.gain \prec D("1e9")) THEN TRUE
  ELSE IF out.rc = -5 \/ fout.rc = -5 THEN TRUE
  ELSE IF Stateless(model) THEN /\ ans.rc = fresh.rc
                                /\ Same3(V3(ans.f, 1), V3(fresh.f, 1))
  ELSE LET d(k) == (R(ans.f[k]) (-) R(fresh.f[k])) (-) (out.pos[k] (-) fout.pos[k])
       IN  /\ (out.rc = fout.rc) = (ans.rc = fresh.rc)
           /\ \A k \in 1..3 : Abs(d(k)) \preceq (D("4") (.) TolOf(model, out))

(* elements handed to the choice directly, whatever their text would be *)
Given(q) == [type |-> q.type, high |-> q.type = 72, ecc |-> R(q.eo), no |-> R(q.no), incl |-> R(q.incl)]

VARIABLES run, step, els, prm, st, bad
vars == <<run, step, els, prm, st, bad>>
S(r) == Trace[r]
Init == run \in 1..Len(Trace) /\ step = 0 /\ els = <<>> /\ prm = <<>> /\ st = <<>> /\ bad = {}
(* decode, choose, initialise *)
Load ==
  /\ step = 0
  /\ LET o == S(run)
         E(i) == Force(T!Elements(o.objs[i].l1, o.objs[i].l2))
         e == [i \in 1..Len(o.objs) |-> E(i)]
     IN  /\ els' = e
         /\ IF o.crash # ""
            THEN prm' = <<>> /\ st' = <<>> /\ step' = 1 + Len(o.calls) /\ bad' = Mine({<<PropOf(o.objs[i].model), "crash">> : i \in 1..Len(o.objs)} \cup {<<"C13", "crash">>})
            ELSE /\ prm' = [i \in 1..Len(o.objs) |-> InitOf(o.objs[i].model, els'[i])]
                 /\ st' = [i \in 1..Len(o.objs) |-> FreshState(o.objs[i].model, prm'[i])]
                 /\ step' = 1
                 /\ bad' = Mine(UNION {B("C13", o.objs[i].choice \in ModelChoice(els'[i]), "choice of model") : i \in 1..Len(o.objs)}
                                   \cup UNION {B("C13", o.picks[i].choice \in ModelChoice(Given(o.picks[i])), "choice of model for given elements") : i \in 1..Len(o.picks)})
         /\ Report(o.id, bad')
  /\ UNCHANGED run
(* one recorded call *)
Call ==
  /\ step >= 1 /\ step <= Len(S(run).calls)
  /\ LET o == S(run)  c == o.calls[step]  i == c.obj  model == o.objs[i].model
         t == R(c.t)
         now == IF c.init = 1 THEN FreshState(model, prm[i]) ELSE st[i]   (* initialised anew, in the place of another set *)
         n == Step(model, els[i], prm[i], now, t)
         f == IF Stateless(model) THEN n ELSE Step(model, els[i], prm[i], FreshState(model, prm[i]), t)
         m == Matches(model, els[i], c.fresh, f.out)
     IN  /\ st' = [st EXCEPT ![i] = n.st]
         /\ bad' = IF ~Judgeable(model, els[i]) THEN {}
                   ELSE Mine(B(PropOf(model), m = "ok", m)
                          \cup (IF Stateless(model) THEN LET h == Matches(model, els[i], c, n.out) IN B(PropOf(model), m # "ok" \/ h = "ok", "in a sequence of calls") ELSE {})
                          \cup B("C13", HistoryOk(model, c, c.fresh, n.out, f.out), "answer depends on earlier calls"))
         /\ Report(o.id, bad')
  /\ step' = step + 1
  /\ UNCHANGED <<run, els, prm>>
Next == bad = {} /\ (Load \/ Call)
Ok == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
