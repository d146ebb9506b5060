------------------------------- MODULE Window -------------------------------
(* The scan of sat_visibility as a machine.  At every step the satellite is in one of the conditions
     "in"    inside the circle around the zenith and sunlit
     "dark"  inside, not sunlit          "out"  outside
     "err"   has no position             "alt"  at an altitude outside the range asked for
   State: ph "before" the window, "in" it, "done", "failed"; start, end: numbers of steps (0: none).
   When it is not known which condition holds (rounding), several states are possible. *)
EXTENDS Integers
Conditions == {"in", "dark", "out", "err", "alt"}
Fresh == [ph |-> "before", start |-> 0, end |-> 0]
Advance(p, c, k) ==
  CASE p.ph \in {"done", "failed"} -> p
    [] c = "alt" -> [p EXCEPT !.ph = "failed"]
    [] p.ph = "before" -> IF c = "in" THEN [ph |-> "in", start |-> k, end |-> 0] ELSE p
    [] OTHER -> CASE c = "in" -> p
                  [] c = "err" -> [p EXCEPT !.ph = "done", !.end = k - 1]
                  [] OTHER -> [p EXCEPT !.ph = "done", !.end = k]
(* the range ends after step k *)
Close(p, k) == IF p.ph = "in" THEN [p EXCEPT !.ph = "done", !.end = k] ELSE p
Running(p) == p.ph \in {"before", "in"}
AllAdvance(ps, cs, k) == {Advance(p, c, k) : p \in ps, c \in cs}
=============================================================================
