------------------------------ MODULE WindowMC ------------------------------
(* All sequences of up to L conditions, with all ways of being sure or not of each: the machine
   reports what the property says, and the possible states include the true one. *)
EXTENDS Window, Sequences, FiniteSets
CONSTANT L, Blur
VARIABLES cs, seen, k, p, ps
vars == <<cs, seen, k, p, ps>>
Init == /\ cs \in UNION {[1..n -> Conditions] : n \in 0..L}
        /\ seen \in [1..Len(cs) -> IF Blur THEN {{}, {"in"}, {"out"}, {"err"}, {"dark", "alt"}} ELSE {{}}]
        /\ k = 0 /\ p = Fresh /\ ps = {Fresh}
Next == \/ /\ k < Len(cs) /\ Running(p)
           /\ k' = k + 1 /\ p' = Advance(p, cs[k + 1], k + 1) /\ ps' = AllAdvance(ps, {cs[k + 1]} \cup seen[k + 1], k + 1) /\ UNCHANGED <<cs, seen>>
        \/ /\ k = Len(cs) /\ Running(p)
           /\ p' = Close(p, k) /\ ps' = {Close(x, k) : x \in ps} /\ k' = k + 1 /\ UNCHANGED <<cs, seen>>
Spec == Init /\ [][Next]_vars
Over == k > Len(cs) \/ ~Running(p)
(* as the property puts it *)
Sunlit == {i \in 1..Len(cs) : cs[i] = "in"}
First == CHOOSE i \in Sunlit : \A j \in Sunlit : i <= j
Stops == {i \in 1..Len(cs) : i > First /\ cs[i] # "in"}
Stop == CHOOSE i \in Stops : \A j \in Stops : i <= j
AltAt == {i \in 1..Len(cs) : cs[i] = "alt"}
Last == IF Sunlit = {} \/ Stops = {} THEN Len(cs) ELSE Stop
Fails == \E i \in AltAt : i <= Last
Wanted ==
  IF Fails THEN "failed" ELSE IF Sunlit = {} THEN "before" ELSE "done"
Right == Over =>
  /\ p.ph = Wanted
  /\ Wanted = "done" => p.start = First /\ p.end = (IF Stops = {} THEN Len(cs) ELSE IF cs[Stop] = "err" THEN Stop - 1 ELSE Stop)
  /\ p.ph = "before" => p.start = 0
Included == p \in ps
Sharp == (\A i \in 1..Len(cs) : seen[i] \subseteq {cs[i]}) => ps = {p}
=============================================================================
