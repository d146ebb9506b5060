---------------------------- MODULE DeepCacheMC -----------------------------
(* What a deep-space element set remembers between calls, in whole minutes: how far the
   resonance integration stands (atime), the times it stepped through since the last restart
   (path), and when the lunisolar periodics were last computed (savt).  All call sequences over
   a set of times chosen around the thresholds (30, 720 minutes, half-way restart) are explored;
   every transition prints the calls that lead to it, and those sequences are replayed in the
   library (C13). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANT None
Big == "BIG" \in DOMAIN IOEnv /\ IOEnv.BIG = "1"
Times == {0, 25, 30, 360, 720, 735, 1470, -10, -700, -1441} \cup (IF Big THEN {1, 29, 31, 719, 721, 2190, 5000, -30, -2190} ELSE {})
StepMax == 720
Reuse == 30
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES atime, path, savt, at, calls
vars == <<atime, path, savt, at, calls>>
RECURSIVE Nodes(_, _)
Nodes(a, t) == IF Abs(t - a) <= StepMax THEN <<t>>
               ELSE LET n == a + (IF t > a THEN StepMax ELSE -StepMax) IN <<n>> \o Nodes(n, t)
Restart(t) == Abs(t) < Abs(t - atime)
Init == atime = 0 /\ path = <<0>> /\ savt = None /\ at = 0 /\ calls = <<>>
Call(t) ==
  /\ path' = IF Restart(t) THEN <<0>> \o Nodes(0, t) ELSE path \o Nodes(atime, t)
  /\ atime' = t
  /\ savt' = IF savt = None \/ Abs(savt - t) >= Reuse THEN t ELSE savt
  /\ at' = t
  /\ calls' = Append(calls, t)
  /\ PrintT(<<"VPCALLS", calls'>>)
Next == \E t \in Times : Call(t)
Spec == Init /\ [][Next]_vars
View == <<atime, savt>>
Bound == Len(calls) <= 6

Reached == calls # <<>> => atime = at /\ path[Len(path)] = at
Anchored == path[1] = 0 /\ \A i \in 2..Len(path) : Abs(path[i] - path[i - 1]) <= StepMax
RecentPeriodics == calls # <<>> => savt # None /\ Abs(savt - at) < Reuse
(* going back over the middle of the way, or to the epoch, is as good as starting again *)
FreshEnough == [][(Abs(at') < Abs(at' - atime)) => path' = <<0>> \o Nodes(0, at')]_vars
EpochExact == at = 0 /\ calls # <<>> /\ (Len(path) > 2) => \A i \in 1..Len(path) : path[i] = 0
=============================================================================
