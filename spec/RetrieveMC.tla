----------------------------- MODULE RetrieveMC -----------------------------
(* The retrieval as the script does it, on three files, with every fault at every place:
   the temporary file is removed, filled piece by piece and moved into place when the
   transfer was reported complete.  The guarantee of module Retrieve holds in every state,
   so also when the script is killed there.
   Guards: what is looked at before the move; with fewer the guarantee is lost
   (RetrieveMCremove.cfg, RetrieveMCexit.cfg, RetrieveMCcode.cfg). *)
EXTENDS Retrieve
CONSTANTS Guards
Todo == <<Key("GROUP", "a"), Key("GROUP", "gps-ops"), Key("FILE", "b"), Key("FILE", "gps")>>
Files == {FileName(Todo[k]) : k \in 1..Len(Todo)}
New(k) == 100 + k
Part(k) == 200 + k
Page(k) == 300 + k
Stale == 400
VARIABLES old, repo, tmp, k, phase, t, ts
vars == <<old, repo, tmp, k, phase, t, ts>>
None == [kind |-> "", name |-> "", code |-> 0, exit |-> 0, whole |-> FALSE, new |-> 0]
Init == /\ old \in [Files -> {0, 1}] /\ repo = old /\ tmp \in {0, Stale} /\ k = 1 /\ phase = "remove" /\ t = None /\ ts = <<>>
Clear == /\ phase = "remove" /\ k <= Len(Todo)
         /\ tmp' = (IF "remove" \in Guards THEN 0 ELSE tmp) /\ phase' = "run" /\ UNCHANGED <<old, repo, k, t, ts>>
Piece == phase = "run" /\ tmp' = Part(k) /\ tmp # Part(k) /\ UNCHANGED <<old, repo, k, phase, t, ts>>
Ends(code, exit, whole, content) ==
  /\ phase = "run" /\ phase' = "judge" /\ tmp' = content
  /\ t' = [kind |-> Todo[k].kind, name |-> Todo[k].name, code |-> code, exit |-> exit, whole |-> whole, new |-> New(k)]
  /\ ts' = Append(ts, t') /\ UNCHANGED <<old, repo, k>>
End == \/ Ends(200, 0, TRUE, New(k))
       \/ Ends(200, 28, TRUE, New(k))                  \* everything came, the connection was not closed in time
       \/ Ends(404, 0, FALSE, Page(k))
       \/ tmp # Part(k) /\ Ends(0, 7, FALSE, tmp)      \* no connection: nothing written
       \/ tmp # Part(k) /\ Ends(204, 0, FALSE, tmp)    \* an answer without content: nothing written
       \/ tmp # Part(k) /\ Ends(200, 0, FALSE, tmp)    \* an empty answer: nothing written
       \/ Ends(200, 18, FALSE, Part(k))                \* cut
       \/ Ends(200, 28, FALSE, Part(k))                \* time-out
Good == ("exit" \in Guards => t.exit = 0) /\ ("code" \in Guards => t.code = 200) /\ tmp # 0
Judge == /\ phase = "judge" /\ phase' = "remove" /\ k' = k + 1
         /\ IF Good THEN repo' = [repo EXCEPT ![FileName(Todo[k])] = tmp] /\ tmp' = 0 ELSE UNCHANGED <<repo, tmp>>
         /\ UNCHANGED <<old, t, ts>>
Next == Clear \/ Piece \/ End \/ Judge
Spec == Init /\ [][Next]_vars

Undamaged == \A f \in Files : repo[f] \in Allowed(old[f], ts, f)
Installed == k > Len(Todo) => \A f \in Files : repo[f] \in Final(old[f], ts, f)
(* the transfers of the other files do not matter *)
Independent == \A f \in Files : LET own == SelectSeq(ts, LAMBDA x : For(x, f)) IN Final(old[f], ts, f) = Final(old[f], own, f) /\ Allowed(old[f], ts, f) = Allowed(old[f], own, f)
LOCAL INSTANCE SequencesExt
=============================================================================
