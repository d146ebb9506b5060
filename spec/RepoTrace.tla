----------------------------- MODULE RepoTrace ------------------------------
(* Recorded runs of tle_retrieve.sh and tle_satcount.sh, judged against module Retrieve.
     o.kind "retrieve":
       o.before  files of the directory: [name, content]
       o.ev      what the transfers saw, in order: [e: "S" begins, "M" in the middle, "E" ended,
                 kind, name, code, exit, whole, new, chg: files changed since the event before]
       o.after   files changed since the last event
       o.outside names changed outside the directory, log and temporary files left out
       o.texts   lines of contents: [id, lines]
     o.kind "count":
       o.groups  group files present: [name, nums: catalogue number of each element set]
       o.log, o.deb  entries of the two logs: [name, n]
       o.ids     catalogue numbers listed;  o.php entries of the array: [key, value], o.shape: its other lines *)
EXTENDS Retrieve, Verdict
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
VARIABLES run, step, cur, ts, bad
vars == <<run, step, cur, ts, bad>>
O == Trace[run]
Elems(s) == {s[k] : k \in 1..Len(s)}

(* --------------------------------------------------------------- retrieval *)
Old(o, f) == IF \E k \in 1..Len(o.before) : o.before[k][1] = f THEN o.before[CHOOSE k \in 1..Len(o.before) : o.before[k][1] = f][2] ELSE 0
Derived == {"special.txt", "cur_norad_ids.lis", "cur_norad_ids.lis_tmp", "cur_tlesat_count.php"}
Temporary == {"tle.tmp"}
(* files that belong to the user or to the repository *)
Kept(o) == (Elems([k \in 1..Len(o.before) |-> o.before[k][1]]) \cup GroupFiles) \ (Derived \cup Temporary)
Names(o) == Kept(o) \cup {"special.txt"}
Apply(f, chg) == [n \in DOMAIN f |-> IF \E k \in 1..Len(chg) : chg[k][1] = n THEN chg[CHOOSE k \in 1..Len(chg) : chg[k][1] = n][2] ELSE f[n]]
Moved(o, now, done) ==
  LET why(f) == IF f \in GroupFiles
                THEN IF now[f] = 0 THEN "file lost: " \o f ELSE IF Old(o, f) # 0 THEN "good file damaged: " \o f ELSE "file that is no complete download: " \o f
                ELSE "changed: " \o f
  IN  {<<"C19", why(f)>> : f \in {f \in Kept(o) : now[f] \notin Allowed(Old(o, f), done, f)}}
      \cup {<<"C19", "special.txt gone during the transfers">> : x \in {x \in {1} : now["special.txt"] # Old(o, "special.txt")}}
TextOf(o, now, f) == IF f \in DOMAIN now /\ now[f] # 0 /\ \E k \in 1..Len(o.texts) : o.texts[k].id = now[f]
                     THEN o.texts[CHOOSE k \in 1..Len(o.texts) : o.texts[k].id = now[f]].lines ELSE <<>>
AtEnd(o, now, done) ==
  LET asked == {Key(done[k].kind, done[k].name) : k \in 1..Len(done)}
      lost(f) == IF Final(Old(o, f), done, f) = {Old(o, f)} THEN "file changed without a complete download: " ELSE "complete download not in place: "
      text(f) == TextOf(o, now, f)
  IN  {<<"C19", "not asked for: " \o k.kind \o " " \o k.name>> : k \in Keys \ asked}
      \cup {<<"C19", lost(f) \o f>> : f \in {f \in GroupFiles : now[f] \notin Final(Old(o, f), done, f)}}
      \cup {<<"C19", "changed: " \o f>> : f \in {f \in Kept(o) \ GroupFiles : now[f] # Old(o, f)}}
      \cup (IF o.special /\ ~\E k \in 1..Len(o.mjds) : text("special.txt") = SpecialLines(text, o.mjds[k])
            THEN {<<"C19", "special.txt is not made of the present files">>} ELSE {})
Outside(o) == {<<"C19", "changed outside the directory: " \o o.outside[k]>> : k \in 1..Len(o.outside)}
Absent(o) == (IF o.rc = 0 THEN {<<"C19", "missing directory, and no failure">>} ELSE {})
             \cup (IF o.ev # <<>> THEN {<<"C19", "transfers without a directory">>} ELSE {}) \cup Outside(o)

(* ------------------------------------------------------------------ counts *)
SetsIn(o, g) == IF \E k \in 1..Len(o.groups) : o.groups[k].name = g THEN o.groups[CHOOSE k \in 1..Len(o.groups) : o.groups[k].name = g].nums ELSE <<>>
Present(o, g) == \E k \in 1..Len(o.groups) : o.groups[k].name = g
(* entries: every present file with its number of sets, others not at all or with none *)
Entries(o, es, groups, what) ==
  LET of(g) == SelectSeq(es, LAMBDA e : e[1] = g)
      right(g) == LET e == of(g)  n == ToString(Len(SetsIn(o, g))) IN
                  IF Present(o, g) THEN Len(e) = 1 /\ e[1][2] = n ELSE e = <<>> \/ (Len(e) = 1 /\ e[1][2] = "0")
  IN  {<<"C20", what \o ": count of " \o g>> : g \in {g \in Elems(groups) : ~right(g)}}
      \cup {<<"C20", what \o ": entry that is no group: " \o es[k][1]>> : k \in {k \in 1..Len(es) : es[k][1] \notin Elems(groups)}}
Totals == {"@ALL_merged_nodeb", "@ALL_merged"}
Counts(o) ==
  LET sets(g) == SetsIn(o, g)
      per == SelectSeq(o.php, LAMBDA e : e[1] \notin Totals)
      total(k) == [j \in 1..Len(SelectSeq(o.php, LAMBDA e : e[1] = k)) |-> SelectSeq(o.php, LAMBDA e : e[1] = k)[j][2]]
  IN  Entries(o, o.log, Counted, "log") \cup Entries(o, o.deb, Debris, "debris log") \cup Entries(o, per, Counted \o Debris, "array")
      \cup (IF Elems(o.ids) # Numbers(sets) THEN {<<"C20", IF Numbers(sets) \subseteq Elems(o.ids) THEN "numbers listed that are in no file" ELSE "numbers missing in the list">>} ELSE {})
      \cup (IF Cardinality(Elems(o.ids)) # Len(o.ids) THEN {<<"C20", "number listed twice">>} ELSE {})
      \cup (IF total("@ALL_merged_nodeb") # <<ToString(WithoutDebris(sets))>> THEN {<<"C20", "total without debris">>} ELSE {})
      \cup (IF total("@ALL_merged") # <<ToString(WithDebris(sets))>> THEN {<<"C20", "total with debris">>} ELSE {})
      \cup (IF o.shape # <<"<?php", "$my_satcount_arr = array(", ");", "?>">> THEN {<<"C20", "the array file is not one PHP array">>} ELSE {})

(* ----------------------------------------------------------------- the runs *)
Init == run \in 1..Len(Trace) /\ step = 0 /\ ts = <<>> /\ bad = {}
        /\ cur = (IF Trace[run].kind = "retrieve" THEN [f \in Names(Trace[run]) |-> Old(Trace[run], f)] ELSE [f \in {} |-> 0])
Stop(b) == bad' = Mine(b) /\ Report(O.id, bad') /\ step' = -1
Next ==
  /\ step # -1 /\ UNCHANGED run
  /\ LET o == O IN
     IF o.crash # "" THEN Stop({<<"*", "crash: " \o o.crash>>}) /\ UNCHANGED <<cur, ts>>
     ELSE IF o.kind = "count" THEN Stop(Counts(o)) /\ UNCHANGED <<cur, ts>>
     ELSE IF o.absent THEN Stop(Absent(o)) /\ UNCHANGED <<cur, ts>>
     ELSE IF step = Len(o.ev) THEN LET now == Apply(cur, o.after) IN Stop(AtEnd(o, now, ts) \cup Outside(o)) /\ UNCHANGED <<cur, ts>>
     ELSE LET e == o.ev[step + 1]
              now == Apply(cur, e.chg)
              done == IF e.e = "E" THEN Append(ts, e) ELSE ts
              b == Moved(o, now, done) \cup (IF e.e = "H" THEN {<<"C19", "transfer without a time limit">>} ELSE {})
          IN  /\ cur' = now /\ ts' = done
              /\ IF Mine(b) # {} THEN Stop(b) ELSE bad' = {} /\ step' = step + 1
Ok == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
