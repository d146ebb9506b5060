------------------------------ MODULE OptTrace ------------------------------
(* Two runs whose command lines mean the same (module CliMC) give the same answer: the same
   document but for the echo of the command line. *)
EXTENDS Cli, Verdict
VARIABLES run, done, bad
Same(o) ==
  LET d1 == Decode(o.tool, o.a.args)  d2 == Decode(o.tool, o.b.args)
      ks(x) == SelectSeq(x.keys, LAMBDA k : TRUE)
  IN  IF d1 # d2 THEN {}                             \* nothing is said of these
      ELSE IF o.a.crash # "" \/ o.b.crash # "" THEN {<<"*", "crash: " \o o.a.crash \o o.b.crash>>}
      ELSE IF o.a.kind # o.b.kind THEN {<<"C06", "a command line that means the same gives usage text or no document">>}
      ELSE IF o.a.kind # "json" THEN {}
      ELSE (IF ks(o.a) = ks(o.b) THEN {} ELSE {<<"C06", "a command line that means the same gives other members">>})
           \cup (IF o.a.rc = o.b.rc THEN {} ELSE {<<"C06", "a command line that means the same gives another exit code">>})
           \cup (IF o.a.sats = o.b.sats THEN {} ELSE {<<"C06", "a command line that means the same gives other satellites">>})
           \cup {<<"C06", "a command line that means the same gives another " \o k>> : k \in {k \in (DOMAIN o.a.leaf \cap DOMAIN o.b.leaf) \ {"run_command"} : o.a.leaf[k] # o.b.leaf[k]}}
Init == run \in 1..Len(Trace) /\ done = FALSE /\ bad = {}
Next == ~done /\ done' = TRUE /\ run' = run /\ bad' = Mine(Same(Trace[run])) /\ Report(Trace[run].id, bad')
Ok == bad = {}
Spec == Init /\ [][Next]_<<run, done, bad>>
=============================================================================
