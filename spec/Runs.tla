-------------------------------- MODULE Runs --------------------------------
(* Which files a run opens, and how runs of both tools end that do not get to the catalogue.
     o.texts   the pieces of lines read (fgets)
     o.files   catalogue files present: [path, lines: numbers of texts, pairs]
     o.lists   list files present: [path, rows] *)
EXTENDS Echo, SkyMap
LOCAL INSTANCE SequencesExt

D_(o) == Decode(o.tool, o.args)
(* the names a path goes through, without "." and doubled slashes; a leading slash counts as a name *)
RECURSIVE Steps(_, _)
Steps(t, acc) ==
  LET k == Find(t, 47, 1)
      one == IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
      rest == IF k = 0 THEN <<>> ELSE SubSeq(t, k + 1, Len(t))
      acc1 == IF one = <<>> \/ one = <<46>> THEN acc ELSE Append(acc, one)
  IN  IF k = 0 THEN acc1 ELSE Steps(rest, acc1)
Norm(path) == IF At(path, 0) = 47 THEN <<(<<47>>)>> \o Steps(path, <<>>) ELSE Steps(path, <<>>)
IsIn(path, q) == path = q \/ Norm(path) = Norm(q)
(* a directory can be opened, and nothing read from it *)
IsDir(o, path) == LET n == Norm(path) IN n = <<>> \/ \E q \in {o.files[k].path : k \in 1..Len(o.files)} \cup {o.lists[k].path : k \in 1..Len(o.lists)} :
                     LET m == Norm(q) IN Len(n) < Len(m) /\ SubSeq(m, 1, Len(n)) = n
FileOf(o, path) == IF \E k \in 1..Len(o.files) : IsIn(o.files[k].path, path)
                   THEN [open |-> TRUE, f |-> o.files[CHOOSE k \in 1..Len(o.files) : IsIn(o.files[k].path, path)]]
                   ELSE [open |-> IsDir(o, path), f |-> [path |-> path, lines |-> <<>>, pairs |-> <<>>]]
ListOf(o, path) == IF \E k \in 1..Len(o.lists) : IsIn(o.lists[k].path, path)
                   THEN [open |-> TRUE, rows |-> o.lists[CHOOSE k \in 1..Len(o.lists) : IsIn(o.lists[k].path, path)].rows]
                   ELSE [open |-> IsDir(o, path), rows |-> <<>>]
(* the catalogue files a run opens, in order *)
Paths(o, d) == IF d.list THEN LET e == ListEntries(ListOf(o, ListPath(d)).rows) IN [k \in 1..Len(e) |-> EntryPath(d, e[k])]
               ELSE <<FilePath(d)>>

(* -------------------------------------------------------------- runs that fail *)
Nothing(o) == B("C05", o.sats = <<>> /\ IsInt(o, "n_sats_found", 0), "satellites in a failed run")
(* a run that ends before the catalogue is read *)
EarlyBad(o, d) ==
  CASE d.end = "usage" -> UNION {B(c, o.kind = "usage", "usage text expected") : c \in {"C05", "C06"}}
    [] d.end = "none" -> B("C05", StatusOk(o) /\ ~Status0(o) /\ Str(o, "errmsg") # <<>>, "no arguments: status") \cup Nothing(o)
    [] OTHER -> (IF ~StatusOk(o) THEN {<<"C06", "option not refused">>, <<"C05", "option not refused">>}
                 ELSE B("C06", IsInt(o, "status", -1) \/ IsInt(o, "status", -2), "option not refused with status -1 or -2") \cup B("C05", ~Status0(o), "failure with status 0"))
                \cup Nothing(o)
NoListBad(o, d) == B("C05", StatusOk(o) /\ ~Status0(o), "missing list: status") \cup Nothing(o)
                   \cup B("C06", StatusOk(o) /\ HasPart(Str(o, "errmsg"), ListPath(d)), "list looked for elsewhere")

=============================================================================
