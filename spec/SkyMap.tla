------------------------------- MODULE SkyMap -------------------------------
(* The control of sat_skymap: how a catalogue is walked line by line, which element sets are
   considered, what is reported and how a run ends.  What the models and the geometry say
   about one element set is a fact given from outside (modules SkyMapMC, ListTrace, SkyTrace).

   The state of a run:
     file, pos   place in the catalogue (file number, lines read)
     line1, name last line read, last satellite name met
     seen        catalogue numbers (as written) already considered
     out         satellites reported, in order
     lit         how many of them are sunlit
     stop        "run", or how the run ended: "done", "nofile", "nofirst", "decode" *)
EXTENDS Text
CONSTANT Buckets            \* seen is kept in so many parts; what is in it does not depend on it
LOCAL INSTANCE SequencesExt

Bucket(t) == FoldLeft(LAMBDA a, c : (a * 10 + c) % Buckets, 0, t)
Seen(m, t) == t \in m.seen[Bucket(t)]
NoState == [file |-> 0, pos |-> 0, line1 |-> <<>>, name |-> <<>>, seen |-> [b \in 0..(Buckets - 1) |-> {}], out |-> <<>>, lit |-> 0, stop |-> "run"]

IsNameLine(l) == ~(At(l, 0) \in {49, 50} /\ At(l, 1) = 32)
NameOf(l) == TrimEnd(Truncate(CStr(l), 23))

(* entry: [elements: accepted as element set, text: number as written, number, desig,
           res: "pass", "reject" (not computable or outside what is asked for), "abort", lit, rec] *)
Chosen(p, e, name) ==
  IF p.byNum THEN e.number = p.num
  ELSE IF p.byDesig THEN HasPrefix(e.desig, p.desig)
  ELSE IF p.byName THEN HasPrefix(name, p.sname)
  ELSE TRUE
OneOnly(p) == p.byNum \/ p.byDesig

List(p, m, e) ==
  LET o == Append(m.out, [name |-> m.name, number |-> e.number, desig |-> e.desig, rec |-> e.rec])
  IN  [m EXCEPT !.out = o, !.lit = @ + (IF e.lit THEN 1 ELSE 0), !.stop = IF OneOnly(p) \/ Len(o) = p.n THEN "done" ELSE "run"]
Offer(p, m, e) ==
  IF ~e.elements \/ ~Chosen(p, e, m.name) \/ Seen(m, e.text) THEN m
  ELSE LET m1 == [m EXCEPT !.seen[Bucket(e.text)] = @ \cup {e.text}]
       IN  CASE e.res = "reject" -> m1
             [] e.res = "abort" -> [m1 EXCEPT !.stop = "decode"]
             [] e.res = "pass" -> List(p, m1, e)

(* files: [open: it can be opened, lines: what is read from it] *)
OpenNext(m, f) ==
  IF ~f.open THEN [m EXCEPT !.stop = "nofile", !.file = @ + 1]
  ELSE IF f.lines = <<>> THEN [m EXCEPT !.stop = "nofirst", !.file = @ + 1]
  ELSE [m EXCEPT !.file = @ + 1, !.pos = 1, !.line1 = f.lines[1], !.name = NameOf(f.lines[1])]
ReadLine(p, m, l, e) ==
  LET o == Offer(p, m, e)
  IN  IF o.stop # "run" THEN o
      ELSE [o EXCEPT !.pos = @ + 1, !.line1 = l, !.name = IF IsNameLine(l) THEN NameOf(l) ELSE @]

(* how a run that ended so is reported: [status nonzero?, exit code nonzero?, text must be there?] *)
Failed(stop) == stop \in {"nofile", "nofirst", "decode"}
=============================================================================
