----------------------------- MODULE ListTrace ------------------------------
(* Recorded runs of sat_skymap on catalogues of several element sets, judged against the walk
   of module SkyMap.  The facts about one element set (can its position be computed, does it
   satisfy what is asked for, which numbers are reported for it) are what sat_skymap itself says
   when that set alone is in the catalogue (o.facts), so that the walk is judged exactly; the
   facts themselves are judged by module SkyTrace.
     o.texts   the pieces of lines read (fgets)
     o.files   catalogue files present: [path, lines: numbers of texts, pairs: number of the fact
               of each line with the one before it, or 0]
     o.lists   list files present: [path, rows]
     o.mode    "same": facts measured with the same filters; "plain": without -a and -V, which the
               specification applies;  "none": no catalogue walk is judged *)
EXTENDS Runs, Verdict
LOCAL INSTANCE SequencesExt

Batch == 400

(* ------------------------------------------------------------------- facts *)
Sharp == D("0.0051")
AltFact(p, alt) ==            \* printed to 0.01 km
  IF p.altMin (-) Sharp \preceq alt /\ alt \preceq p.altMax (+) Sharp
  THEN IF alt \prec p.altMin (+) Sharp \/ p.altMax (-) Sharp \prec alt THEN "unsure" ELSE "pass" ELSE "reject"
FactOf(o, p, f) ==
  IF o.mode = "same" \/ f.res # "pass" THEN f.res
  ELSE IF p.altReq /\ AltFact(p, R(f.geo[3])) # "pass" THEN AltFact(p, R(f.geo[3]))
  ELSE IF p.lit /\ ~f.lit THEN "reject" ELSE "pass"
Entry(o, p, m, l2, k) ==
  IF k = 0 THEN [elements |-> FALSE, text |-> <<>>, number |-> 0, desig |-> <<>>, res |-> "reject", lit |-> FALSE, rec |-> 0]
  ELSE LET l1 == m.line1
           r == FactOf(o, p, o.facts[k])
           n == T!CatNumber(l1)
           next == Len(m.out) + 1
       IN  [elements |-> T!PairClass(l1, l2) = "elements", text |-> Cols(l1, 2, 5), number |-> n, desig |-> T!DesigText(l1),
            res |-> IF r # "unsure" THEN r ELSE IF next <= Len(o.sats) /\ o.sats[next].norad = ToString(n) THEN "pass" ELSE "reject",
            lit |-> o.facts[k].lit, rec |-> k]

(* -------------------------------------------------------------- the verdict *)
What(o, p) == IF o.mode = "plain" THEN "C04" ELSE IF Single(p) \/ p.byName THEN "C02" ELSE "C03"
Identity(s) == <<s.norad, s.name, s.desig>>
ListingBad(o, p, m) ==
  LET want == [k \in 1..Len(m.out) |-> <<ToString(m.out[k].number), m.out[k].name, m.out[k].desig>>]
      got == [k \in 1..Len(o.sats) |-> Identity(o.sats[k])]
      why == IF Len(got) < Len(want) THEN "satellite missing" ELSE IF Len(got) > Len(want) THEN "satellite too many" ELSE "other satellites, order, name or designator"
      data(k) == LET f == o.facts[m.out[k].rec] IN o.sats[k].data = f.data /\ (GeoShown(p) => o.sats[k].geo = f.geo) /\ (~GeoShown(p) => o.sats[k].geo = <<>>)
  IN  IF p.info THEN B("C03", o.sats = <<>>, "satellite list with -I")
      ELSE IF got # want THEN (IF m.stop \in {"nofile", "nofirst", "decode"} THEN {<<"C05", "satellites found before the failure">>, <<What(o, p), why>>} ELSE {<<What(o, p), why>>})
      ELSE IF \A k \in 1..Len(want) : data(k) THEN {} ELSE UNION {{<<c, "record differs from that of the satellite alone">>} : c \in IF o.mode = "plain" THEN {"C04"} ELSE {"C14"}}
CountBad(o, p, m) ==
  LET n == IF o.kind = "json" /\ ~p.info THEN Len(o.sats) ELSE Len(m.out)
      plit == IF p.info THEN m.lit ELSE Cardinality({k \in 1..Len(o.sats) : Len(o.sats[k].data) >= 9 /\ o.sats[k].data[9] = "1"})
  IN  UNION {B(c, IsInt(o, "n_sats_found", n) /\ (IsInt(o, "n_sats", n) \/ (Failed(m.stop) /\ IsInt(o, "n_sats", 0))), "n_sats_found, n_sats") : c \in {"C03"} \cup (IF o.mode = "plain" THEN {"C04"} ELSE IF OneOnly(p) THEN {"C02"} ELSE {})}
      \cup UNION {B(c, IsInt(o, "n_sunlit_sats", plit), "n_sunlit_sats") : c \in {"C03"} \cup (IF o.mode = "plain" THEN {"C04"} ELSE {})}
EndBad(o, d, m) ==
  LET p == d.p IN
  CASE Failed(m.stop) ->
         B("C05", ~Status0(o), "failure with status 0")
         \cup (IF m.stop = "nofile" THEN B("C06", HasPart(Str(o, "errmsg"), Paths(o, d)[m.file]), "catalogue file looked for elsewhere") ELSE {})
    [] OTHER ->
         B("C05", Status0(o), "success with a failure status")
         \cup (IF OneOnly(p) /\ m.out = <<>> THEN B("C02", HasPart(Str(o, "errmsg"), Codes("not found")), "satellite not found is not said") ELSE {})
VARIABLES run, step, m, bad
vars == <<run, step, m, bad>>
(* what tells the states of one behaviour apart (a view for long behaviours) *)
Brief == <<run, step, m.file, m.pos, m.stop, bad>>
O == Trace[run]
Init == run \in 1..Len(Trace) /\ step = "begin" /\ m = NoState /\ bad = {}

Judged(b) == bad' = Mine(b) /\ Report(O.id, bad') /\ step' = "end"
Begin ==
  /\ step = "begin" /\ UNCHANGED <<run, m>>
  /\ LET o == O  d == D_(o) IN
     IF o.crash # "" THEN Judged({<<"*", "crash: " \o o.crash>>})
     ELSE LET b0 == DocBad(o) \cup ConsistentBad(o, o.args = <<>>) \cup CommandBad(o) IN
          IF b0 # {} \/ ~d.p.sure THEN Judged(b0)
          ELSE IF d.end # "go" THEN Judged(EarlyBad(o, d))
          ELSE IF o.kind # "json" THEN Judged({<<"C05", "no document">>, <<"C06", "no document">>})
          ELSE IF IsInt(o, "status", -1) THEN Judged({<<"C06", "valid options are refused">>})
          ELSE IF d.list /\ ~ListOf(o, ListPath(d)).open THEN Judged(NoListBad(o, d))
          ELSE LET e == SkymapEcho(o, d) IN
               IF Mine(e) # {} \/ o.mode = "none" THEN Judged(e) ELSE bad' = {} /\ step' = "walk"
Walk2 ==
  /\ step = "walk" /\ UNCHANGED run
  /\ LET o == O  d == D_(o)  p == d.p  ps == Paths(o, d)
         here == FileOf(o, ps[m.file]).f
         at_end == m.file = 0 \/ m.pos = Len(here.lines)
     IN  IF m.stop # "run"
         THEN m' = m /\ Judged(ListingBad(o, p, m) \cup CountBad(o, p, m) \cup EndBad(o, d, m))
         ELSE IF at_end
         THEN /\ bad' = {} /\ step' = "walk"
              /\ IF m.file = Len(ps) THEN m' = [m EXCEPT !.stop = "done"]
                 ELSE LET f == FileOf(o, ps[m.file + 1]) IN
                      m' = OpenNext(m, [open |-> f.open, lines |-> IF f.f.lines = <<>> THEN <<>> ELSE <<o.texts[f.f.lines[1]]>>])
         ELSE /\ bad' = {} /\ step' = "walk"
              /\ LET last == IF m.pos + Batch < Len(here.lines) THEN m.pos + Batch ELSE Len(here.lines)
                 IN  m' = FoldLeft(LAMBDA x, i : IF x.stop # "run" THEN x
                                               ELSE LET l2 == o.texts[here.lines[i]] IN ReadLine(p, x, l2, Entry(o, p, x, l2, here.pairs[i])),
                                   m, [k \in 1..(last - m.pos) |-> m.pos + k])
Next == Begin \/ Walk2
Ok == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
