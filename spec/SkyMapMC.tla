------------------------------ MODULE SkyMapMC ------------------------------
(* All catalogues of up to L element sets in up to two files, all requests: what the walk of
   SkyMap reports is what the properties say, stated without the walk. *)
EXTENDS SkyMap, FiniteSets, TLC, IOUtils
CONSTANT L
LOCAL INSTANCE SequencesExt

X == <<88>>
XY == <<88, 89>>
Z == <<90>>
(* what can be known of an element set: outside the search area, at a rejected altitude, dark *)
Kinds == [text : {<<49>>, <<50>>}, name : {XY, Z}, res : {"fail", "out", "low", "dark", "good"}]
Desig(k) == k.text \o k.name
Requests == [byNum : BOOLEAN, byDesig : BOOLEAN, byName : BOOLEAN, lit : BOOLEAN, alt : BOOLEAN, n : {0, 1, 2}]
(* a request for one satellite or by name does not look at the search area *)
Anywhere(q) == q.byNum \/ q.byDesig \/ q.byName
Passes(q, k) ==
  /\ k.res # "fail"
  /\ ~(q.alt /\ k.res = "low")
  /\ Anywhere(q) \/ k.res # "out"
  /\ ~(q.lit /\ k.res = "dark")
Params(q) == [byNum |-> q.byNum, num |-> 1, byDesig |-> q.byDesig, desig |-> <<49>>, byName |-> q.byName, sname |-> X, n |-> q.n]
NumberOf(t) == IF t = <<49>> THEN 1 ELSE 2
Entry(q, k) == [elements |-> TRUE, text |-> k.text, number |-> NumberOf(k.text), desig |-> Desig(k),
                res |-> IF Passes(q, k) THEN "pass" ELSE "reject", lit |-> k.res # "dark", rec |-> k]
NoEntry == [elements |-> FALSE, text |-> <<>>, number |-> 0, desig |-> <<>>, res |-> "reject", lit |-> FALSE, rec |-> 0]
(* an element set is a name line and two element lines *)
One == <<49, 32>>
Two == <<50, 32>>
Lines(c) == FoldLeft(LAMBDA a, k : a \o <<k.name, One, Two>>, <<>>, c)

VARIABLES q, cat, cut, m
vars == <<q, cat, cut, m>>
Init == /\ q \in Requests /\ cat \in UNION {[1..k -> Kinds] : k \in 0..L} /\ cut \in 0..Len(cat) /\ m = NoState
        /\ (cut = 0 \/ cut = Len(cat) \/ cut = 1)
Files == [f \in 1..2 |-> LET c == IF f = 1 THEN SubSeq(cat, 1, cut) ELSE SubSeq(cat, cut + 1, Len(cat))
                         IN  [open |-> TRUE, lines |-> Lines(c), sets |-> c]]
Next ==
  /\ m.stop = "run"
  /\ UNCHANGED <<q, cat, cut>>
  /\ IF m.file = 0 \/ m.pos = Len(Files[m.file].lines)
     THEN IF m.file = 2 THEN m' = [m EXCEPT !.stop = "done"] ELSE m' = OpenNext(m, Files[m.file + 1])
     ELSE LET f == Files[m.file]
              i == m.pos + 1
          IN  m' = ReadLine(Params(q), m, f.lines[i], IF i % 3 = 0 THEN Entry(q, f.sets[i \div 3]) ELSE NoEntry)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- what the properties say *)
(* an empty file ends the run *)
Reached == IF cut = 0 \/ cut = Len(cat) THEN (IF cut = 0 THEN 0 ELSE Len(cat)) ELSE Len(cat)
Wanted(i) == LET k == cat[i] p == Params(q) IN
  IF p.byNum THEN k.text = <<49>> ELSE IF p.byDesig THEN k.text = <<49>> ELSE IF p.byName THEN k.name = XY ELSE TRUE
FirstOfItsNumber(i) == \A j \in 1..(i - 1) : ~(Wanted(j) /\ cat[j].text = cat[i].text)
Qualifies(i) == i <= Reached /\ Wanted(i) /\ FirstOfItsNumber(i) /\ Passes(q, cat[i])
All == SelectSeq([i \in 1..Len(cat) |-> i], Qualifies)
Limit == IF OneOnly(Params(q)) THEN 1 ELSE IF q.n = 0 THEN Len(cat) ELSE q.n
Listing == SubSeq(All, 1, IF Len(All) < Limit THEN Len(All) ELSE Limit)
Ended == m.stop # "run"
RightListing == Ended => [k \in 1..Len(m.out) |-> m.out[k].rec] = [k \in 1..Len(Listing) |-> cat[Listing[k]]]
RightNames == Ended => \A k \in 1..Len(m.out) : m.out[k].name = m.out[k].rec.name
RightCount == m.lit = Cardinality({k \in 1..Len(m.out) : m.out[k].rec.res # "dark"})
OncePerNumber == \A i, j \in 1..Len(m.out) : i # j => m.out[i].number # m.out[j].number
NeverAnother == OneOnly(Params(q)) => Len(m.out) <= 1 /\ \A k \in 1..Len(m.out) : m.out[k].number = 1
(* every complete run, or a part of them spread evenly, to be replayed with real element sets *)
Bit(b) == IF b THEN 1 ELSE 0
ResNo(r) == CHOOSE i \in 1..5 : <<"fail", "out", "low", "dark", "good">>[i] = r
Spread == FoldLeft(LAMBDA a, k : (a * 57 + 10 * k.text[1] + 5 * Len(k.name) + ResNo(k.res)) % 30011,
                   (Bit(q.byNum) + 2 * Bit(q.byDesig) + 4 * Bit(q.byName) + 8 * Bit(q.lit) + 16 * Bit(q.alt)) * 9 + 3 * q.n + cut, cat)
Emit == (IOEnv.EMIT # "0" /\ Ended /\ Len(cat) > 0 /\ (Spread + atoi(IOEnv.SEED)) % atoi(IOEnv.EMIT) = 0) =>
  PrintT(<<"VPRUN", <<q.byNum, q.byDesig, q.byName, q.lit, q.alt, q.n>>, [i \in 1..Len(cat) |-> <<cat[i].text[1], Len(cat[i].name), cat[i].res>>], cut>>)
=============================================================================
