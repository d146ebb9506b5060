------------------------------ MODULE Retrieve ------------------------------
(* The local repository of TLE files (scripts/tle_retrieve.sh, scripts/tle_satcount.sh):
   which groups it holds, under which names, what a transfer may change and what is
   derived from the files.  Contents of files are numbers, 0: there is no such file. *)
EXTENDS Text
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets

Main == <<"last-30-days", "stations", "visual", "active", "analyst", "weather", "noaa", "goes", "resource", "sarsat", "dmc", "tdrss",
  "argos", "spire", "geo", "iridium", "iridium-NEXT", "globalstar", "swarm", "amateur", "x-comm", "other-comm", "satnogs", "gorizont",
  "raduga", "molniya", "gnss", "gps-ops", "glo-ops", "galileo", "beidou", "sbas", "nnss", "musson", "science", "geodetic",
  "engineering", "education", "military", "radar", "cubesat", "other">>
Supplement == <<"starlink", "oneweb", "planet", "iridium", "gps", "glonass", "meteosat", "intelsat", "ses", "telesat", "orbcomm", "iss", "cpf">>
Debris == <<"1982-092", "1999-025", "iridium-33-debris", "cosmos-2251-debris">>
Special == <<"gpz", "gpz-plus">>

Key(kind, name) == [kind |-> kind, name |-> name]
Keys == {Key("GROUP", Main[k]) : k \in 1..Len(Main)} \cup {Key("FILE", Supplement[k]) : k \in 1..Len(Supplement)}
        \cup {Key("GROUP", Debris[k]) : k \in 1..Len(Debris)} \cup {Key("SPECIAL", Special[k]) : k \in 1..Len(Special)}
(* the documented name: two supplemental groups are kept under the name of the main list *)
FileName(key) == (IF key = Key("FILE", "gps") THEN "gps-ops" ELSE IF key = Key("FILE", "iridium") THEN "iridium-NEXT" ELSE key.name) \o ".txt"
GroupFiles == {FileName(k) : k \in Keys}

(* ---------------------------------------------------------------- transfers
   t.kind, t.name: what is asked for;  t.code: answer of the server;  t.exit: what the transfer
   program says;  t.whole: everything was received;  t.new: the content the server has *)
Arrived(t) == t.whole /\ t.code = 200
Complete(t) == Arrived(t) /\ t.exit = 0
For(t, f) == FileName(Key(t.kind, t.name)) = f
(* complete and old or complete and new: what file f may hold after the transfers ts *)
Allowed(old, ts, f) == {old} \cup {ts[k].new : k \in {k \in 1..Len(ts) : For(ts[k], f) /\ Arrived(ts[k])}}
(* at the end every complete download is in its place (a transfer that got everything but was
   reported as failed may or may not count) *)
RECURSIVE Final(_, _, _)
Final(old, ts, f) ==
  IF ts = <<>> THEN {old}
  ELSE LET t == ts[Len(ts)]  before == SubSeq(ts, 1, Len(ts) - 1) IN
       IF For(t, f) /\ Complete(t) THEN {t.new}
       ELSE Final(old, before, f) \cup (IF For(t, f) /\ Arrived(t) THEN {t.new} ELSE {})

(* ------------------------------------------------------------- special.txt *)
Observatories == <<"HST", "CXO", "GLAST", "SWIFT", "NUSTAR", "AGILE", "INTEGRAL", "ASTROSAT", "HXMT", "XMM", "WISE", "SDO", "IXPE">>
Matches(line, words) == \E k \in 1..Len(words) : HasPart(line, Codes(words[k]))
RECURSIVE Sets(_, _, _)
Sets(lines, k, words) ==
  IF k > Len(lines) THEN <<>>
  ELSE IF Matches(lines[k], words) THEN SubSeq(lines, k, k + 2) \o Sets(lines, k + 3, words) ELSE Sets(lines, k + 1, words)
NoCR(line) == SelectSeq(line, LAMBDA c : c # 13)
FirstField(line) == LET k == Find(line, 32, 1) IN IF k = 0 THEN line ELSE SubSeq(line, 1, k - 1)
(* elements of one day out of a file of elements for each day, the object under a fixed name *)
RECURSIVE Days(_, _, _, _, _)
Days(lines, k, mjd, word, name) ==
  IF k > Len(lines) THEN <<>>
  ELSE IF HasPart(lines[k], mjd)
  THEN <<lines[k]>> \o [j \in 1..3 |-> IF HasPart(FirstField(lines[k + j]), Codes(word)) THEN Codes(name) ELSE lines[k + j]] \o Days(lines, k + 4, mjd, word, name)
  ELSE Days(lines, k + 1, mjd, word, name)
(* text(f): lines of file f, none when it is not there *)
SpecialLines(text(_), mjd) ==
  LET clean(ls) == [k \in 1..Len(ls) |-> NoCR(ls[k])] IN
  clean(Sets(text("science.txt"), 1, Observatories)) \o clean(Sets(text("stations.txt"), 1, <<"ZARYA">>))
  \o clean(Sets(text("active.txt"), 1, <<"CHEOPS", "TESS">>))
  \o Days(text("gaia_2025.txt"), 1, mjd, "Gaia", "GAIA") \o Days(text("jwt_2025.txt"), 1, mjd, "James", "JAMES WEBB")
  \o Days(text("euclid_2025.txt"), 1, mjd, "Euclid", "EUCLID") \o Days(text("juice_2024.txt"), 1, mjd, "JUICE", "JUICE")

(* ------------------------------------------------------------------ counts *)
Counted == Main \o Special \o SelectSeq(Supplement, LAMBDA g : g \notin {"iridium", "gps", "iss"})
(* sets(g): the catalogue numbers of the element sets in the file of group g, in order; <<>>: empty or missing *)
Numbers(sets(_)) == UNION {{sets(Counted[k])[j] : j \in 1..Len(sets(Counted[k]))} : k \in 1..Len(Counted)}
RECURSIVE SumOf(_, _)
SumOf(sets(_), gs) == IF gs = <<>> THEN 0 ELSE Len(sets(gs[1])) + SumOf(sets, Tail(gs))
WithoutDebris(sets(_)) == Cardinality(Numbers(sets))
WithDebris(sets(_)) == WithoutDebris(sets) + SumOf(sets, Debris)
=============================================================================
