-------------------------------- MODULE Cli --------------------------------
(* Command lines of sat_skymap and sat_visibility.  An argument is a sequence of bytes.
   Decode(tool, args) walks the arguments from left to right and gives
     end:  "none" (no arguments), "usage", "missing", "unknown" (option), "range" (value), "go"
     p:    the values of all parameters (p.sure FALSE: a text of which nothing is said here,
           like a number with trailing exponent letters or beyond 32 bits, was given)
     cat:  the catalogue argument. *)
EXTENDS Calendar
LOCAL INSTANCE SequencesExt

(* ------------------------------------------------------------- numbers in texts *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF IsDigit(At(t, i)) THEN DigitsEnd(t, i + 1) ELSE i
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Word(t, i, w) == \A k \in 1..Len(w) : Lower(At(t, i + k - 1)) = w[k]
(* a real number at column i: [ok, pos: column after it, v, odd] *)
ScanReal(t, i) ==
  LET j == SkipSpace(t, i)
      sg == At(t, j) \in {43, 45}
      a == j + (IF sg THEN 1 ELSE 0)
      ng == At(t, j) = 45
      b == DigitsEnd(t, a)
      pt == At(t, b) = 46
      c == IF pt THEN DigitsEnd(t, b + 1) ELSE b
      nd == (b - a) + (IF pt THEN c - b - 1 ELSE 0)
      hasE == At(t, c) \in {69, 101}
      es == IF At(t, c + 1) \in {43, 45} THEN 1 ELSE 0
      d == IF hasE THEN DigitsEnd(t, c + 1 + es) ELSE c
      fullE == hasE /\ d > c + 1 + es
      e == IF fullE THEN d ELSE c
      V(x) == IF ng THEN Neg(x) ELSE x
  IN  CASE Word(t, a, <<110, 97, 110>>) -> [ok |-> TRUE, pos |-> a + 3, v |-> D("nan"), odd |-> At(t, a + 3) \notin {0, 44}]
        [] Word(t, a, <<105, 110, 102>>) -> [ok |-> TRUE, pos |-> a + 3, v |-> V(D("inf")), odd |-> At(t, a + 3) \notin {0, 44}]
        [] nd = 0 -> [ok |-> FALSE, pos |-> a, v |-> D("0"), odd |-> At(t, j) = 46 \/ (sg /\ a < Len(t))]
        [] OTHER -> [ok |-> TRUE, pos |-> e, v |-> V(OfText(Cols(t, a, e - a))),
                     odd |-> (hasE /\ ~fullE) \/ (b = a + 1 /\ At(t, a) = 48 /\ Lower(At(t, b)) = 120) \/ (fullE /\ d - c > 4)]
(* what atof makes of a text *)
RealOf(t) == LET r == ScanReal(t, 0) IN IF r.ok THEN r ELSE [r EXCEPT !.v = D("0")]
(* numbers separated by commas: the values that could be read *)
RECURSIVE Reals(_, _, _)
Reals(t, i, n) ==
  IF n = 0 THEN [v |-> <<>>, odd |-> FALSE]
  ELSE LET r == ScanReal(t, i) IN
       IF ~r.ok THEN [v |-> <<>>, odd |-> r.odd]
       ELSE IF n > 1 /\ At(t, r.pos) = 44
       THEN LET q == Reals(t, r.pos + 1, n - 1) IN [v |-> <<r.v>> \o q.v, odd |-> r.odd \/ q.odd]
       ELSE [v |-> <<r.v>>, odd |-> r.odd]
(* an integer text, value only when of at most nine digits *)
WholeOf(t) ==
  LET j == SkipSpace(t, 0)
      sg == At(t, j) \in {43, 45}
      a == j + (IF sg THEN 1 ELSE 0)
      b == DigitsEnd(t, a)
  IN  [ok |-> b > a, odd |-> b - a > 9, v |-> IF b - a > 9 \/ b = a THEN 0 ELSE (IF At(t, j) = 45 THEN -1 ELSE 1) * DigitsVal(Cols(t, a, b - a))]

RECURSIVE Last0(_, _, _)
Last0(t, a, b) == IF a < b /\ At(t, a) = 48 THEN Last0(t, a + 1, b) ELSE a
(* a catalogue number: any number of digits, leading zeros count for nothing, and what has more
   than nine digits is the number of no satellite *)
NoSatellite == 999999999
NumberOf(t) ==
  LET j == SkipSpace(t, 0)
      a == j + (IF At(t, j) \in {43, 45} THEN 1 ELSE 0)
      b == DigitsEnd(t, a)
      z == Last0(t, a, b)
      v == IF b - z > 9 THEN NoSatellite ELSE DigitsVal(Cols(t, z, b - z))
  IN  IF At(t, j) = 45 THEN 0 - v ELSE v

(* ----------------------------------------------------------------- parameters *)
Skymap == "sat_skymap"
Switches(tool) == IF tool = Skymap THEN Codes("hEGHITV") ELSE Codes("hNT")
Valued(tool) == IF tool = Skymap THEN Codes("adDijlnprsSt") ELSE Codes("adDijlrst")
In(c, s) == \E k \in 1..Len(s) : s[k] = c
Ch(s) == Codes(s)[1]

Defaults(tool) ==
  [lat |-> D("0"), lon |-> D("0"), ht |-> IF tool = Skymap THEN D("2400") ELSE D("0"),
   mjd |-> IF tool = Skymap THEN <<D("58861.5")>> ELSE <<D("0"), D("0")>>,
   date |-> IF tool = Skymap THEN <<Codes("2020-01-13T12:00:00")>> ELSE <<<<>>, <<>>>>,
   dateOf |-> FALSE,                       \* the date is that of the MJD given
   ra |-> D("0"), dec |-> D("0"), radius |-> IF tool = Skymap THEN D("20") ELSE D("90"),
   dt |-> IF tool = Skymap THEN 1 ELSE 3, n |-> 1000,
   hav |-> FALSE, info |-> FALSE, lit |-> FALSE, night |-> FALSE,
   byNum |-> FALSE, num |-> 0, byDesig |-> FALSE, desig |-> <<>>, byName |-> FALSE, sname |-> <<>>,
   geo |-> FALSE, geoRef |-> FALSE, altReq |-> FALSE, altMin |-> D("0"), altMax |-> D("1e32"),
   dir |-> <<46>>, dflt |-> FALSE, region |-> FALSE, site |-> FALSE, dated |-> FALSE, sure |-> TRUE]

Unsure(p, odd) == IF odd THEN [p EXCEPT !.sure = FALSE] ELSE p
Nth(q, k, old) == IF Len(q) >= k THEN q[k] ELSE old
Outside(x, lo, hi) == x \prec lo \/ hi \prec x
End(p, e) == [end |-> e, p |-> p]
Go(p) == End(p, "go")
MaxInt == D("2147483647")

(* the text before and after the first comma: date and date *)
DateTexts(t) ==
  LET c == Find(t, 44, 1)
      a == IF c = 0 THEN t ELSE SubSeq(t, 1, c - 1)
  IN  <<Truncate(a, 23), IF c = 0 THEN <<>> ELSE Truncate(SubSeq(t, c + 1, Len(t)), 23)>>
DateMjd(t) == LET r == DateOf(t) IN [v |-> IF r.real THEN MjdOfDate(r) ELSE D("0"), odd |-> r.date /\ ~r.real]

Apply(tool, p, c, v) ==
  CASE c = Ch("a") ->
         LET q == Reals(v, 0, 2)  x == Nth(q.v, 1, p.altMin)  y == Nth(q.v, 2, p.altMax)
         IN  Go(Unsure([p EXCEPT !.altMin = IF y \prec x THEN y ELSE x, !.altMax = IF y \prec x THEN x ELSE y, !.altReq = TRUE, !.geo = (tool = Skymap)], q.odd))
    [] c = Ch("d") ->
         IF tool = Skymap
         THEN LET m == DateMjd(v) IN Go(Unsure([p EXCEPT !.date = <<Truncate(v, 23)>>, !.mjd = <<m.v>>, !.dateOf = FALSE, !.dated = TRUE], m.odd))
         ELSE IF ~In(45, v) THEN End(p, "usage")
         ELSE LET d == DateTexts(v) a == DateMjd(d[1]) b == DateMjd(d[2])
                  odd == a.odd \/ b.odd \/ d[1] = <<>> \/ (\E k \in 1..Len(v) : IsSpace(v[k])) \/ (d[2] = <<>>) \/ Len(d[1]) > 22 \/ Len(d[2]) > 22
              IN  Go(Unsure([p EXCEPT !.date = d, !.mjd = <<a.v, b.v>>, !.dateOf = FALSE, !.dated = TRUE], odd))
    [] c = Ch("D") -> Go([p EXCEPT !.dir = v, !.dflt = FALSE])
    [] c = Ch("i") -> Go([p EXCEPT !.byDesig = TRUE, !.desig = v, !.altReq = FALSE, !.region = FALSE])
    [] c = Ch("j") ->
         IF tool = Skymap
         THEN IF p.dated THEN Go(p)
              ELSE LET r == RealOf(v) IN
                   IF ~IsFinite(r.v) \/ ~Supported(r.v) THEN End(Unsure(p, r.odd), "range")
                   ELSE Go(Unsure([p EXCEPT !.mjd = <<r.v>>, !.dateOf = TRUE], r.odd))
         ELSE IF In(45, v) THEN End(p, "usage")
         ELSE IF p.dated THEN Go(p)
         ELSE LET q == Reals(v, 0, 2)  m == <<Nth(q.v, 1, p.mjd[1]), Nth(q.v, 2, p.mjd[2])>> IN
              IF \E k \in 1..2 : ~IsFinite(m[k]) \/ ~Supported(m[k]) THEN End(Unsure(p, q.odd), "range")
              ELSE Go(Unsure([p EXCEPT !.mjd = m, !.dateOf = TRUE], q.odd))
    [] c = Ch("l") ->
         LET q == Reals(v, 0, 3)  lat == Nth(q.v, 1, p.lat)  lon0 == Nth(q.v, 2, p.lon)
             lon == IF lon0 \prec D("0") THEN lon0 (+) D("360") ELSE lon0
             p1 == Unsure([p EXCEPT !.lat = lat, !.lon = lon, !.ht = Nth(q.v, 3, p.ht), !.site = TRUE], q.odd)
         IN  IF Outside(lat, D("-90"), D("90")) THEN End(p1, "range") ELSE Go(p1)
    [] c = Ch("n") -> LET w == WholeOf(v) IN Go(Unsure(IF w.ok THEN [p EXCEPT !.n = w.v] ELSE p, w.odd))
    [] c = Ch("p") ->
         LET q == Reals(v, 0, 2)  ra == Nth(q.v, 1, p.ra)  dec == Nth(q.v, 2, p.dec)
             p1 == Unsure([p EXCEPT !.ra = ra, !.dec = dec, !.region = TRUE], q.odd)
         IN  IF Outside(ra, D("0"), D("360")) \/ Outside(dec, D("-90"), D("90")) THEN End(p1, "range") ELSE Go(p1)
    [] c = Ch("r") -> LET r == RealOf(v) IN Go(Unsure([p EXCEPT !.radius = r.v], r.odd))
    [] c = Ch("s") -> Go([p EXCEPT !.byNum = TRUE, !.num = NumberOf(v), !.altReq = FALSE, !.region = FALSE])
    [] c = Ch("S") -> Go([p EXCEPT !.byName = TRUE, !.sname = v])
    [] c = Ch("t") ->
         LET r == RealOf(v)
             odd == r.odd \/ ~IsFinite(r.v) \/ MaxInt \prec Abs(r.v)
             dt == IF odd THEN 0 ELSE Trunc(r.v)
         IN  IF tool # Skymap /\ (odd \/ dt < 1) THEN End(Unsure(p, odd), "range")
             ELSE Go(Unsure([p EXCEPT !.dt = dt], odd))

Switch(tool, p, c) ==
  CASE c = Ch("h") -> End(p, "usage")
    [] c = Ch("E") -> Go([p EXCEPT !.geo = TRUE, !.geoRef = TRUE])
    [] c = Ch("G") -> Go([p EXCEPT !.geo = TRUE])
    [] c = Ch("H") -> Go([p EXCEPT !.hav = TRUE])
    [] c = Ch("I") -> Go([p EXCEPT !.info = TRUE])
    [] c = Ch("T") -> Go([p EXCEPT !.dflt = TRUE])
    [] c = Ch("V") -> Go([p EXCEPT !.lit = TRUE])
    [] c = Ch("N") -> Go([p EXCEPT !.night = TRUE])

RECURSIVE Walk(_, _, _, _)
Walk(tool, args, i, p) ==
  IF i > Len(args) THEN Go(p)
  ELSE LET a == args[i] c == At(a, 1) IN
       IF At(a, 0) # 45 THEN Walk(tool, args, i + 1, p)
       ELSE IF c # 0 /\ In(c, Switches(tool))
       THEN IF Len(a) > 2 THEN End(p, "unknown")
            ELSE LET r == Switch(tool, p, c) IN IF r.end = "go" THEN Walk(tool, args, i + 1, r.p) ELSE r
       ELSE IF c # 0 /\ In(c, Valued(tool))
       THEN IF Len(a) = 2 /\ i = Len(args) THEN End(p, "missing")
            ELSE LET sep == Len(a) = 2
                     v == IF sep THEN args[i + 1] ELSE SubSeq(a, 3, Len(a))
                     r == Apply(tool, p, c, v)
                 IN  IF r.end = "go" THEN Walk(tool, args, i + (IF sep THEN 2 ELSE 1), r.p) ELSE r
       ELSE End(p, "unknown")

(* values that must be finite numbers *)
AllFinite(tool, p) ==
  /\ \A x \in {p.lat, p.lon, p.ht, p.radius} \cup (IF tool = Skymap THEN {p.ra, p.dec} ELSE {}) : IsFinite(x)
  /\ ~IsNaN(p.altMin) /\ ~IsNaN(p.altMax)

DefaultDir == Codes("/usr/local/TLErepo")
CatalogueArg(args) == IF At(args[1], 0) = 45 THEN args[Len(args)] ELSE args[1]
Decode(tool, args) ==
  IF args = <<>> THEN [end |-> "none", p |-> Defaults(tool), cat |-> <<>>, list |-> FALSE, dir |-> <<>>]
  ELSE LET w == Walk(tool, args, 1, Defaults(tool))
           e == IF w.end # "go" THEN w.end
                ELSE IF ~AllFinite(tool, w.p) THEN "range"
                ELSE IF ~w.p.site THEN "usage" ELSE "go"
           cat == CatalogueArg(args)
           list == At(cat, 0) = 64
       IN  [end |-> e, p |-> w.p, cat |-> IF list THEN Tail(cat) ELSE cat, list |-> list,
            dir |-> IF w.p.dflt THEN DefaultDir ELSE w.p.dir]

Slash == <<47>>
(* where a file of the catalogue is looked for *)
ListPath(d) == d.dir \o Slash \o d.cat
FilePath(d) == IF In(47, d.cat) THEN d.cat ELSE d.dir \o Slash \o d.cat
EntryPath(d, e) == d.dir \o Slash \o e
(* files named by the rows of a list *)
RowText(r) == LET n == CStr(r)
                  F[k \in 0..Len(n)] == IF k = 0 THEN <<>> ELSE IF n[k] < 32 THEN F[k - 1] ELSE SubSeq(n, 1, k)
              IN  F[Len(n)]
ListEntries(rows) == SelectSeq([k \in 1..Len(rows) |-> IF At(rows[k], 0) = 35 THEN <<>> ELSE RowText(rows[k])], LAMBDA r : r # <<>>)

(* sat_skymap: a single satellite is asked for *)
Single(p) == p.byNum \/ p.byDesig
GeoShown(p) == p.geo \/ Single(p)
ZenithCentre(p) == p.geoRef \/ Single(p) \/ ~p.region
=============================================================================
