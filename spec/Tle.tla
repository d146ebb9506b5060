--------------------------------- MODULE Tle --------------------------------
(* Two-line element sets: which pairs of lines are element sets, and the value
   of every column of an accepted one. *)
EXTENDS Text, FP
LOCAL INSTANCE SequencesExt

(* ---------------------------------------------------------------- checksum *)
CkWeight(c) == IF IsDigit(c) THEN c - 48 ELSE IF c = 45 THEN 1 ELSE 0
Legal(c)    == c >= 32 /\ c <= 122
CkSum(l)    == FoldLeft(LAMBDA acc, c : acc + CkWeight(c), 0, SubSeq(l, 1, 68)) % 10

(* the line has the form of element line 1 or 2: number, blank, 69 legal columns, end *)
IsElementLine(l) ==
  /\ At(l, 0) \in {49, 50} /\ At(l, 1) = 32
  /\ Len(l) >= 69
  /\ \A k \in 1..69 : Legal(l[k])
  /\ At(l, 69) <= 32
CkRight(l) == IsDigit(At(l, 68)) /\ DigitVal(At(l, 68)) = CkSum(l)

(* "line": 0 right, > 0 only the checksum is wrong, < 0 not an element line *)
ChecksumClass(l) == IF ~IsElementLine(l) THEN "notline" ELSE IF CkRight(l) THEN "ok" ELSE "checksum"

(* ------------------------------------------------- type-H state-vector sets *)
Base36(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE -1
HighOk(l) == \A i \in 0..2 :
  LET o == 33 + 10 * i
  IN  At(l, o) \in {43, 45} /\ \A j \in 1..8 : Base36(At(l, o + j)) >= 0
HighVal(l, i) ==
  LET o == 33 + 10 * i
      m == FoldLeft(LAMBDA acc, c : (acc (.) D("36")) (+) N(Base36(c)), D("0"), Cols(l, o + 1, 8))
  IN  IF At(l, o) = 45 THEN Neg(m) ELSE m
IsHigh(l1) == At(l1, 62) = 72

(* ------------------------------------------------------------- acceptance  *)
(* "elements", "ck1", "ck2", "ck12" (only checksums wrong), "none" *)
PairClass(l1, l2) ==
  IF At(l1, 0) # 49 \/ At(l2, 0) # 50 \/ ~IsElementLine(l1) \/ ~IsElementLine(l2) THEN "none"
  ELSE IF IsHigh(l1) /\ ~(HighOk(l1) /\ HighOk(l2)) THEN "none"
  ELSE CASE CkRight(l1)  /\ CkRight(l2)  -> "elements"
         [] ~CkRight(l1) /\ CkRight(l2)  -> "ck1"
         [] CkRight(l1)  /\ ~CkRight(l2) -> "ck2"
         [] OTHER                        -> "ck12"
PairCode(cls) == CASE cls = "elements" -> 0 [] cls = "ck1" -> 1 [] cls = "ck2" -> 2 [] cls = "ck12" -> 3 [] OTHER -> -1

(* ---------------------------------------------------------- catalogue number *)
(* B34(c): 0..9 digits, 10..33 letters without I and O, blank is zero, -1 otherwise *)
B34(c) == CASE c = 32 -> 0
            [] IsDigit(c) -> c - 48
            [] c >= 65 /\ c <= 72 -> c - 55
            [] c >= 74 /\ c <= 78 -> c - 56
            [] c >= 80 /\ c <= 90 -> c - 57
            [] OTHER -> -1
(* The documented ranges, for an alphabet of Dg digits and Lt letters (10 and 24), on five positions.
   The last letter decides: letters after it are none, digits before it are of the whole alphabet. *)
PowI(b, n) == FoldLeft(LAMBDA acc, x : acc * b, 1, [i \in 1..n |-> 0])
NumberGen(d, Dg, Lt) ==
  LET A == Dg + Lt
      lastLetter == IF \E k \in 1..5 : d[k] >= Dg THEN CHOOSE k \in 1..5 : d[k] >= Dg /\ \A j \in (k + 1)..5 : d[j] < Dg ELSE 0
      tail(k) == FoldLeft(LAMBDA acc, x : acc * Dg + x, 0, SubSeq(d, k, 5))
      head(k) == FoldLeft(LAMBDA acc, x : acc * A + x, 0, SubSeq(d, 1, k))
      (* how many numbers the formats with the last letter at position j hold *)
      size(j) == IF j <= 1 THEN (IF j = 0 THEN PowI(Dg, 5) ELSE Lt * PowI(Dg, 4)) ELSE PowI(A, j - 1) * Lt * PowI(Dg, 5 - j)
      (* order of the formats: no letter, letter first, then last letter at 5, 4, 3, 2 *)
      base(j) == CASE j = 0 -> 0
                   [] j = 1 -> size(0)
                   [] j = 5 -> size(0) + size(1)
                   [] j = 4 -> size(0) + size(1) + size(5)
                   [] j = 3 -> size(0) + size(1) + size(5) + size(4)
                   [] j = 2 -> size(0) + size(1) + size(5) + size(4) + size(3)
  IN  IF lastLetter = 0 THEN tail(1)
      ELSE base(lastLetter)
           + (head(lastLetter - 1) * Lt + (d[lastLetter] - Dg)) * PowI(Dg, 5 - lastLetter)
           + tail(lastLetter + 1)
NumberOf(txt) ==                                  \* txt: five bytes
  LET d == [k \in 1..5 |-> B34(txt[k])]
  IN  IF \E k \in 1..5 : d[k] = -1 THEN 0 ELSE NumberGen(d, 10, 24)
MaxNumber == 45435423

(* ------------------------------------------------------------ column values *)
PI == D("3.141592653589793238462643383279502884197")
TWOPI == D("2") (.) PI
DEG == PI (/) D("180")

(* each field: [ok: its columns denote a value, v: the value] *)
NoVal == [ok |-> FALSE, v |-> 0]
Val(x) == [ok |-> TRUE, v |-> x]

(* sign digits "." digits *)
FixedField(ip, fp) == RightJustNumber(ip) /\ AllDigits(fp) /\ Len(fp) > 0

EpochYear(l1) ==        \* two digits (the first may be blank), window 1957..2056
  LET a == At(l1, 18) b == At(l1, 19)
      y == (IF a = 32 THEN 0 ELSE DigitVal(a)) * 10 + DigitVal(b)
  IN  IF (IsDigit(a) \/ a = 32) /\ IsDigit(b) THEN Val(IF y < 57 THEN 2000 + y ELSE 1900 + y) ELSE NoVal
(* Julian Day (x 2, an integer) of 0 January 0h of a Gregorian year *)
DaysBefore(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
JDJan0(y) == N(DaysBefore(y)) (+) D("1721424.5")
Epoch(l1) ==
  LET y == EpochYear(l1)
      dd == Cols(l1, 20, 3)  ff == Cols(l1, 24, 8)
  IN  IF y.ok /\ RightJustNumber(dd) /\ At(l1, 23) = 46 /\ AllDigits(ff) /\ At(l1, 32) = 32
      THEN Val(JDJan0(y.v) (+) (N(DigitsVal(dd)) (+) (N(DigitsVal(ff)) (.) D("1e-8"))))
      ELSE NoVal
Angle(l, o) ==          \* DDD.DDDD in degrees, at column o
  LET ip == Cols(l, o, 3) fp == Cols(l, o + 4, 4)
  IN  IF FixedField(ip, fp) /\ At(l, o + 3) = 46 /\ At(l, o + 8) = 32
      THEN Val((N(DigitsVal(ip)) (+) (N(DigitsVal(fp)) (/) D("10000"))) (.) DEG) ELSE NoVal
Ecc(l2) ==
  LET f == Cols(l2, 26, 7) IN
  IF AllDigits(f) /\ At(l2, 33) = 32 THEN Val(N(DigitsVal(f)) (/) D("10000000")) ELSE NoVal
MinPerDay == D("1440")
MeanMotion(l2) ==
  LET ip == Cols(l2, 52, 2) fp == Cols(l2, 55, 8)
  IN  IF FixedField(ip, fp) /\ At(l2, 54) = 46 /\ At(l2, 51) = 32
      THEN Val(((N(DigitsVal(ip)) (+) (N(DigitsVal(fp)) (.) D("1e-8"))) (.) TWOPI) (/) MinPerDay) ELSE NoVal
NDot(l1) ==             \* s.dddddddd
  LET f == Cols(l1, 35, 8) s == At(l1, 33)
  IN  IF At(l1, 34) = 46 /\ AllDigits(f) /\ At(l1, 43) = 32 /\ s \in {32, 43, 45, 48}
      THEN LET v == (N(DigitsVal(f)) (.) D("1e-8") (.) TWOPI) (/) (MinPerDay (.) MinPerDay)
           IN  Val(IF s = 45 THEN Neg(v) ELSE v)
      ELSE NoVal
Pow10 == <<D("1"), D("10"), D("100"), D("1000"), D("1e4"), D("1e5"), D("1e6"), D("1e7"), D("1e8"), D("1e9")>>
SciField(l, o) ==       \* sMMMMMsE, decimal point before the mantissa
  LET m == Cols(l, o + 1, 5) s == At(l, o) es == At(l, o + 6) e == At(l, o + 7)
      mag == N(DigitsVal(m)) (/) D("100000")
      p   == Pow10[DigitVal(e) + 1]
      v   == IF es = 45 THEN mag (/) p ELSE mag (.) p
  IN  IF AllDigits(m) /\ s \in {32, 43, 45} /\ es \in {32, 43, 45} /\ IsDigit(e)
      THEN Val(IF s = 45 THEN Neg(v) ELSE v)
      ELSE NoVal
NDDot6(l1) ==
  LET f == SciField(l1, 44) IN
  IF f.ok THEN Val((f.v (.) TWOPI) (/) (MinPerDay (.) MinPerDay (.) MinPerDay)) ELSE NoVal
BStar(l1) == SciField(l1, 53)
IntField(l, o, n) == LET f == Cols(l, o, n) IN IF RightJustNumber(f) THEN Val(DigitsVal(f)) ELSE NoVal
SetNumber(l1) == IntField(l1, 64, 4)
RevNumber(l2) == IntField(l2, 63, 5)
Designator(l1) == Cols(l1, 9, 8)
Classification(l1) == At(l1, 7)
EphemType(l1) == At(l1, 62)
CatNumber(l1) == NumberOf(Cols(l1, 2, 5))

(* every numeric column of the pair denotes a value *)
ColumnsOk(l1, l2) ==
  /\ Epoch(l1).ok /\ NDot(l1).ok /\ NDDot6(l1).ok /\ BStar(l1).ok
  /\ Angle(l2, 8).ok /\ Angle(l2, 17).ok /\ Angle(l2, 34).ok /\ Angle(l2, 43).ok
  /\ Ecc(l2).ok /\ MeanMotion(l2).ok

(* orbital elements of an accepted pair, for the models *)
Elements(l1, l2) ==
  IF IsHigh(l1)
  THEN [high |-> TRUE, epoch |-> Epoch(l1).v,
        sv |-> <<HighVal(l1, 0), HighVal(l1, 1), HighVal(l1, 2),
                 HighVal(l2, 0) (.) D("1e-4"), HighVal(l2, 1) (.) D("1e-4"), HighVal(l2, 2) (.) D("1e-4")>>]
  ELSE [high |-> FALSE, epoch |-> Epoch(l1).v, type |-> EphemType(l1),
        ndot |-> NDot(l1).v, nddot6 |-> NDDot6(l1).v, bstar |-> BStar(l1).v,
        incl |-> Angle(l2, 8).v, node |-> Angle(l2, 17).v, argp |-> Angle(l2, 34).v, mo |-> Angle(l2, 43).v,
        ecc |-> Ecc(l2).v, no |-> MeanMotion(l2).v]

(* the designator as the tools print it: "98067A  " -> "1998-067A"; blank -> "none" *)
DesigText(l1) ==
  LET d == Designator(l1)
      k == IF \E i \in 1..8 : ~IsDigit(d[i]) THEN (CHOOSE i \in 1..8 : ~IsDigit(d[i]) /\ \A m \in 1..(i - 1) : IsDigit(d[m])) - 1 ELSE 8
      n == DigitsVal(SubSeq(d, 1, k))       \* its leading number, year and launch
  IN  IF d[1] = 32 THEN <<110, 111, 110, 101>>
      ELSE TrimEnd((IF n > 57000 THEN <<49, 57>> ELSE <<50, 48>>)
                   \o SubSeq(d, 1, 2) \o <<45>> \o SubSeq(d, 3, 8))
=============================================================================
