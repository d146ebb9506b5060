------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar and Modified Julian Dates. *)
EXTENDS Text, FP

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOfYear(y, m, d) == CumDays[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
YearStart(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
ValidDate(y, m, d) == y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59

(* day 0 is 17 November 1858 *)
DayNumber(y, m, d) == YearStart(y) + DayOfYear(y, m, d) - 678576

(* inverse, for any day of years 1..9999 *)
YearOf(n) ==
  LET a == n + 678576 - 1                       \* days since 1 January of year 1
      g == (a \div 146097) * 400 + 1
      y0 == g + ((a % 146097) * 400) \div 146097
  IN  CHOOSE y \in (y0 - 1)..(y0 + 1) : YearStart(y) - 678576 < n /\ n <= YearStart(y + 1) - 678576
CivilOf(n) ==
  LET y == YearOf(n)
      r == n + 678576 - YearStart(y)
      m == CHOOSE k \in 1..12 : DayOfYear(y, k, 1) <= r /\ r < DayOfYear(y, k, 1) + MonthLen(y, k)
  IN  <<y, m, r - DayOfYear(y, m, 1) + 1>>
NextDay(c) ==
  IF c[3] < MonthLen(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
  ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>

(* ---------------------------------------------- text of a date, as scanf reads it *)
RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF IsSpace(At(t, i)) THEN SkipSpace(t, i + 1) ELSE i
RECURSIVE DigitRun(_, _, _, _)
DigitRun(t, i, w, v) == IF w > 0 /\ IsDigit(At(t, i)) THEN DigitRun(t, i + 1, w - 1, v * 10 + DigitVal(At(t, i))) ELSE <<i, v>>
(* an integer of at most w characters at column i *)
ScanInt(t, i, w) ==
  LET j == SkipSpace(t, i)
      sg == At(t, j) \in {43, 45}
      r == DigitRun(t, j + (IF sg THEN 1 ELSE 0), w - (IF sg THEN 1 ELSE 0), 0)
  IN  [ok |-> r[1] > j + (IF sg THEN 1 ELSE 0), pos |-> r[1], v |-> IF At(t, j) = 45 THEN 0 - r[2] ELSE r[2]]
Fail == [ok |-> FALSE, f |-> <<>>]
RECURSIVE ScanParts(_, _, _, _)
ScanParts(t, i, parts, acc) ==       \* parts: <<width, byte that follows (0: none)>> ...
  IF parts = <<>> THEN [ok |-> TRUE, f |-> acc]
  ELSE LET r == ScanInt(t, i, parts[1][1])
       IN  IF ~r.ok THEN Fail
           ELSE IF parts[1][2] = 0 THEN [ok |-> TRUE, f |-> Append(acc, r.v)]
           ELSE IF At(t, r.pos) # parts[1][2] THEN Fail
           ELSE ScanParts(t, r.pos + 1, Tail(parts), Append(acc, r.v))
ScanDate(t) == ScanParts(t, 0, <<<<4, 45>>, <<2, 45>>, <<2, 84>>, <<2, 58>>, <<2, 58>>, <<2, 0>>>>, <<>>)

(* the date text, when it names a real date and time *)
DateOf(t) ==
  LET r == ScanDate(t) IN
  IF ~r.ok THEN [date |-> FALSE, real |-> FALSE, day |-> 0, sec |-> 0]
  ELSE LET f == r.f
           ok == ValidDate(f[1], f[2], f[3]) /\ f[1] <= 9999 /\ ValidTime(f[4], f[5], f[6])
       IN  [date |-> TRUE, real |-> ok, day |-> IF ok THEN DayNumber(f[1], f[2], f[3]) ELSE 0,
            sec |-> IF ok THEN f[4] * 3600 + f[5] * 60 + f[6] ELSE 0]
MjdOfDate(r) == N(r.day) (+) (N(r.sec) (/) D("86400"))

(* exactly yyyy-mm-ddThh:mm:ss or yyyy-mm-ddThh:mm:ss.mmm with all fields in range *)
WellFormed(t, frac) ==
  /\ Len(t) = (IF frac THEN 23 ELSE 19)
  /\ \A k \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} \cup (IF frac THEN {21, 22, 23} ELSE {}) : IsDigit(t[k])
  /\ t[5] = 45 /\ t[8] = 45 /\ t[11] = 84 /\ t[14] = 58 /\ t[17] = 58
  /\ (frac => t[20] = 46)
  /\ DateOf(t).real
(* seconds from day number dn 0h to the instant the text names *)
SecondsFrom(t, dn, frac) ==
  LET r == DateOf(t)
      ms == IF frac THEN N(DigitsVal(SubSeq(t, 21, 23))) (/) D("1000") ELSE D("0")
  IN  (N(r.day - dn) (.) D("86400")) (+) (N(r.sec) (+) ms)

(* lexicographic order of two well-formed texts of the same form *)
RECURSIVE LexLe(_, _, _)
LexLe(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLe(a, b, k + 1)

(* the range in which a date is printed at all *)
Supported(mjd) == LET j == D("2400000.5") (+) mjd IN ~(j \prec D("-68569.5")) /\ ~(D("1e9") \prec j)
FirstMjd == D("0")               \* 17 November 1858
EndMjd   == D("2973483.999")     \* in 9999
InYears(mjd) == ~(mjd \prec FirstMjd) /\ mjd \preceq EndMjd
FirstMs == D("1e-3")
TolSec(mjd) == D("2e-5") (+) (D("1e-10") (.) Abs(mjd))

(* is text t the date of instant mjd, to the second (nearest) or truncated to the millisecond? *)
IsDateOf(t, mjd, frac) ==
  LET dn == Trunc(Floor(mjd))
      s  == (mjd (-) Floor(mjd)) (.) D("86400")
  IN  /\ WellFormed(t, frac)
      /\ LET x == SecondsFrom(t, dn, frac) (-) s     \* text minus instant
         IN  IF frac THEN x \preceq TolSec(mjd) /\ Neg(FirstMs (+) TolSec(mjd)) \preceq x
             ELSE Abs(x) \preceq (D("0.5") (+) TolSec(mjd))
=============================================================================
