----------------------------- MODULE CalendarMC -----------------------------
(* Day after day through the calendar: the conversions of module Calendar are
   right for every date, and each other's inverse. *)
EXTENDS Calendar, TLC
LOCAL INSTANCE IOUtils
VARIABLES n, c
From == IF IOEnv.BIG = "1" THEN {<<100 * k + 1, 1, 1>> : k \in 18..99} ELSE {<<y, 1, 1>> : y \in {1800, 1900, 2000, 2100, 9900}}
Years == 12
Init == c \in From /\ n = YearStart(c[1]) - 678576 + 1
Next == /\ n' = n + 1 /\ c' = NextDay(c)
        /\ IF IOEnv.BIG = "1" THEN <<c'[1] % 100, c'[2], c'[3]>> # <<1, 1, 1>> ELSE c'[1] % 100 < Years
Spec == Init /\ [][Next]_<<n, c>>
Number == DayNumber(c[1], c[2], c[3]) = n
Inverse == CivilOf(n) = c
Anchors == /\ DayNumber(1858, 11, 17) = 0 /\ DayNumber(2000, 1, 1) = 51544
           /\ DayNumber(2020, 1, 13) = 58861 /\ DayNumber(1970, 1, 1) = 40587
=============================================================================
