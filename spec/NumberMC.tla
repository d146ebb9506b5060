------------------------------ MODULE NumberMC ------------------------------
(* The numbering rule of catalogue texts, checked exhaustively: with a small
   alphabet (two or three digits, one or two letters) on all five positions
   every text has its own number and the numbers are exactly 0..A^5-1; the
   ranges of the real alphabet are the documented ones. *)
EXTENDS Tle, TLC
LOCAL INSTANCE IOUtils
LOCAL INSTANCE FiniteSets

Alphabets == IF IOEnv.BIG = "1" THEN {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<4, 2>>} ELSE {<<1, 1>>, <<2, 1>>, <<1, 2>>}

(* state: one alphabet and one text; Next walks to the text's successor number *)
VARIABLES al, d
Texts(a) == [1..5 -> 0..(a[1] + a[2] - 1)]
Number(a, t) == NumberGen(t, a[1], a[2])
Init == al \in Alphabets /\ d = [k \in 1..5 |-> 0]
Succ(a, t) == {u \in Texts(a) : Number(a, u) = Number(a, t) + 1}
Next == /\ Number(al, d) < PowI(al[1] + al[2], 5) - 1
        /\ d' \in Succ(al, d) /\ al' = al
Spec == Init /\ [][Next]_<<al, d>>
(* exactly one successor: no two texts share a number and no number is skipped *)
Bijective == Number(al, d) < PowI(al[1] + al[2], 5) - 1 => Cardinality(Succ(al, d)) = 1
StartsAtZero == Number(al, [k \in 1..5 |-> 0]) = 0

(* the documented ranges of the real alphabet *)
S(s) == NumberOf(s)
Z == 90 Ze == 48 A == 65 Ni == 57
ASSUME Ranges ==
  /\ S(<<Ze, Ze, Ze, Ze, Ze>>) = 0 /\ S(<<Ni, Ni, Ni, Ni, Ni>>) = 99999
  /\ S(<<A, Ze, Ze, Ze, Ze>>) = 100000 /\ S(<<Z, Ni, Ni, Ni, Ni>>) = 339999
  /\ S(<<Ze, Ze, Ze, Ze, A>>) = 340000 /\ S(<<Z, Z, Z, Z, Z>>) = 32412063
  /\ S(<<Ze, Ze, Ze, A, Ze>>) = 32412064 /\ S(<<Z, Z, Z, Z, Ni>>) = 41845023
  /\ S(<<Ze, Ze, A, Ze, Ze>>) = 41845024 /\ S(<<Z, Z, Z, Ni, Ni>>) = 44619423
  /\ S(<<Ze, A, Ze, Ze, Ze>>) = 44619424 /\ S(<<Z, Z, Ni, Ni, Ni>>) = MaxNumber
=============================================================================
