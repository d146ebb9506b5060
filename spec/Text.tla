-------------------------------- MODULE Text --------------------------------
(* Byte strings (sequences of 0..255) as C code sees them: columns counted
   from 0, a NUL terminates, reading past the end gives NUL. *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Codes(s) == CHOOSE x \in {} : TRUE         \* the bytes of a string literal (java/FPO.java)
ShowText(s) == CHOOSE x \in {} : TRUE      \* and back, for messages

At(l, i) == IF i >= 0 /\ i < Len(l) THEN l[i + 1] ELSE 0
Cols(l, i, n) == [k \in 1..n |-> At(l, i + k - 1)]           \* n bytes from column i

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
DigitVal(c) == c - 48

AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])
AllBlank(s)  == \A k \in 1..Len(s) : s[k] = 32

(* value of a string of at most nine digits, blanks counted as zeros *)
DigitsVal(s) == FoldLeft(LAMBDA acc, c : acc * 10 + (IF c = 32 THEN 0 ELSE c - 48), 0, s)

(* blanks then at least one digit *)
RECURSIVE LeadBlanks(_, _)
LeadBlanks(s, k) == IF k <= Len(s) /\ s[k] = 32 THEN LeadBlanks(s, k + 1) ELSE k - 1
RightJustNumber(s) ==
  LET n == LeadBlanks(s, 1)
  IN  n < Len(s) /\ \A k \in (n + 1)..Len(s) : IsDigit(s[k])

(* the part of s before its first NUL *)
RECURSIVE NulPos(_, _)
NulPos(s, k) == IF k > Len(s) THEN k ELSE IF s[k] = 0 THEN k ELSE NulPos(s, k + 1)
CStr(s) == SubSeq(s, 1, NulPos(s, 1) - 1)

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE TrimFrom(_, _)
TrimFrom(s, n) == IF n > 1 /\ IsSpace(s[n]) THEN TrimFrom(s, n - 1) ELSE SubSeq(s, 1, n)
(* trailing white space removed, never below one character *)
TrimEnd(s) == IF s = <<>> THEN s ELSE TrimFrom(s, Len(s))

Truncate(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

(* position just after the k-th..: index of first byte c at or after k, or 0 *)
RECURSIVE Find(_, _, _)
Find(s, c, k) == IF k > Len(s) THEN 0 ELSE IF s[k] = c THEN k ELSE Find(s, c, k + 1)

(* fgets with a buffer of size n: the chunks a file is read in.  Result: sequence of chunks *)
RECURSIVE Chunks(_, _)
Chunks(s, n) ==
  IF s = <<>> THEN <<>>
  ELSE LET p == Find(s, 10, 1)
           e == IF p = 0 THEN Len(s) ELSE p
           m == IF e > n - 1 THEN n - 1 ELSE e
       IN  <<SubSeq(s, 1, m)>> \o Chunks(SubSeq(s, m + 1, Len(s)), n)

(* does b occur in a? *)
HasPart(a, b) == \E k \in 0..(Len(a) - Len(b)) : SubSeq(a, k + 1, k + Len(b)) = b
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
=============================================================================
