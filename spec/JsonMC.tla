------------------------------- MODULE JsonMC -------------------------------
(* The automaton of JsonDoc accepts exactly the documents of the grammar: all byte strings of
   up to L bytes over an alphabet with a letter of every lexical kind. *)
EXTENDS JsonDoc, IOUtils
CONSTANT L
Alphabet == {123, 125, 91, 93, 44, 58, 34, 48, 49, 45, 46, 101, 92, 32, 10, 195, 169}

IsInt(s) == Len(s) >= 1 /\ (LET d == IF s[1] = 45 THEN Tail(s) ELSE s IN Len(d) >= 1 /\ AllDigits(d) /\ (d[1] = 48 => Len(d) = 1))
IsFrac(s) == s = <<>> \/ (Len(s) >= 2 /\ s[1] = 46 /\ AllDigits(Tail(s)))
IsExp(s) == s = <<>> \/ (Len(s) >= 2 /\ s[1] = 101 /\ LET t == IF s[2] \in {43, 45} THEN SubSeq(s, 3, Len(s)) ELSE Tail(s) IN Len(t) >= 1 /\ AllDigits(t))
IsNumber(s) == \E i \in 1..Len(s) : IsInt(SubSeq(s, 1, i)) /\ \E j \in i..Len(s) : IsFrac(SubSeq(s, i + 1, j)) /\ IsExp(SubSeq(s, j + 1, Len(s)))
IsString(s) == /\ Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34
               /\ LET in == SubSeq(s, 2, Len(s) - 1)
                      \* every backslash pair is an escape, nothing else ends or breaks the string
                      P[i \in 1..(Len(in) + 1)] == IF i > Len(in) THEN TRUE
                        ELSE IF in[i] = 92 THEN i < Len(in) /\ in[i + 1] \in {34, 92, 98} /\ P[i + 2]
                        ELSE IF in[i] = 195 THEN i < Len(in) /\ in[i + 1] = 169 /\ P[i + 2]
                        ELSE in[i] # 34 /\ in[i] >= 32 /\ in[i] < 128 /\ P[i + 1]
                  IN  P[1]
RECURSIVE IsVal(_), IsItems(_), IsMembers(_), Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF Ws(s[1]) THEN Strip(Tail(s)) ELSE IF Ws(s[Len(s)]) THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Inner(s) == SubSeq(s, 2, Len(s) - 1)
IsVal(t) == LET s == Strip(t) IN
  /\ s # <<>>
  /\ \/ IsNumber(s) \/ IsString(s)
     \/ Len(s) >= 2 /\ s[1] = 91 /\ s[Len(s)] = 93 /\ (Strip(Inner(s)) = <<>> \/ IsItems(Inner(s)))
     \/ Len(s) >= 2 /\ s[1] = 123 /\ s[Len(s)] = 125 /\ (Strip(Inner(s)) = <<>> \/ IsMembers(Inner(s)))
IsItems(s) == IsVal(s) \/ \E i \in 1..Len(s) : s[i] = 44 /\ IsVal(SubSeq(s, 1, i - 1)) /\ IsItems(SubSeq(s, i + 1, Len(s)))
IsMember(s) == \E i \in 1..Len(s) : s[i] = 58 /\ IsString(Strip(SubSeq(s, 1, i - 1))) /\ IsVal(SubSeq(s, i + 1, Len(s)))
IsMembers(s) == IsMember(s) \/ \E i \in 1..Len(s) : s[i] = 44 /\ IsMember(SubSeq(s, 1, i - 1)) /\ IsMembers(SubSeq(s, i + 1, Len(s)))

VARIABLES b, st
Init == b = <<>> /\ st = Start
(* a string that can no longer become a document is not extended *)
Next == Len(b) < L /\ st.m # "bad" /\ \E c \in Alphabet : b' = Append(b, c) /\ st' = Read(st, c)
Agree == Final(st) <=> IsVal(b)
(* whatever was read, the part before the first wrong byte is a prefix of a document: the closing
   brackets of s complete it once the value being read is finished *)
Spec == Init /\ [][Next]_<<b, st>>
=============================================================================
