------------------------------- MODULE CliMC --------------------------------
(* All command lines of a few options: exchanging two neighbouring options, writing a value as
   an argument of its own or attached, and moving the catalogue from the front to the end never
   change what the command line means, except for the pairs that take precedence by order. *)
EXTENDS Cli, FiniteSets, TLC, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS Tool, Most            \* options besides the site

O(c, v) == [c |-> Ch(c), v |-> Codes(v)]
Options ==
  IF Tool = Skymap
  THEN <<O("l", "44.5,-11.3,23"), O("j", "58861.25"), O("d", "2020-01-13T06:00:00"), O("p", "100,20"), O("r", "30"), O("r", "170.5"), O("n", "2"), O("t", "10"),
         O("a", "2000,300"), O("s", "12345"), O("i", "1998"), O("S", "S"), O("D", "sub"), O("T", ""), O("G", ""), O("E", ""), O("H", ""), O("V", ""), O("I", "")>>
  ELSE <<O("l", "44.5,-11.3,23"), O("j", "58861.2,58861.25"), O("d", "2020-01-13T06:00:00,2020-01-13T07:00:00"), O("r", "30"), O("r", "70.5"), O("t", "10"),
         O("a", "2000,300"), O("s", "12345"), O("i", "1998"), O("D", "sub"), O("T", ""), O("N", "")>>
Catalogue == Codes("c.tle")
Takes(k) == In(Options[k].c, Valued(Tool))

(* precedences: of these the later counts, or the later undoes the earlier *)
Pairs == {{Ch("a"), Ch("s")}, {Ch("a"), Ch("i")}, {Ch("p"), Ch("s")}, {Ch("p"), Ch("i")}, {Ch("D"), Ch("T")}}
Ordered(a, b) == Options[a].c = Options[b].c \/ {Options[a].c, Options[b].c} \in Pairs

Written(k, apart) == LET o == Options[k] IN IF ~Takes(k) THEN <<(<<45, o.c>>)>> ELSE IF apart THEN <<(<<45, o.c>>), o.v>> ELSE <<(<<45, o.c>> \o o.v)>>
Line(ord, apart, front) ==
  LET body == FoldLeft(LAMBDA acc, i : acc \o Written(ord[i], i \in apart), <<>>, [i \in 1..Len(ord) |-> i])
  IN  IF front THEN <<Catalogue>> \o body ELSE body \o <<Catalogue>>

VARIABLES base, ord, apart, front
vars == <<base, ord, apart, front>>
Sorted(s, up) == IF up THEN SetToSortSeq(s, LAMBDA a, b : a < b) ELSE SetToSortSeq(s, LAMBDA a, b : a > b)
Init == \E s \in UNION {kSubset(k, 2..Len(Options)) : k \in 0..Most}, up \in BOOLEAN :
          /\ base = Sorted(s \cup {1}, up) /\ ord = base /\ apart = {} /\ front = TRUE
Swap(i) == /\ ~Ordered(ord[i], ord[i + 1])
           /\ ord' = [ord EXCEPT ![i] = ord[i + 1], ![i + 1] = ord[i]] /\ UNCHANGED <<base, apart, front>>
Respell(i) == /\ Takes(ord[i]) /\ apart' = (apart \ {i}) \cup ({i} \ apart) /\ UNCHANGED <<base, ord, front>>
Move == front' = ~front /\ UNCHANGED <<base, ord, apart>>
Next == \/ \E i \in 1..(Len(ord) - 1) : Swap(i)
        \/ \E i \in 1..Len(ord) : Respell(i)
        \/ Move
Spec == Init /\ [][Next]_vars

SameMeaning == LET a == Decode(Tool, Line(base, {}, TRUE)) b == Decode(Tool, Line(ord, apart, front)) IN a = b /\ a.end = "go" /\ a.cat = Catalogue
Spread == FoldLeft(LAMBDA a, k : (a * 31 + k) % 30011, IF front THEN 1 ELSE 0, ord \o base \o [i \in 1..Len(ord) |-> IF i \in apart THEN 1 ELSE 0])
Emit == (IOEnv.EMIT # "0" /\ (Spread + atoi(IOEnv.SEED)) % atoi(IOEnv.EMIT) = 0) =>
  PrintT(<<"VPPAIR", ShowText(Joined(Line(base, {}, TRUE), <<124>>)), ShowText(Joined(Line(ord, apart, front), <<124>>))>>)
=============================================================================
