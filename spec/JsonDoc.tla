------------------------------ MODULE JsonDoc -------------------------------
(* Well-formed JSON documents (RFC 8259) as a pushdown automaton on bytes. *)
EXTENDS Text
LOCAL INSTANCE SequencesExt

(* m: what is expected or being read; s: open brackets (91 array, 123 object; 0 below);
   k: the string being read is a member name; r: rest of a literal *)
Start == [m |-> "val", s |-> <<>>, k |-> FALSE, r |-> <<>>]
Bad(st) == [st EXCEPT !.m = "bad"]
To(st, m) == [st EXCEPT !.m = m]
Ws(c) == c \in {32, 9, 10, 13}
Top(st) == IF st.s = <<>> THEN 0 ELSE st.s[Len(st.s)]
Push(st, c, m) == [st EXCEPT !.s = Append(@, c), !.m = m]
Pop(st) == [st EXCEPT !.s = SubSeq(@, 1, Len(@) - 1), !.m = "after"]
Hex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)

Value(st, c) ==
  CASE Ws(c) -> To(st, "val")
    [] c = 123 -> Push(st, 123, "obj0")
    [] c = 91 -> Push(st, 91, "arr0")
    [] c = 34 -> [st EXCEPT !.m = "str", !.k = FALSE]
    [] c = 45 -> To(st, "minus")
    [] c = 48 -> To(st, "zero")
    [] c >= 49 /\ c <= 57 -> To(st, "int")
    [] c = 116 -> [st EXCEPT !.m = "lit", !.r = <<114, 117, 101>>]
    [] c = 102 -> [st EXCEPT !.m = "lit", !.r = <<97, 108, 115, 101>>]
    [] c = 110 -> [st EXCEPT !.m = "lit", !.r = <<117, 108, 108>>]
    [] OTHER -> Bad(st)
After(st, c) ==
  CASE Ws(c) -> To(st, "after")
    [] c = 44 /\ Top(st) = 123 -> To(st, "key")
    [] c = 44 /\ Top(st) = 91 -> To(st, "val")
    [] c = 125 /\ Top(st) = 123 -> Pop(st)
    [] c = 93 /\ Top(st) = 91 -> Pop(st)
    [] OTHER -> Bad(st)
Key(st, c) == IF Ws(c) THEN st ELSE IF c = 34 THEN [st EXCEPT !.m = "str", !.k = TRUE] ELSE Bad(st)

(* UTF-8: how many bytes follow, and of which range the next one is *)
Lead(c) == CASE c >= 194 /\ c <= 223 -> "t1" [] c = 224 -> "e0" [] c = 237 -> "ed" [] c >= 225 /\ c <= 239 -> "t2"
             [] c = 240 -> "f0" [] c = 244 -> "f4" [] c >= 241 /\ c <= 243 -> "t3" [] OTHER -> "bad"
Least(m) == CASE m = "e0" -> 160 [] m = "f0" -> 144 [] OTHER -> 128
Greatest(m) == CASE m = "ed" -> 159 [] m = "f4" -> 143 [] OTHER -> 191
Following(m) == CASE m = "t1" -> "str" [] m \in {"t2", "e0", "ed"} -> "t1" [] OTHER -> "t2"

Read(st, c) ==
  CASE st.m = "bad" -> st
    [] st.m = "str" -> IF c = 34 THEN To(st, IF st.k THEN "colon" ELSE "after")
                       ELSE IF c = 92 THEN To(st, "esc") ELSE IF c < 32 THEN Bad(st) ELSE IF c < 128 THEN st ELSE To(st, Lead(c))
    [] st.m \in {"t1", "t2", "t3", "e0", "ed", "f0", "f4"} -> IF c >= Least(st.m) /\ c <= Greatest(st.m) THEN To(st, Following(st.m)) ELSE Bad(st)
    [] st.m = "val" -> Value(st, c)
    [] st.m = "after" -> After(st, c)
    [] st.m = "arr0" -> IF c = 93 THEN Pop(st) ELSE IF Ws(c) THEN st ELSE Value(st, c)
    [] st.m = "obj0" -> IF c = 125 THEN Pop(st) ELSE Key(st, c)
    [] st.m = "key" -> Key(st, c)
    [] st.m = "colon" -> IF Ws(c) THEN st ELSE IF c = 58 THEN To(st, "val") ELSE Bad(st)
    [] st.m = "esc" -> IF c \in {34, 92, 47, 98, 102, 110, 114, 116} THEN To(st, "str") ELSE IF c = 117 THEN To(st, "u1") ELSE Bad(st)
    [] st.m = "u1" -> IF Hex(c) THEN To(st, "u2") ELSE Bad(st)
    [] st.m = "u2" -> IF Hex(c) THEN To(st, "u3") ELSE Bad(st)
    [] st.m = "u3" -> IF Hex(c) THEN To(st, "u4") ELSE Bad(st)
    [] st.m = "u4" -> IF Hex(c) THEN To(st, "str") ELSE Bad(st)
    [] st.m = "lit" -> IF c = st.r[1] THEN (IF Len(st.r) = 1 THEN To(st, "after") ELSE [st EXCEPT !.r = Tail(@)]) ELSE Bad(st)
    [] st.m = "minus" -> IF c = 48 THEN To(st, "zero") ELSE IF c >= 49 /\ c <= 57 THEN To(st, "int") ELSE Bad(st)
    [] st.m = "int" -> IF IsDigit(c) THEN st ELSE IF c = 46 THEN To(st, "point") ELSE IF c \in {69, 101} THEN To(st, "exp") ELSE After(st, c)
    [] st.m = "zero" -> IF c = 46 THEN To(st, "point") ELSE IF c \in {69, 101} THEN To(st, "exp") ELSE After(st, c)
    [] st.m = "point" -> IF IsDigit(c) THEN To(st, "frac") ELSE Bad(st)
    [] st.m = "frac" -> IF IsDigit(c) THEN st ELSE IF c \in {69, 101} THEN To(st, "exp") ELSE After(st, c)
    [] st.m = "exp" -> IF IsDigit(c) THEN To(st, "expd") ELSE IF c \in {43, 45} THEN To(st, "exps") ELSE Bad(st)
    [] st.m = "exps" -> IF IsDigit(c) THEN To(st, "expd") ELSE Bad(st)
    [] st.m = "expd" -> IF IsDigit(c) THEN st ELSE After(st, c)

Final(st) == st.s = <<>> /\ st.m \in {"after", "int", "zero", "frac", "expd"}
WellFormed(b) == Final(FoldLeft(Read, Start, b))
(* number of bytes that can be read before the document is wrong *)
RECURSIVE ReadUpTo(_, _, _)
ReadUpTo(st, b, i) == IF i > Len(b) \/ Read(st, b[i]).m = "bad" THEN i - 1 ELSE ReadUpTo(Read(st, b[i]), b, i + 1)
=============================================================================
