----------------------------- MODULE FitsMapMC ------------------------------
(* Files, writers and readers: whatever is read is what the first successful writer of that
   name wrote, and failures leave everything as it was. *)
EXTENDS FitsMap, FiniteSets, TLC
Names == {"a", "b"}
Words == {0, 1065353216, 2143289344, 2139095040, -8388608, 1, Null, -2147483647 - 1, 8388608}
Maps == {Written(1, nest, c, [i \in 1..2 |-> IF i = 1 THEN w ELSE v]) : nest \in BOOLEAN, c \in {"G", "C", "Q"}, w \in Words, v \in {0, 2143289344}}
VARIABLES files, first, got
vars == <<files, first, got>>
Init == files \in [Names -> {Absent, [kind |-> "other"]}] /\ first = [n \in Names |-> Absent] /\ got = <<>>
Write(n, m) == /\ files' = [files EXCEPT ![n] = AfterWrite(files[n], m)]
               /\ first' = IF WriteOk(files[n]) THEN [first EXCEPT ![n] = m] ELSE first
               /\ got' = <<>>
Read(n) == /\ got' = IF Readable(files[n]) THEN <<n, [i \in 1..2 |-> Stored(files[n].vals[i])], files[n].ordering, files[n].coord>> ELSE <<n>>
           /\ UNCHANGED <<files, first>>
Next == \E n \in Names : Read(n) \/ \E m \in Maps : Write(n, m)
Spec == Init /\ [][Next]_vars
ReadsWritten == Len(got) = 4 => /\ first[got[1]] # Absent
                                /\ got[2] = [i \in 1..2 |-> Stored(first[got[1]].vals[i])]
                                /\ got[3] = first[got[1]].ordering /\ got[4] = first[got[1]].coord
NoData == Len(got) = 1 => first[got[1]] = Absent
Idempotent == \A w \in Words : Stored(Stored(w)) = Stored(w)
Faithful == \A w \in Words : Exponent(w) \in 1..254 => Stored(w) = w
=============================================================================
