------------------------------ MODULE ReadMC --------------------------------
(* Reading a catalogue or a list through a buffer of B bytes (fgets): whatever the file
   holds, every piece fits, nothing is lost or invented, and reading ends.  The selected
   pieces are what the walks of SkyMap and VisTrace work on. *)
EXTENDS Text
LOCAL INSTANCE SequencesExt
CONSTANTS L, B
Alphabet == {0, 10, 13, 35, 49}
Contents == UNION {[1..n -> Alphabet] : n \in 0..L}
VARIABLES file, rest, got
Init == file \in Contents /\ rest = file /\ got = <<>>
Piece(s) == LET p == Find(s, 10, 1)  e == IF p = 0 THEN Len(s) ELSE p IN SubSeq(s, 1, IF e > B - 1 THEN B - 1 ELSE e)
Read == /\ rest # <<>>
        /\ LET c == Piece(rest) IN got' = Append(got, c) /\ rest' = SubSeq(rest, Len(c) + 1, Len(rest))
        /\ UNCHANGED file
Spec == Init /\ [][Read]_<<file, rest, got>> /\ WF_<<file, rest, got>>(Read)
Fits == \A k \in 1..Len(got) : Len(got[k]) \in 1..(B - 1)
Whole == Joined(got, <<>>) \o rest = file
OneLine == \A k \in 1..Len(got) : LET p == Find(got[k], 10, 1) IN p \in {0, Len(got[k])}
SameAsChunks == rest = <<>> => got = Chunks(file, B)
Ends == <>(rest = <<>>)
=============================================================================
