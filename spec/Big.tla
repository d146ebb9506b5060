--------------------------------- MODULE Big --------------------------------
(* Unbounded integers (decimal strings, or plain TLC integers), because TLC's
   own integers have 32 bits.  Evaluated by java/FPO.java. *)
BAdd(a, b) == CHOOSE x \in {} : TRUE
BSub(a, b) == CHOOSE x \in {} : TRUE
BMul(a, b) == CHOOSE x \in {} : TRUE
BDiv(a, b) == CHOOSE x \in {} : TRUE      \* floor
BMod(a, b) == CHOOSE x \in {} : TRUE
BLt(a, b) == CHOOSE x \in {} : TRUE
BLe(a, b) == CHOOSE x \in {} : TRUE
BEq(a, b) == CHOOSE x \in {} : TRUE
BSqrt(a) == CHOOSE x \in {} : TRUE        \* floor of the square root
BInt(a) == CHOOSE x \in {} : TRUE         \* to a TLC integer
BToFP(a) == CHOOSE x \in {} : TRUE
BOfFP(a) == CHOOSE x \in {} : TRUE        \* truncated
=============================================================================
