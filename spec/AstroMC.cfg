SPECIFICATION Spec
INVARIANTS UnitHorizon ZenithDistance SepSymmetric SepTurns SepHalves GroundRoundTrip ShadowSide GmstDay PrecessionInRange
CHECK_DEADLOCK FALSE
