SPECIFICATION Spec
CONSTANTS L = 7  B = 4
INVARIANTS Fits Whole OneLine SameAsChunks
PROPERTY Ends
CHECK_DEADLOCK FALSE
