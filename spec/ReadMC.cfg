SPECIFICATION Spec
CONSTANTS L = 5  B = 3
INVARIANTS Fits Whole OneLine SameAsChunks
PROPERTY Ends
CHECK_DEADLOCK FALSE
