SPECIFICATION Spec
CONSTANT Tool = "sat_skymap"
CONSTANT Most = 2
INVARIANTS SameMeaning Emit
CHECK_DEADLOCK FALSE
