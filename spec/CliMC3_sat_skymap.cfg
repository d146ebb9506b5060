SPECIFICATION Spec
CONSTANT Tool = "sat_skymap"
CONSTANT Most = 3
INVARIANTS SameMeaning Emit
CHECK_DEADLOCK FALSE
