SPECIFICATION Spec
CONSTANT Tool = "sat_visibility"
CONSTANT Most = 2
INVARIANTS SameMeaning Emit
CHECK_DEADLOCK FALSE
