SPECIFICATION Spec
CONSTANT Tool = "sat_visibility"
CONSTANT Most = 3
INVARIANTS SameMeaning Emit
CHECK_DEADLOCK FALSE
