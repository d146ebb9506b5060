SPECIFICATION Spec
CONSTANT Guards = {"remove", "exit"}
INVARIANTS Undamaged Installed Independent
CHECK_DEADLOCK FALSE
