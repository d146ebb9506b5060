SPECIFICATION Spec
INVARIANTS ReadsWritten NoData Idempotent Faithful
CHECK_DEADLOCK FALSE
