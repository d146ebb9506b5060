SPECIFICATION Spec
CONSTANT L = 2
CONSTANT Buckets = 1
INVARIANTS RightListing RightNames RightCount OncePerNumber NeverAnother Emit
CHECK_DEADLOCK FALSE
