SPECIFICATION Spec
CONSTANT None = None
VIEW View
INVARIANTS Reached Anchored RecentPeriodics EpochExact
PROPERTY FreshEnough
CHECK_DEADLOCK FALSE
