SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NeverStuck WaitsOnlyIfNeeded
PROPERTIES Whole First
CHECK_DEADLOCK FALSE
