SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Sorted Found
PROPERTIES Kept Replaces
CHECK_DEADLOCK FALSE
