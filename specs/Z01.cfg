SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Unique OneEach
PROPERTIES Kept
CHECK_DEADLOCK FALSE
