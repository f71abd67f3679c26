SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Mirrors
PROPERTIES Settled Independent
CHECK_DEADLOCK FALSE
