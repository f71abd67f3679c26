SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InOrder Complete
CHECK_DEADLOCK FALSE
