SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NoDots
CHECK_DEADLOCK FALSE
