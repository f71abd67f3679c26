SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NeverStuck
CHECK_DEADLOCK FALSE
