SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES EndLast
CHECK_DEADLOCK FALSE
