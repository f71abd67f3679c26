SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoneLeft Complete Sound NeverForgotten
PROPERTIES Stays
CHECK_DEADLOCK FALSE
