SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Settled NeverEarly InTime
CHECK_DEADLOCK FALSE
