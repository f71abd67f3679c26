SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Unique NoneStarves
PROPERTIES NeverLost
CHECK_DEADLOCK FALSE
