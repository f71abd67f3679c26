SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exclusive Bounded
CHECK_DEADLOCK FALSE
