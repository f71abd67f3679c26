SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Inside
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
