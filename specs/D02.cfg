SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnlyLive
PROPERTIES NeverLost OnlyTheDead
CHECK_DEADLOCK FALSE
