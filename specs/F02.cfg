SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS DoneIsIdle NeverStranded OnlyOnce
PROPERTIES Settled
CHECK_DEADLOCK FALSE
