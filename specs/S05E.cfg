SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Limited Room AllDone FailureTold
CHECK_DEADLOCK FALSE
