SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneEnd TimeoutOnlyInside NoTimerAfter
PROPERTIES CancelledOnlyByRequest
CHECK_DEADLOCK FALSE
