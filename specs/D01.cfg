SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Wellformed
PROPERTIES OneKeyAtATime NothingLost
CHECK_DEADLOCK FALSE
