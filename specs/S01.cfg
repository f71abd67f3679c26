SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exclusive NeverLost InOrder
PROPERTIES OnlyOneEnds
CHECK_DEADLOCK FALSE
