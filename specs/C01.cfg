SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Ordered
PROPERTIES OnlyWhenDue NoneOnceCancelled EachOnce Goes
CHECK_DEADLOCK FALSE
