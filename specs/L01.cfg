SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES NothingDueIsLeft NeverEarly InOrder Cancelled
CHECK_DEADLOCK FALSE
