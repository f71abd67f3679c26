SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Alive
PROPERTIES LostOnce NothingAfter Alternates InOrder
CHECK_DEADLOCK FALSE
