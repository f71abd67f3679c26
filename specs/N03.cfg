SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Limits Alive
PROPERTIES LostOnce NothingAfter MadeFirst Alternates Flushed
CHECK_DEADLOCK FALSE
