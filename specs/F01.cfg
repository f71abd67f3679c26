SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NotifiedOnlyAfter NothingLeftBehind
PROPERTIES SettledOnce NeverSynchronous
CHECK_DEADLOCK FALSE
