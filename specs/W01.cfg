SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK CloseIsLast OpenTellsNothing Texts
PROPERTIES Forward Silence Order
CHECK_DEADLOCK FALSE
