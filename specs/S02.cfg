SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoneWaitsOnSet
PROPERTIES SetWakesAll OnlyWhenSet OthersUndisturbed
CHECK_DEADLOCK FALSE
