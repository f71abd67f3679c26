SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Within Confined Secure
CHECK_DEADLOCK FALSE
