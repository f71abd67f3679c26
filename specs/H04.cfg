SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoBodyOfGet CookieOfHost
CHECK_DEADLOCK FALSE
