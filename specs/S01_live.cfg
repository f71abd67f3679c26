SPECIFICATION Fair
PROPERTIES WaitingIsServed
CHECK_DEADLOCK FALSE
