SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OnlyRegistered Once
CHECK_DEADLOCK FALSE
