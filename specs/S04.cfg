SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Apart DoneAreDone Knows NoneWaitsInVain ConsumerEats
PROPERTIES NeverLost
CHECK_DEADLOCK FALSE
