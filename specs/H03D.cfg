SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS Shapes <- AllOrders Times <- ManyTimes Numbers <- ManyNumbers Months <- ManyMonths Words <- ManyWords
CHECK_DEADLOCK FALSE
