SPECIFICATION Spec
CONSTANTS
    Remotes = {1, 2}
    Order <- GoodOrder
    Budget = 7
    MaxRegs = 4
INVARIANTS TypeOK ViewIsExact Delivered BackendLast OneRunnerOpen
PROPERTIES StartsAlone NoLateStart Ends Serves
CHECK_DEADLOCK FALSE
