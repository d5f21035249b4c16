SPECIFICATION Spec
CONSTANTS
    Budget = 9
    MaxRegs = 8
INVARIANTS TypeOK StandbyIsQuiet OperationalHasEngine
PROPERTIES Cycle NewEngineIsAlone Allowed Closes Starts
CHECK_DEADLOCK FALSE
