SPECIFICATION Spec
CONSTANTS
    Budget = 4
    MaxRegs = 3
INVARIANTS TypeOK StandbyIsQuiet OperationalHasEngine
PROPERTIES Cycle NewEngineIsAlone Allowed Closes Starts
CHECK_DEADLOCK FALSE
