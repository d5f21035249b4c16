SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    EvSrv <- TraceEvSrv
    EvType <- TraceEvType
