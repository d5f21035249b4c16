SPECIFICATION TraceSpec
CONSTANT Ev <- TraceEv
CHECK_DEADLOCK FALSE
