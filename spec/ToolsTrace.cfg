SPECIFICATION ToolsSpec
CONSTANT Ev <- TraceEv
CHECK_DEADLOCK FALSE
