SPECIFICATION TraceSpec
CONSTANTS Servers <- TServers
CHECK_DEADLOCK FALSE
