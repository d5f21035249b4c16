SPECIFICATION TraceSpec
CONSTANTS Remotes <- ServerRemotes
CHECK_DEADLOCK FALSE
