SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    Mods <- TraceMods
    Match <- TraceMatch
