SPECIFICATION Spec
CONSTANTS
    Conns = {1}
    MaxReqs = 3
    Ignore = TRUE
    FailPending = TRUE
INVARIANTS Own Unique NoSpuriousEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
