SPECIFICATION Spec
CONSTANTS
    Sizes <- SizesB
    MaxResults = 2
    MaxFaults = 2
    FilterKept = TRUE
    KeepLast = TRUE
INVARIANTS Correct PrefixOfSessions
PROPERTIES EventuallyComplete
CHECK_DEADLOCK FALSE
